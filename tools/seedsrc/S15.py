PROP='P01'
NEEDS='a trusted party that hands a peer a changed copy of the share message the peer sent to itself'
WHAT='a peer no longer verifies the looped-back share message that carries its own share'
EDITS=[('src/tp-dkg.c','''    int ret = recv_msg(ptr, tpdkg_msg8_SIZE, 8, i+1, ctx->index, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
    if(0!=ret) return 64+ret;
''','''    if(i+1!=ctx->index) {
      int ret = recv_msg(ptr, tpdkg_msg8_SIZE, 8, i+1, ctx->index, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
      if(0!=ret) return 64+ret;
    }
''')]
DEMO=r'''
#include "sim.h"
static int hit;
static void cheat(Sim *s, int peer, int step, uint8_t *b, size_t len) {
  if(peer!=1 || len!=3*tpdkg_msg8_SIZE) return;
  uint8_t *m=b+tpdkg_msg8_SIZE;
  if(MSG(m)->msgno!=8 || MSG(m)->from!=2) return;
  MSG(m)->sig[5]^=1; hit=1;
}
int main(void) {
  Sim s; on_peer_in=cheat;
  if(sim_start(&s,3,2,EPS)) return 99;
  sim_run(&s);
  if(!hit) return 98;
  if(s.peer_fail_step[1]<0) { puts("message with a bad signature was used"); return 1; }
  return 0;
}
'''
