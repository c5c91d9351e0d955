PROP='P04'
NEEDS='a trusted party that replaces a peer\'s own commitments in the broadcast it sends back to that peer'
WHAT='a peer takes over its own entry of the commitments broadcast without validating it'
EDITS=[('src/tp-dkg.c','''    if(0!=recv_msg(ptr, tpdkg_msg6_SIZE(ctx), 6, i+1, 0xff, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i])) return 64+ret;''',
'''    // our own commitments need no check, we just sent them
    if(i+1 != ctx->index &&
       0!=recv_msg(ptr, tpdkg_msg6_SIZE(ctx), 6, i+1, 0xff, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i])) return 64+ret;''')]
DEMO=r'''
#include "sim.h"
static void cheat(Sim *s, int peer, int step, uint8_t *b, size_t len) {
  size_t m6=111+32*s->t;
  if(step==4 && peer==2) { b[111+2*m6+111]^=1; resign(b, len, s->tp.sig_sk); }
}
int main(void) {
  Sim s; on_peer_in=cheat;
  if(sim_start(&s,4,2,EPS)) return 99;
  sim_run(&s);
  if(s.peer_fail_step[2]!=4) { puts("peer used commitments of an invalid message"); return 1; }
  return 0;
}
'''
