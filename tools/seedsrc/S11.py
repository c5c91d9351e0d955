PROP='P13'
NEEDS='a complaint about peer 0'
WHAT='the trusted party takes complaints about peer 0, which later count outside of its arrays'
EDITS=[('src/tp-dkg.c','''      if(msg->data[k+1] > ctx->n || msg->data[k+1] < 1) {
        if(add_cheater(ctx, 16, 7''','''      if(msg->data[k+1] > ctx->n) {
        if(add_cheater(ctx, 16, 7''')]
DEMO=r'''
#include "sim.h"
static void cheat(Sim *s, int peer, int step, uint8_t *b, size_t len) {
  if(step==5 && peer==1) { MSG(b)->data[0]=1; MSG(b)->data[1]=0; resign(b, len, s->peers[1].sig_sk); }
}
int main(void) {
  Sim s; on_peer_out=cheat;
  if(sim_start(&s,3,2,EPS)) return 99;
  sim_run(&s);
  if(s.tp_fail_step!=6 || s.tp.complaints_len!=0) { puts("complaint about peer 0 accepted"); return 1; }
  return 0;
}
'''
