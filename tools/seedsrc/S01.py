PROP='P02'
NEEDS='a directed message re-addressed to everybody (recipient 255) by its own sender'
WHAT='the common receive routine takes a message addressed to everybody where only one addressed to the receiver is allowed'
EDITS=[('src/tp-dkg.c','  if(msg->to != to) return 4;\n','  // broadcasts are meant for everyone, us included\n  if(msg->to != to && msg->to != 0xff) return 4;\n')]
DEMO=r'''
#include "sim.h"
static void cheat(Sim *s, int peer, int step, uint8_t *b, size_t len) {
  if(step==4 && peer==1) { MSG(b)->to=0xff; resign(b, 256, s->peers[1].sig_sk); }
}
int main(void) {
  Sim s; on_peer_out=cheat;
  if(sim_start(&s,4,2,EPS)) return 99;
  sim_run(&s);
  if(s.tp_fail_step!=5 || s.tp.cheater_len!=1 || s.cheaters[0].peer!=2) { puts("a misaddressed message was accepted"); return 1; }
  return 0;
}
'''
