PROP='P05'
NEEDS='an invalid share message from one peer to another'
WHAT='a rejected share message is put down to the peer it was meant for instead of the one that sent it'
EDITS=[('src/tp-dkg.c','''        if(add_cheater(ctx, 14, 64+ret, j+1, i+1) == NULL) return 7;''','''        if(add_cheater(ctx, 14, 64+ret, i+1, j+1) == NULL) return 7;''')]
DEMO=r'''
#include "sim.h"
// peer 1 spoils what it sends to peer 3
static void cheat(Sim *s, int peer, int step, uint8_t *b, size_t len) {
  if(step==4 && peer==0) b[2*tpdkg_msg8_SIZE+200]^=1;
}
int main(void) {
  Sim s; on_peer_out=cheat;
  if(sim_start(&s,4,2,EPS)) return 99;
  sim_run(&s);
  if(s.tp_fail_step!=5 || s.tp.cheater_len!=1 || s.cheaters[0].peer!=1) { puts("wrong peer blamed"); return 1; }
  return 0;
}
'''
