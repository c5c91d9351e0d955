PROP='P07'
NEEDS='a trusted party whose final message starts like the approval but is something else'
WHAT='a peer takes any final message beginning with the first letter of the approval word as approval'
EDITS=[('src/tp-dkg.c','''  int fail = (memcmp(msg21->data, "OK", 2) != 0);''','''  int fail = (msg21->data[0] != 'O');''')]
DEMO=r'''
#include "sim.h"
static void cheat(Sim *s, int step, uint8_t *b, size_t len) {
  if(step==8) { MSG(b)->data[1]='x'; resign(b, len, s->tp.sig_sk); }
}
int main(void) {
  Sim s; on_tp_out=cheat;
  if(sim_start(&s,3,2,EPS)) return 99;
  sim_run(&s);
  for(int i=0;i<3;i++) if(s.peer_fail_step[i]!=9) { puts("share assembled without approval"); return 1; }
  return 0;
}
'''
