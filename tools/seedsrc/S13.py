PROP='P17'
NEEDS='a share that cannot be checked because a commitment is not a group element'
WHAT='a peer complains only about shares that do not match, not about those whose check cannot be carried out'
EDITS=[('src/dkg.c','''    if(0 == ret) continue;''','''    if(1 != ret) continue;''')]
DEMO=r'''
#include "sim.h"
static void cheat(Sim *s, int peer, int step, uint8_t *b, size_t len) {
  if(step==3 && peer==1) { memset(MSG(b)->data+32, 0xff, 32); resign(b, len, s->peers[1].sig_sk); }
}
static int seen;
static void look(Sim *s, int step, uint8_t *b, size_t len) {
  if(step==6) { for(int i=0;i<s->n;i++) { uint8_t *m=b+i*(len/s->n); if(MSG(m)->data[0]==1 && MSG(m)->data[1]==2) seen++; } }
}
int main(void) {
  Sim s; on_peer_out=cheat; on_tp_in=look;
  if(sim_start(&s,3,2,EPS)) return 99;
  sim_run(&s);
  if(seen!=2) { puts("no complaint about an unverifiable share"); return 1; }
  return 0;
}
'''
