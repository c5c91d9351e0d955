PROP='P14'
NEEDS='an output buffer whose end lies inside the slice of a peer'
WHAT='the slice of the trusted party output for a peer may reach beyond the output'
EDITS=[('src/tp-dkg.c','''  if(base+base_size < *msg + *len) {''','''  if(base+base_size < *msg) {''')]
DEMO=r'''
#include "sim.h"
#define M4 (sizeof(TP_DKG_Message)+48)
int main(void) {
  Sim s; if(sim_start(&s,3,2,EPS)) return 99;
  s.tp.prev=2;
  uint8_t *b=zalloc(9*M4); const uint8_t *m; size_t l;
  if(tpdkg_tp_peer_msg(&s.tp, b, 9*M4, 2, &m, &l)!=0) return 98;
  if(tpdkg_tp_peer_msg(&s.tp, b, 9*M4-1, 2, &m, &l)==0) { puts("slice beyond the output"); return 1; }
  return 0;
}
'''
