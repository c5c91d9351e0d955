PROP='P12'
NEEDS='a first message announcing a threshold equal to the number of peers'
WHAT='a peer joins a session in which the threshold equals the number of peers'
EDITS=[('src/tp-dkg.c','''  if(ctx->t >= ctx->n) return 2;''','''  if(ctx->t > ctx->n) return 2;''')]
DEMO=r'''
#include "sim.h"
int main(void) {
  Sim s; TP_DKG_PeerState p;
  if(sim_start(&s,4,2,EPS)) return 99;
  memset(&p,0,sizeof p);
  if(tpdkg_start_peer(&p, EPS, s.lt_sks[0], MSG(s.msg0))) return 99;
  MSG(s.msg0)->data[65]=4;
  resign(s.msg0, sizeof s.msg0, s.tp.sig_sk);
  if(tpdkg_start_peer(&p, EPS, s.lt_sks[0], MSG(s.msg0))==0) { puts("t==n accepted"); return 1; }
  return 0;
}
'''
