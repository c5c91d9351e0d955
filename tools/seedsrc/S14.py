PROP='P18'
NEEDS='an unfounded complaint'
WHAT='the report of an unfounded complaint returns the index of the falsely accused peer'
EDITS=[('src/tp-dkg.c','''      return c->other_peer;
''','''      return c->peer;
''')]
DEMO=r'''
#include "sim.h"
int main(void) {
  TP_DKG_Cheater c; char out[256];
  memset(&c,0,sizeof c);
  c.step=18; c.error=128; c.peer=3; c.other_peer=5;
  if(tpdkg_cheater_msg(&c,out,sizeof out)!=5) { puts("wrong culprit"); return 1; }
  return 0;
}
'''
