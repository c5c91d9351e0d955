PROP='P28'
NEEDS='a share whose index byte is not the one of the participant summing up'
WHAT='summing the dealt shares leaves out those whose index byte differs'
EDITS=[('src/dkg.c','''      if(debug) fprintf(stderr, "\\e[0;31mbad share i=%d index=%d\\e[0m\\n", i, shares[i].index);
''','''      if(debug) fprintf(stderr, "\\e[0;31mbad share i=%d index=%d\\e[0m\\n", i, shares[i].index);
      continue;
''')]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <sodium.h>
#include "toprf.h"
#include "dkg.h"
int main(void) {
  if(sodium_init()<0) return 99;
  TOPRF_Share shares[3], xi;
  memset(shares,0,sizeof shares); memset(&xi,0,sizeof xi);
  for(int i=0;i<3;i++) { shares[i].index=2; shares[i].value[0]=i+1; }
  shares[1].index=0;
  dkg_finish(3,shares,2,&xi);
  printf("sum %d\n",xi.value[0]);
  return xi.value[0]!=6;
}
'''
