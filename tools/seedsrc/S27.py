PROP='P27'
NEEDS='a dealer that hands a participant a correct share made out for another index'
WHAT='shares are checked at the index they carry instead of the index of the receiver'
EDITS=[('src/dkg.c','''  uint8_t j[crypto_core_ristretto255_SCALARBYTES]={self};
  //dump(j,sizeof(j), "\\nj        ");''','''  uint8_t j[crypto_core_ristretto255_SCALARBYTES]={share.index};
  //dump(j,sizeof(j), "\\nj        ");''')]
DEMO=r'''
#include <stdio.h>
#include <sodium.h>
#include "toprf.h"
#include "dkg.h"
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t com[3][crypto_core_ristretto255_BYTES];
  TOPRF_Share shares[5];
  if(dkg_start(5,3,com,shares)) return 98;
  for(int self=1;self<=5;self++) for(int s=0;s<5;s++) {
    int r=dkg_verify_commitment(5,3,self,self==1?2:1,com,shares[s]);
    if((r==0)!=(s==self-1)) { printf("share %d for %d: %d\n",s+1,self,r); return 1; }
  }
  return 0;
}
'''
