PROP='P29'
NEEDS='blinding twice with the same buffer for the blinding factor'
WHAT='blinding reuses a blinding factor it finds in the output buffer'
EDITS=[('src/oprf.c','''  crypto_core_ristretto255_scalar_random(r);
#endif

#ifdef TRACE
  dump(r, crypto_core_ristretto255_SCALARBYTES, "r");''','''  if(sodium_is_zero(r, crypto_core_ristretto255_SCALARBYTES)) crypto_core_ristretto255_scalar_random(r);
#endif

#ifdef TRACE
  dump(r, crypto_core_ristretto255_SCALARBYTES, "r");''')]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <sodium.h>
#include "oprf.h"
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t r[32]={0}, a[32], b[32];
  if(oprf_Blind((const uint8_t*)"simple",6,r,a)) return 98;
  if(oprf_Blind((const uint8_t*)"simple",6,r,b)) return 97;
  return memcmp(a,b,32)==0;
}
'''
