PROP='P35'
NEEDS='a caller that uses the dealt shares again after combining them'
WHAT='combining the dealt shares of a product scales the shares of the caller in place'
EDITS=[('src/mpmult.c','''    crypto_core_ristretto255_scalar_mul(tmp, shares[i]+1, inverted[0][i]);
''','''    uint8_t *term = (uint8_t*) shares[i]+1;
    crypto_core_ristretto255_scalar_mul(term, term, inverted[0][i]);
'''),('src/mpmult.c','''    crypto_core_ristretto255_scalar_add(share->value, share->value, tmp);
''','''    crypto_core_ristretto255_scalar_add(share->value, share->value, term);
'''),('src/mpmult.c','''  share->index=peer;
  uint8_t tmp[crypto_core_ristretto255_SCALARBYTES];
''','''  share->index=peer;
''')]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <sodium.h>
#include "toprf.h"
#include "mpmult.h"
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t indexes[3]={1,2,3}, shares[3][TOPRF_Share_BYTES], first[TOPRF_Share_BYTES], second[TOPRF_Share_BYTES];
  for(int i=0;i<3;i++) { shares[i][0]=2; crypto_core_ristretto255_scalar_random(shares[i]+1); }
  toprf_mpc_mul_finish(3, indexes, 2, shares, first);
  toprf_mpc_mul_finish(3, indexes, 2, shares, second);
  if(memcmp(first, second, sizeof first)) { puts("combining the same shares again gives another result"); return 1; }
  return 0;
}
'''
