PROP='P10'
NEEDS='a blinding factor that has no inverse'
WHAT='unblinding leaves its buffer locked and unerased when the blinding factor cannot be inverted'
EDITS=[('src/oprf.c','''  if (crypto_core_ristretto255_scalar_invert(ir, r) != 0) {
    sodium_munlock(ir, sizeof ir);
    return -1;
  }
''','''  if (crypto_core_ristretto255_scalar_invert(ir, r) != 0) return -1;
''')]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <sodium.h>
#include "oprf.h"
static int locked;
int sodium_mlock(void *const a, const size_t l) { locked++; return 0; }
int sodium_munlock(void *const a, const size_t l) { locked--; memset(a,0,l); return 0; }
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t r[32]={0}, Z[32], N[32];
  crypto_core_ristretto255_random(Z);
  if(oprf_Unblind(r,Z,N)==0) return 99;
  if(locked) { puts("buffer left locked"); return 1; }
  return 0;
}
'''
