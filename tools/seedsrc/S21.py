PROP='P21'
NEEDS='a polynomial with a zero coefficient'
WHAT='evaluating the sharing polynomial skips zero coefficients, so its running time depends on them'
EDITS=[('src/dkg.c','''    // a[t] * z^t
    crypto_core_ristretto255_scalar_mul(tmp, a[t], tmp);''','''    if(sodium_is_zero(a[t], crypto_core_ristretto255_SCALARBYTES)) continue;
    // a[t] * z^t
    crypto_core_ristretto255_scalar_mul(tmp, a[t], tmp);''')]
CFLAGS='-Wl,--wrap=crypto_core_ristretto255_scalar_random -Wl,--wrap=crypto_core_ristretto255_scalar_mul -Wl,--wrap=crypto_core_ristretto255_scalar_add'
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <sodium.h>
#include "toprf.h"
#include "dkg.h"
void __real_crypto_core_ristretto255_scalar_random(unsigned char *r);
void __real_crypto_core_ristretto255_scalar_mul(unsigned char *z, const unsigned char *x, const unsigned char *y);
void __real_crypto_core_ristretto255_scalar_add(unsigned char *z, const unsigned char *x, const unsigned char *y);
static int calls, k, zero;
void __wrap_crypto_core_ristretto255_scalar_random(unsigned char *r) {
  __real_crypto_core_ristretto255_scalar_random(r);
  if(k++==1 && zero) memset(r,0,32);
}
void __wrap_crypto_core_ristretto255_scalar_mul(unsigned char *z, const unsigned char *x, const unsigned char *y) { calls++; __real_crypto_core_ristretto255_scalar_mul(z,x,y); }
void __wrap_crypto_core_ristretto255_scalar_add(unsigned char *z, const unsigned char *x, const unsigned char *y) { calls++; __real_crypto_core_ristretto255_scalar_add(z,x,y); }
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t c[3][32]; TOPRF_Share s[4];
  dkg_start(4,3,c,s);
  int a=calls; calls=k=0; zero=1;
  dkg_start(4,3,c,s);
  if(a!=calls) { printf("work depends on a coefficient: %d and %d operations\n",a,calls); return 1; }
  return 0;
}
'''
