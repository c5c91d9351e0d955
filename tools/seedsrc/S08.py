PROP='P09'
NEEDS='a blinding share whose value is zero in the three-hash evaluation'
WHAT='the failing evaluation of the second term of the three-hash evaluation is ignored'
EDITS=[('src/toprf.c','''  if(oprf_Evaluate(z->value, point, h2.value)) return 1;
''','''  int ret = oprf_Evaluate(z->value, point, h2.value);
'''),('src/toprf.c','''  crypto_core_ristretto255_add(beta->value, beta->value, h2.value);

  return 0;''','''  ret = crypto_core_ristretto255_add(beta->value, beta->value, h2.value);

  return ret;''')]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <sodium.h>
#include "oprf.h"
#include "toprf.h"
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t k[33]={1}, z[33]={1}, a[32], b[33];
  crypto_core_ristretto255_scalar_random(k+1);
  crypto_core_ristretto255_random(a);
  if(toprf_3hashtdh(k,z,a,(uint8_t*)"ssid",4,b)==0) { puts("success after a failed evaluation"); return 1; }
  return 0;
}
'''
