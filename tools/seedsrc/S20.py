PROP='P20'
NEEDS='an input longer than 255 bytes'
WHAT='only the low byte of the input length enters the OPRF output hash'
EDITS=[('src/oprf.c','''  uint16_t size=htons(x_len);''','''  uint16_t size=htons((uint8_t) x_len);''')]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <sodium.h>
#include "oprf.h"
static void ref(const uint8_t *x, size_t n, const uint8_t N[32], uint8_t out[64]) {
  crypto_hash_sha512_state st; uint8_t l[2];
  crypto_hash_sha512_init(&st);
  l[0]=n>>8; l[1]=n; crypto_hash_sha512_update(&st,l,2); crypto_hash_sha512_update(&st,x,n);
  l[0]=0; l[1]=32; crypto_hash_sha512_update(&st,l,2); crypto_hash_sha512_update(&st,N,32);
  crypto_hash_sha512_update(&st,(const uint8_t*)"Finalize",8);
  crypto_hash_sha512_final(&st,out);
}
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t x[300], N[32], a[64], b[64];
  for(int i=0;i<300;i++) x[i]=i*7;
  crypto_core_ristretto255_random(N);
  for(size_t n=1;n<=300;n+=13) {
    if(oprf_Finalize(x,n,N,a)) return 98;
    ref(x,n,N,b);
    if(memcmp(a,b,64)) { printf("output hash differs for %zu\n",n); return 1; }
  }
  return 0;
}
'''
