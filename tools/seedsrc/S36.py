PROP='P36'
NEEDS='an expansion of more than 128 bytes'
WHAT='every second block of a long expansion is chained to the block before the previous one'
EDITS=[('src/oprf.c','''    expand_loop(b_0, b_ii, i+1, dst_prime, (uint8_t) (sizeof dst_prime), b_i);
''','''    expand_loop(b_0, b_i, i+1, dst_prime, (uint8_t) (sizeof dst_prime), b_i);
''')]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <sodium.h>
#include "oprf.h"
static void block(const uint8_t *b0, const uint8_t *prev, uint8_t i, const uint8_t *tag, size_t tl, uint8_t *out) {
  uint8_t x[64], last=(uint8_t) tl;
  crypto_hash_sha512_state st;
  for(int j=0;j<64;j++) x[j]=prev ? b0[j]^prev[j] : b0[j];
  crypto_hash_sha512_init(&st);
  crypto_hash_sha512_update(&st, x, 64);
  crypto_hash_sha512_update(&st, &i, 1);
  crypto_hash_sha512_update(&st, tag, tl);
  crypto_hash_sha512_update(&st, &last, 1);
  crypto_hash_sha512_final(&st, out);
}
int main(void) {
  if(sodium_init()<0) return 99;
  const uint8_t msg[]="some message", tag[]="some tag";
  const uint8_t lens[]={32,64,100,128,150,192,255};
  for(unsigned k=0;k<sizeof lens;k++) {
    uint8_t pad[128]={0}, l[3]={0,lens[k],0}, tl=sizeof tag - 1, b0[64], want[256], got[256];
    crypto_hash_sha512_state st;
    crypto_hash_sha512_init(&st);
    crypto_hash_sha512_update(&st, pad, sizeof pad);
    crypto_hash_sha512_update(&st, msg, sizeof msg - 1);
    crypto_hash_sha512_update(&st, l, 3);
    crypto_hash_sha512_update(&st, tag, tl);
    crypto_hash_sha512_update(&st, &tl, 1);
    crypto_hash_sha512_final(&st, b0);
    for(int i=0;i<4;i++) block(b0, i?want+64*(i-1):NULL, i+1, tag, tl, want+64*i);
    if(expand_message_xmd(msg, sizeof msg - 1, tag, tl, lens[k], got)) return 1;
    if(memcmp(want, got, lens[k])) { printf("expansion to %d bytes is not the standard one\n", lens[k]); return 1; }
  }
  return 0;
}
'''
