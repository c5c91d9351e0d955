PROP='P26'
NEEDS='a channel that has carried more than 2^32 messages'
WHAT='channel nonces are cut to 32 bits and repeat'
EDITS=[('src/noise_xk/src/Noise_XK.c','''  store64_le(nonce12_end, nonce);
#ifndef WITH_HACL
  crypto_aead_chacha20poly1305_ietf_encrypt(''','''  store64_le(nonce12_end, (uint32_t) nonce);
#ifndef WITH_HACL
  crypto_aead_chacha20poly1305_ietf_encrypt('''),
('src/noise_xk/src/Noise_XK.c','''  store64_le(nonce12_end, nonce);
#ifndef WITH_HACL
  uint32_t''','''  store64_le(nonce12_end, (uint32_t) nonce);
#ifndef WITH_HACL
  uint32_t''')]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#include <sodium.h>
void Noise_XK_aead_encrypt(uint8_t *key, uint64_t nonce, uint32_t aad_len, uint8_t *aad, uint32_t plen, uint8_t *plain, uint8_t *cipher);
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t k[32]={3}, p[20]="same message, twice", a[36], b[36];
  Noise_XK_aead_encrypt(k, 1, 0, NULL, 20, p, a);
  Noise_XK_aead_encrypt(k, ((uint64_t)1<<32)+1, 0, NULL, 20, p, b);
  if(memcmp(a,b,sizeof a)==0) { puts("different nonces, same ciphertext"); return 1; }
  return 0;
}
'''
