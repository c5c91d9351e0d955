PROP='P16'
NEEDS='a peer whose share to itself carries a wrong authentication tag'
WHAT='the share a peer sends to itself through the trusted party is taken without checking its tag'
EDITS=[('src/tp-dkg.c','''    if(0!=crypto_auth_verify(msg8->data + noise_xk_handshake3_SIZE + sizeof(TOPRF_Share) + crypto_secretbox_xchacha20poly1305_MACBYTES,
                             msg8->data + noise_xk_handshake3_SIZE,''','''    if(i+1!=ctx->index && 0!=crypto_auth_verify(msg8->data + noise_xk_handshake3_SIZE + sizeof(TOPRF_Share) + crypto_secretbox_xchacha20poly1305_MACBYTES,
                             msg8->data + noise_xk_handshake3_SIZE,''')]
DEMO=r'''
#include "sim.h"
static void cheat(Sim *s, int peer, int step, uint8_t *b, size_t len) {
  if(step==4 && peer==1) { uint8_t *m=b+tpdkg_msg8_SIZE; m[tpdkg_msg8_SIZE-1]^=1; resign(m, tpdkg_msg8_SIZE, s->peers[1].sig_sk); }
}
int main(void) {
  Sim s; on_peer_out=cheat;
  if(sim_start(&s,3,2,EPS)) return 99;
  sim_run(&s);
  if(s.peer_fail_step[1]!=5) { puts("share with a wrong tag accepted"); return 1; }
  return 0;
}
'''
