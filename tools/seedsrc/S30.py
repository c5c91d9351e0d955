PROP='P30'
NEEDS='an initiator that does not have the private key of the identity it claims'
WHAT='the last handshake step no longer involves the static key of the initiator, anyone can pose as a registered peer'
EDITS=[('src/noise_xk/src/XK.c','''            Noise_XK_error_code r0 = Noise_XK_mix_dh(st_spriv, st_re, st_cipher, st_ck, st_h);''','''            Noise_XK_error_code r0 = Noise_XK_mix_dh(st_epriv, st_re, st_cipher, st_ck, st_h);'''),
('src/noise_xk/src/XK.c','''                Noise_XK_error_code r11 = Noise_XK_mix_dh(st_epriv, st_rs, st_cipher, st_ck, st_h);''','''                Noise_XK_error_code r11 = Noise_XK_mix_dh(st_epriv, st_re, st_cipher, st_ck, st_h);''')]
DEMO=r'''
#include "chan.h"
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t apriv[32], apub[32], rpriv[32], rpub[32], mpriv[32];
  randombytes_buf(apriv, 32); randombytes_buf(rpriv, 32); randombytes_buf(mpriv, 32);
  crypto_scalarmult_base(apub, apriv); crypto_scalarmult_base(rpub, rpriv);
  Noise_XK_device_t *rd = device(rpriv, "channel", "responder");
  if(!Noise_XK_device_add_peer(rd, (uint8_t*) "alice", apub)) return 98;
  for(int honest=1;honest>=0;honest--) {
    Noise_XK_device_t *id = device(honest ? apriv : mpriv, "channel", "alice");
    Noise_XK_peer_t *p = Noise_XK_device_add_peer(id, (uint8_t*) "responder", rpub);
    if(!p) return 98;
    Noise_XK_session_t *i = Noise_XK_session_create_initiator(id, Noise_XK_peer_get_id(p));
    Noise_XK_session_t *r = Noise_XK_session_create_responder(rd);
    if(!i || !r) return 98;
    /* claim to be alice, knowing only the public key */
    memcpy(i->val.case_DS_Initiator.state.val.case_IMS_Handshake.spub, apub, 32);
    if(pass(i, r) || pass(r, i)) return 97;
    int ok = pass(i, r)==0;
    if(honest && !ok) { puts("honest handshake fails"); return 1; }
    if(!honest && ok) { puts("accepted as alice without the private key"); return 1; }
  }
  return 0;
}
'''
