PROP='P31'
NEEDS='an initiator whose public key differs from that of a registered peer in the last byte only'
WHAT='the responder looks for the proven key among the registered ones by its first 31 bytes, so a stranger is taken for a registered peer'
EDITS=[('src/noise_xk/src/XK.c','''                bool b = Noise_XK_lbytes_eq((uint32_t)32U, x.p_s, st_rs);''','''                bool b = Noise_XK_lbytes_eq((uint32_t)31U, x.p_s, st_rs);'''),
('src/noise_xk/src/XK.c','''                  bool b0 = Noise_XK_lbytes_eq((uint32_t)32U, x.p_s, st_rs);''','''                  bool b0 = Noise_XK_lbytes_eq((uint32_t)31U, x.p_s, st_rs);''')]
DEMO=r'''
#include "chan.h"
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t ipriv[32], ipub[32], rpriv[32], rpub[32], other[32], key[32];
  randombytes_buf(ipriv, 32); randombytes_buf(rpriv, 32); randombytes_buf(other, 32);
  crypto_scalarmult_base(ipub, ipriv); crypto_scalarmult_base(rpub, rpriv);
  /* the responder knows some other peer and one key: first that of the initiator, then ones that differ in one byte */
  for(int at=-1;at<32;at++) {
    memcpy(key, ipub, 32);
    if(at>=0) key[at] ^= 1;
    Noise_XK_device_t *rd = device(rpriv, "channel", "responder");
    Noise_XK_device_t *id = device(ipriv, "channel", "initiator");
    Noise_XK_peer_t *k = Noise_XK_device_add_peer(rd, (uint8_t*) "peer", key);
    Noise_XK_peer_t *o = Noise_XK_device_add_peer(rd, (uint8_t*) "other", other);
    Noise_XK_peer_t *p = Noise_XK_device_add_peer(id, (uint8_t*) "responder", rpub);
    if(!p || !k || !o) return 98;
    Noise_XK_session_t *i = Noise_XK_session_create_initiator(id, Noise_XK_peer_get_id(p));
    Noise_XK_session_t *r = Noise_XK_session_create_responder(rd);
    if(!i || !r) return 98;
    if(pass(i, r) || pass(r, i)) return 97;
    int ok = pass(i, r)==0;
    if(at<0 && (!ok || Noise_XK_session_get_peer_id(r)!=Noise_XK_peer_get_id(k))) { puts("registered peer refused"); return 1; }
    if(at>=0 && ok) { printf("a key differing in byte %d is taken for the registered one\n", at); return 1; }
  }
  return 0;
}
'''
