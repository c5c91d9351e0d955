/* two ends of a channel, driven by hand */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <sodium.h>
#include "XK.h"
#include "noise_private.h"
static Noise_XK_device_t *device(uint8_t priv[32], const char *prologue, const char *name) {
  uint8_t sk[32]={0};
  return Noise_XK_device_create(strlen(prologue)+1, (uint8_t*) prologue, (uint8_t*) name, sk, priv);
}
static int send_(Noise_XK_session_t *s, const char *text, uint8_t **out, uint32_t *len) {
  Noise_XK_encap_message_t *m = Noise_XK_pack_message_with_conf_level(NOISE_XK_CONF_ZERO, text?strlen(text)+1:0, (uint8_t*) text);
  Noise_XK_rcode r = Noise_XK_session_write(m, s, len, out);
  Noise_XK_encap_message_p_free(m);
  return Noise_XK_rcode_is_success(r) ? 0 : -1;
}
static int recv_(Noise_XK_session_t *s, uint8_t *in, uint32_t len) {
  Noise_XK_encap_message_t *m;
  Noise_XK_rcode r = Noise_XK_session_read(&m, s, len, in);
  if(!Noise_XK_rcode_is_success(r)) return -1;
  Noise_XK_encap_message_p_free(m);
  return 0;
}
static int pass(Noise_XK_session_t *from, Noise_XK_session_t *to) {
  uint8_t *m; uint32_t n;
  if(send_(from, NULL, &m, &n)) return 1;
  int r = recv_(to, m, n) ? 2 : 0;
  free(m);
  return r;
}
