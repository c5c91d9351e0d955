PROP='P11'
NEEDS='looking at more than the first bytes of the session id'
WHAT='only the first eight bytes of the session id are random'
EDITS=[('src/tp-dkg.c','''  randombytes_buf(&ctx->sessionid, sizeof ctx->sessionid);''','''  randombytes_buf(&ctx->sessionid, sizeof &ctx->sessionid);''')]
DEMO=r'''
#include "sim.h"
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t m[tpdkg_msg0_SIZE], seen[tpdkg_sessionid_SIZE];
  TP_DKG_TPState tp;
  memset(&tp,0x5a,sizeof tp);
  if(tpdkg_start_tp(&tp, EPS, 3, 2, "proto test", 10, sizeof m, MSG(m))) return 98;
  memcpy(seen, tp.sessionid, sizeof seen);
  for(int k=0;k<3;k++) {
    memset(&tp,0x5a,sizeof tp);
    if(tpdkg_start_tp(&tp, EPS, 3, 2, "proto test", 10, sizeof m, MSG(m))) return 98;
    for(int q=0;q<tpdkg_sessionid_SIZE;q+=8) if(memcmp(seen+q,tp.sessionid+q,8)==0) { puts("part of the session id repeats"); return 1; }
  }
  return 0;
}
'''
