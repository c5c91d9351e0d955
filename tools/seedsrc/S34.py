PROP='P34'
NEEDS='diagnostics switched on and a dealt share that does not match the commitments'
WHAT='the diagnostic about a share that failed verification prints the share'
EDITS=[('src/dkg.c','''    if(debug) fprintf(stderr, "\\e[0;31mfailed to verify proof of P_%d in stage 2\\e[0m\\n", i);
''','''    if(debug) fprintf(stderr, "\\e[0;31mfailed to verify proof of P_%d in stage 2\\e[0m\\n", i);
    dump(share.value, sizeof share.value, "share of P_%d does not match", i);
''')]
DEMO=r'''
#include <stdio.h>
#include <string.h>
#include <unistd.h>
#include <sodium.h>
#include "toprf.h"
#include "dkg.h"
#include "utils.h"
int main(void) {
  if(sodium_init()<0) return 99;
  uint8_t commitments[2][crypto_core_ristretto255_BYTES];
  TOPRF_Share shares[3];
  if(dkg_start(3, 2, commitments, shares)) return 98;
  FILE *log = tmpfile();
  if(!log) return 97;
  int old = dup(2);
  dup2(fileno(log), 2);
  debug = 1;
  TOPRF_Share bad = shares[1];
  bad.value[0] ^= 1;
  int good = dkg_verify_commitment(3, 2, 2, 1, commitments, shares[1]);
  int refused = dkg_verify_commitment(3, 2, 2, 1, commitments, bad);
  fflush(stderr);
  dup2(old, 2);
  if(good!=0 || refused!=1) return 96;
  static char text[65536];
  rewind(log);
  text[fread(text, 1, sizeof text - 1, log)] = 0;
  char hex[65];
  sodium_bin2hex(hex, sizeof hex, bad.value, 32);
  if(strstr(text, hex) || strstr(text, hex+4)) { puts("the share is in the diagnostics"); return 1; }
  return 0;
}
'''
