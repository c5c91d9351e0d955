PROP='P19'
NEEDS='a threshold above 127'
WHAT='evaluating the sharing polynomial does not terminate for large thresholds'
EDITS=[('src/dkg.c','''  for(int t=1;t<threshold;t++) {
    // tmp = 1''','''  for(int8_t t=1;t<threshold;t++) {
    // tmp = 1''')]
DEMO=r'''
#include <stdio.h>
#include <unistd.h>
#include <sodium.h>
#include "toprf.h"
#include "dkg.h"
static uint8_t c[130][32]; static TOPRF_Share s[2];
int main(void) {
  if(sodium_init()<0) return 99;
  alarm(20);
  if(dkg_start(2,130,c,s)) return 98;
  return 0;
}
'''
