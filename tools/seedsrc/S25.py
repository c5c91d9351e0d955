PROP='P25'
NEEDS='a threshold above 127 with fewer peers'
WHAT='starting a shared multiplication accepts fewer peers than the threshold'
EDITS=[('src/mpmult.c','''     peers<threshold ||''','''     (int8_t)peers<(int8_t)threshold ||''')]
DEMO=r'''
#include <stdio.h>
#include <sodium.h>
#include "toprf.h"
#include "mpmult.h"
int main(void) {
  if(sodium_init()<0) return 99;
  static uint8_t a[33]={1,5}, b[33]={1,7}, out[255][33];
  if(toprf_mpc_mul_start(a,b,5,3,out)) return 98;
  for(int p=1;p<=255;p+=2) for(int t=p+1;t<=255;t++)
    if(toprf_mpc_mul_start(a,b,p,t,out)==0) { printf("accepted %d peers with threshold %d\n",p,t); return 1; }
  return 0;
}
'''
