// in-process run of the TP DKG with hooks on everything that is transported
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <time.h>
#include <arpa/inet.h>
#include <sodium.h>
#include "utils.h"
#include "toprf.h"
#include "dkg.h"
#include "tp-dkg.h"

#define EPS 120
typedef struct {
  int n, t;
  uint64_t eps;
  TP_DKG_TPState tp;
  TP_DKG_PeerState *peers;
  uint8_t (*lt_pks)[32], (*lt_sks)[64];
  TP_DKG_Cheater *cheaters;
  int tp_ret, tp_fail_step;       // first failing step of the TP
  int *peer_ret, *peer_fail_step;
  int *peer_done;
  uint8_t msg0[tpdkg_msg0_SIZE];
} Sim;

// hooks, may be NULL; in place modification
static void (*on_tp_in)(Sim*, int step, uint8_t *buf, size_t len);
static void (*on_peer_in)(Sim*, int peer, int step, uint8_t *buf, size_t len);
static void (*on_tp_out)(Sim*, int step, uint8_t *buf, size_t len);
static void (*on_peer_out)(Sim*, int peer, int step, uint8_t *buf, size_t len);
static void (*on_setup)(Sim*);
static size_t sim_cheater_max;

static uint64_t sim_be64(uint64_t v) { uint8_t b[8]; for(int i=7;i>=0;i--) { b[i]=v&0xff; v>>=8; } memcpy(&v,b,8); return v; }
static void resign(uint8_t *m, size_t len, const uint8_t *sk) { crypto_sign_detached(m, NULL, m+64, len-64, sk); }

static void *zalloc(size_t n) { void *p=calloc(1,n?n:1); if(!p) exit(99); return p; }

static int sim_start(Sim *s, int n, int t, uint64_t eps) {
  if(sodium_init()<0) exit(99);
  memset(s,0,sizeof *s);
  s->n=n; s->t=t; s->eps=eps; s->tp_fail_step=-1;
  s->lt_pks=zalloc(n*32); s->lt_sks=zalloc(n*64);
  for(int i=0;i<n;i++) crypto_sign_keypair(s->lt_pks[i], s->lt_sks[i]);
  int r=tpdkg_start_tp(&s->tp, eps, n, t, "proto test", 10, sizeof s->msg0, (TP_DKG_Message*) s->msg0);
  if(r) return r;
  size_t cm = sim_cheater_max ? sim_cheater_max : (size_t) t*t-1;
  s->cheaters=zalloc((cm+64)*sizeof(TP_DKG_Cheater));
  memset(s->cheaters+cm, 0xa5, 64*sizeof(TP_DKG_Cheater)); // guard
  tpdkg_tp_set_bufs(&s->tp, zalloc(n*t*32), zalloc(n*n*2+64), zalloc((size_t)n*n*tpdkg_msg8_SIZE),
                    (TP_DKG_Cheater (*)[]) s->cheaters, cm, zalloc(n*32), (void*) s->lt_pks, zalloc(n*8));
  s->peers=zalloc(n*sizeof(TP_DKG_PeerState));
  s->peer_ret=zalloc(n*sizeof(int)); s->peer_fail_step=zalloc(n*sizeof(int)); s->peer_done=zalloc(n*sizeof(int));
  for(int i=0;i<n;i++) {
    s->peer_fail_step[i]=-1;
    r=tpdkg_start_peer(&s->peers[i], eps, s->lt_sks[i], (TP_DKG_Message*) s->msg0);
    if(r) return r;
    tpdkg_peer_set_bufs(&s->peers[i], zalloc(n*32), zalloc(n*32), zalloc(n*8), zalloc(n*8),
                        zalloc(n*sizeof(TOPRF_Share)), zalloc(n*sizeof(TOPRF_Share)), zalloc(n*t*32),
                        zalloc(n*n*2+64), zalloc(n+64), zalloc(n*8));
  }
  if(on_setup) on_setup(s);
  return 0;
}

// runs until the TP is done or fails; peers that fail stay silent afterwards
static int sim_run(Sim *s) {
  size_t tlen=0; uint8_t *tin=NULL;
  while(tpdkg_tp_not_done(&s->tp)) {
    int step=s->tp.step;
    size_t want=tpdkg_tp_input_size(&s->tp);
    if(tlen!=want) { tin=realloc(tin,want+1); if(want>tlen) memset(tin+tlen,0,want-tlen); tlen=want; }
    size_t olen=tpdkg_tp_output_size(&s->tp);
    uint8_t *out=zalloc(olen);
    if(on_tp_in) on_tp_in(s, step, tin, tlen);
    int r=tpdkg_tp_next(&s->tp, tlen?tin:NULL, tlen, olen?out:NULL, olen);
    if(r && s->tp_fail_step<0) { s->tp_ret=r; s->tp_fail_step=step; }
    if(r) return r;
    if(on_tp_out) on_tp_out(s, step, out, olen);
    uint8_t **pin=zalloc(s->n*sizeof(void*)); size_t *pl=zalloc(s->n*sizeof(size_t));
    for(int i=0;i<s->n;i++) {
      const uint8_t *m=NULL; size_t l=0;
      if(tpdkg_tp_peer_msg(&s->tp, out, olen, i, &m, &l)) return -1;
      pin[i]=zalloc(l); if(l) memcpy(pin[i], m, l); pl[i]=l;
    }
    tlen=0;
    int any=1, first=1;
    while(tlen==0 && any) {
      any=0;
      for(int i=0;i<s->n;i++) {
        TP_DKG_PeerState *p=&s->peers[i];
        if(s->peer_fail_step[i]>=0 || !tpdkg_peer_not_done(p)) continue;
        any=1;
        size_t in=tpdkg_peer_input_size(p), ol=tpdkg_peer_output_size(p);
        int ps=p->step;
        uint8_t *po=zalloc(ol), *ib=zalloc(in);
        if(first && pl[i]) memcpy(ib, pin[i], in<pl[i]?in:pl[i]);
        if(on_peer_in) on_peer_in(s, i, ps, ib, in);
        int r2=tpdkg_peer_next(p, in?ib:NULL, in, ol?po:NULL, ol);
        if(r2) { s->peer_ret[i]=r2; s->peer_fail_step[i]=ps; memset(po,0,ol); }
        else if(on_peer_out) on_peer_out(s, i, ps, po, ol);
        if(ol) { tin=realloc(tin, tlen+ol); memcpy(tin+tlen, po, ol); tlen+=ol; }
        free(po); free(ib);
      }
      first=0;
      if(!tpdkg_tp_not_done(&s->tp)) break;
    }
    free(out);
  }
  return 0;
}
#define MSG(p) ((TP_DKG_Message*)(p))
