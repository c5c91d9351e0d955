PROP='P03'
NEEDS='a later message from a peer whose timestamp is older than its previous one'
WHAT='the per-sender reference time is only set by the first message, so timestamps that go backwards later on are accepted'
EDITS=[('src/tp-dkg.c','''    if(ts > now + ts_epsilon) return 4;
  } else {''','''    if(ts > now + ts_epsilon) return 4;
    *last_ts = ts;
  } else {'''),('src/tp-dkg.c','''    if(ts > *last_ts + ts_epsilon) return 2;
  }
  *last_ts = ts;
  return 0;''','''    if(ts > *last_ts + ts_epsilon) return 2;
  }
  return 0;''')]
DEMO=r'''
#include "sim.h"
// peer 1 announces itself 60 s in the future, then goes back 30 s
static void cheat(Sim *s, int peer, int step, uint8_t *b, size_t len) {
  if(peer!=0) return;
  if(step==1) for(int i=0;i<s->n;i++) { MSG(b+i*159)->ts=sim_be64(time(NULL)+60); resign(b+i*159, 159, s->peers[0].sig_sk); }
  if(step==2) for(int i=0;i<s->n;i++) { MSG(b+i*159)->ts=sim_be64(time(NULL)+30); resign(b+i*159, 159, s->peers[0].sig_sk); }
}
int main(void) {
  Sim s; on_peer_out=cheat;
  if(sim_start(&s,3,2,EPS)) return 99;
  sim_run(&s);
  if(s.tp_fail_step!=3 || s.tp.cheater_len==0 || s.cheaters[0].peer!=1) { puts("an old timestamp was accepted"); return 1; }
  return 0;
}
'''
