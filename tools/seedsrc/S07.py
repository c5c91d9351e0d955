PROP='P08'
NEEDS='a peer whose transcript agrees with the trusted party\'s in its first eight bytes only'
WHAT='only the first eight bytes of the reported transcripts are compared'
EDITS=[('src/tp-dkg.c','''    if(sodium_memcmp(transcript_hash, msg->data, sizeof(transcript_hash))!=0) {''','''    if(sodium_memcmp(transcript_hash, msg->data, sizeof(wptr))!=0) {''')]
DEMO=r'''
#include "sim.h"
static void cheat(Sim *s, int peer, int step, uint8_t *b, size_t len) {
  if(step==8 && peer==1) { MSG(b)->data[20]^=1; resign(b, len, s->peers[1].sig_sk); }
}
int main(void) {
  Sim s; on_peer_out=cheat;
  if(sim_start(&s,3,2,EPS)) return 99;
  sim_run(&s);
  if(s.tp_fail_step!=8 || s.tp.cheater_len!=1 || s.cheaters[0].peer!=2) { puts("transcript mismatch not noticed"); return 1; }
  return 0;
}
'''
