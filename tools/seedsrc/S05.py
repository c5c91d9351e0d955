PROP='P06'
NEEDS='a peer step called with a wrong buffer length'
WHAT='a peer whose step failed because of a wrong length is not finished and carries on when called again'
EDITS=[('src/tp-dkg.c','''    if(log_file!=NULL) fprintf(log_file, "[%d] invalid step\\n", ctx->index);
    ret = 99;
  }
  }
''','''    if(log_file!=NULL) fprintf(log_file, "[%d] invalid step\\n", ctx->index);
    ret = 99;
  }
  }
  // wrong buffers, the caller can try again
  if(ret==1 || ret==2) return ret;
''')]
DEMO=r'''
#include "sim.h"
int main(void) {
  Sim s;
  if(sim_start(&s,3,2,EPS)) return 99;
  uint8_t in[1024]={0}, out[4096];
  TP_DKG_PeerState *p=&s.peers[0];
  if(0==tpdkg_peer_next(p, in, tpdkg_peer_input_size(p)+1, out, tpdkg_peer_output_size(p))) return 1;
  if(tpdkg_peer_not_done(p)) { puts("failed peer is not done"); return 1; }
  return 0;
}
'''
