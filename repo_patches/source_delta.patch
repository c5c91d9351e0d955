From e3922100b07ddaefbdb7924f9e2164bccee41132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 01/26] fix: sign and verify whole messages in the TP DKG

send_msg and recv_msg covered only the message header with the
signature.  The body (keys, commitments, encrypted shares, complaints,
transcripts, the final verdict) could be changed in transit without
being noticed.  Cover everything after the signature field, up to the
length of the message.
---
 src/tp-dkg.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 23b8a80..4bde41d 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -118,7 +118,7 @@ static int send_msg(uint8_t* msg_buf, const size_t msg_buf_len, const uint8_t ms
   msg->ts = htonll((uint64_t)time(NULL));
   memcpy(msg->sessionid, sessionid, tpdkg_sessionid_SIZE);
 
-  crypto_sign_detached(msg->sig, NULL, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_sk);
+  crypto_sign_detached(msg->sig, NULL, &msg->msgno, msg_buf_len - crypto_sign_BYTES, sig_sk);
   return 0;
 }
 
@@ -141,14 +141,8 @@ static int recv_msg(const uint8_t *msg_buf, const size_t msg_buf_len, const uint
   }
 #endif
 
-  const size_t unsigned_buf_len = msg_buf_len - crypto_sign_BYTES;
-
-  uint8_t with_sessionid[unsigned_buf_len + tpdkg_sessionid_SIZE];
-  memcpy(with_sessionid, msg_buf + crypto_sign_BYTES, unsigned_buf_len);
-  memcpy(with_sessionid + unsigned_buf_len, sessionid, tpdkg_sessionid_SIZE);
-
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, sizeof(TP_DKG_Message) - crypto_sign_BYTES, sig_pk)) return 6;
+  if(0!=crypto_sign_verify_detached(msg->sig, &msg->msgno, msg_buf_len - crypto_sign_BYTES, sig_pk)) return 6;
 #endif
 
   return 0;
-- 
2.43.0


From c9cdcfb969b2005978dfe5f930d2388e2e7a116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 02/26] fix: stop the peer when a noise handshake fails

peer_step5, peer_step7 and peer_step911 ignored the result of the noise
handshake helpers.  On failure the helpers free the session but left the
dangling pointer in the session table, so a later step used it and
tpdkg_peer_free freed it a second time.  Clear the pointer and fail the
step.
---
 src/tp-dkg.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 4bde41d..0929786 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -169,11 +169,13 @@ static int tpdkg_init_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 3;
   }
 
   if(cipher_msg_len!=noise_xk_handshake1_SIZE) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     free(cipher_msg);
     return 4;
   }
@@ -200,6 +202,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_rcode ret = Noise_XK_session_read(&encap_msg, *session, noise_xk_handshake1_SIZE, inmsg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 2;
   }
 
@@ -207,6 +210,7 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 3;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -218,11 +222,13 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   Noise_XK_encap_message_p_free(encap_msg);
   if(!Noise_XK_rcode_is_success(ret)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 4;
   }
 
   if(cipher_msg_len!=noise_xk_handshake2_SIZE) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     free(cipher_msg);
     return 4;
   }
@@ -245,12 +251,14 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
     Noise_XK_peer_t *peer = Noise_XK_device_lookup_peer_by_id(ctx->dev, peer_id);
     if(peer==NULL) {
       Noise_XK_session_free(*session);
+      *session=NULL;
       return 2;
     }
     uint8_t *pinfo;
     Noise_XK_peer_get_info((Noise_XK_noise_string*) &pinfo, peer);
     if(pinfo==NULL) {
       Noise_XK_session_free(*session);
+      *session=NULL;
       return 3;
     }
     fprintf(log_file, "[%d] finishing noise session -> %s\n", ctx->index, pinfo);
@@ -262,6 +270,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   if(!Noise_XK_rcode_is_success(ret)) {
     if(log_file!=NULL) fprintf(log_file, "session read fail: %d\n", ret.val.case_Error);
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 4;
   }
 
@@ -269,6 +278,7 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
     Noise_XK_session_free(*session);
+    *session=NULL;
     return 5;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -830,6 +840,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
   uint8_t dummy[32]={0}; // the following function needs a deserialization key, which we never use.
 
   ctx->dev = Noise_XK_device_create(13, (uint8_t*) "dpkg p2p v0.1", iname, dummy, ctx->noise_sk);
+  if(ctx->dev==NULL) return 3;
 
   TP_DKG_Message* msg3 = (TP_DKG_Message*) input;
   const uint8_t *ptr = msg3->data;
@@ -850,7 +861,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg4 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data);
+    if(0!=tpdkg_init_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_outs)[i], msg4->data)) return 4;
     if(0!=send_msg(wptr, tpdkg_msg4_SIZE, 4, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 5;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg4->msgno, msg4->from, msg4->to);
@@ -913,7 +924,7 @@ static int peer_step7_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
     TP_DKG_Message *msg5 = (TP_DKG_Message *) wptr;
     uint8_t rname[13];
     snprintf((char*) rname, sizeof rname, "dkg peer %02x", i+1);
-    tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data);
+    if(0!=tpdkg_respond_noise_handshake(ctx, (*ctx->peer_noise_pks)[i], rname, &(*ctx->noise_ins)[i], msg4->data, msg5->data)) return 3;
     if(0!=send_msg(wptr, tpdkg_msg5_SIZE, 5, ctx->index, i+1, ctx->sig_sk, ctx->sessionid)) return 4;
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] msgno: %d, from: %d to: %d ", ctx->index, msg5->msgno, msg5->from, msg5->to);
@@ -941,7 +952,7 @@ static int peer_step911_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(0!=ret) return 64+ret;
     ptr+=tpdkg_msg5_SIZE;
     // process final step of noise handshake
-    tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data);
+    if(0!=tpdkg_finish_noise_handshake(ctx, &(*ctx->noise_outs)[i], msg5->data)) return 3;
   }
 
   TP_DKG_Message* msg6 = (TP_DKG_Message*) output;
-- 
2.43.0


From 90392315175b8e7640d4ab5e5a202d8373bb3f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 03/26] fix: initialise the noise session tables of a peer

tpdkg_peer_free frees every non-NULL session.  The tables come from the
caller uninitialised, so a peer that fails before all handshakes were
started freed garbage pointers.
---
 src/tp-dkg.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 0929786..d3f06c8 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -586,7 +586,11 @@ void tpdkg_peer_set_bufs(TP_DKG_PeerState *ctx,
   ctx->complaints = complaints;
   ctx->my_complaints = my_complaints;
   ctx->last_ts = last_ts;
-  for(uint8_t i=0;i<ctx->n;i++) ctx->last_ts[i]=0;
+  for(uint8_t i=0;i<ctx->n;i++) {
+    ctx->last_ts[i]=0;
+    (*ctx->noise_outs)[i]=NULL;
+    (*ctx->noise_ins)[i]=NULL;
+  }
 }
 
 int tpdkg_tp_not_done(const TP_DKG_TPState *tp) {
-- 
2.43.0


From 86dd55440d5957afa9c8f35c7e72f047a6f74bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 04/26] fix: release noise messages on the error paths

The noise helpers leaked the unpacked message, the encapsulated message
or the cipher text when they returned early.
---
 src/tp-dkg.c | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index d3f06c8..2c1bf06 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -179,7 +179,10 @@ static int tpdkg_init_noise_handshake(TP_DKG_PeerState *ctx,
     free(cipher_msg);
     return 4;
   }
-  if(msg==NULL) return 5;
+  if(msg==NULL) {
+    free(cipher_msg);
+    return 5;
+  }
   memcpy(msg,cipher_msg,cipher_msg_len);
   free(cipher_msg);
 
@@ -209,10 +212,12 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
   uint32_t plain_msg_len;
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
+    Noise_XK_encap_message_p_free(encap_msg);
     Noise_XK_session_free(*session);
     *session=NULL;
     return 3;
   }
+  if(plain_msg!=NULL) free(plain_msg);
   Noise_XK_encap_message_p_free(encap_msg);
 
   encap_msg = Noise_XK_pack_message_with_conf_level(NOISE_XK_CONF_ZERO, 0, NULL);
@@ -232,7 +237,10 @@ static int tpdkg_respond_noise_handshake(TP_DKG_PeerState *ctx,
     free(cipher_msg);
     return 4;
   }
-  if(outmsg==NULL) return 5;
+  if(outmsg==NULL) {
+    free(cipher_msg);
+    return 5;
+  }
   memcpy(outmsg,cipher_msg,cipher_msg_len);
   free(cipher_msg);
   return 0;
@@ -277,10 +285,12 @@ static int tpdkg_finish_noise_handshake(TP_DKG_PeerState *ctx,
   uint32_t plain_msg_len;
   uint8_t *plain_msg;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg)) {
+    Noise_XK_encap_message_p_free(encap_msg);
     Noise_XK_session_free(*session);
     *session=NULL;
     return 5;
   }
+  if(plain_msg!=NULL) free(plain_msg);
   Noise_XK_encap_message_p_free(encap_msg);
 
   return 0;
@@ -310,8 +320,11 @@ static int tpdkg_noise_encrypt(uint8_t *input,
     if(cipher_msg!=NULL) free(cipher_msg);
     return 4;
   }
-  if(output == NULL) return 5;
   if(cipher_msg==NULL) return 6;
+  if(output == NULL) {
+    free(cipher_msg);
+    return 5;
+  }
   memcpy(output,cipher_msg,cipher_msg_len);
   free(cipher_msg);
   return 0;
@@ -338,6 +351,7 @@ static int tpdkg_noise_decrypt(uint8_t *input,
   uint32_t plain_msg_len;
   uint8_t *plain_msg=NULL;
   if(!Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_KNOWN_SENDER_NO_KCI, encap_msg)) {
+    Noise_XK_encap_message_p_free(encap_msg);
     return 4;
   }
   Noise_XK_encap_message_p_free(encap_msg);
@@ -347,7 +361,10 @@ static int tpdkg_noise_decrypt(uint8_t *input,
     return 5;
   }
   if(plain_msg!=NULL) {
-    if(output == NULL) return 6;
+    if(output == NULL) {
+      free(plain_msg);
+      return 6;
+    }
     memcpy(output,plain_msg,plain_msg_len);
     free(plain_msg);
   }
-- 
2.43.0


From df434b4b6085ef319bbbe204f57096f17513c5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 05/26] fix: check the complaint count and the accused peers of
 complaints

The number of complaints in a message was checked against the length
field in network byte order, which made the check void: both the trusted
party and the peers read past the message.  Peers also stored complaints
about indices outside 1..n, which overflows the list of complaints.
Convert the length first, reject the indices, and have the trusted party
report the peer that sent the oversized list.
---
 src/tp-dkg.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 2c1bf06..4e39877 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1222,10 +1222,13 @@ static int tp_step16_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
       if(add_cheater(ctx, 16, 64+ret, i+1, 0xff) == NULL) return 6;
       continue;
     }
-    if(msg->len - sizeof(TP_DKG_Message) < msg->data[0]) return 4;
+    if(ntohl(msg->len) - sizeof(TP_DKG_Message) <= msg->data[0]) {
+      if(add_cheater(ctx, 16, 5, i+1, 0xff) == NULL) return 6;
+      continue;
+    }
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg->data[0] && (k+1)<msg->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg->data[0] && (k+1)<ntohl(msg->len)-sizeof(TP_DKG_Message);k++) {
       if(msg->data[k+1] > ctx->n || msg->data[k+1] < 1) {
         if(add_cheater(ctx, 16, 7, i+1, msg->data[k+1]) == NULL) return 6;
         continue;
@@ -1296,10 +1299,11 @@ static int peer_step17_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
     }
     ret = recv_msg(ptr, tpdkg_msg9_SIZE(ctx), 9, i+1, 0xff, (*ctx->peer_sig_pks)[i], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) return 32+ret;
-    if(msg9->len - sizeof(TP_DKG_Message) < msg9->data[0]) return 5;
+    if(ntohl(msg9->len) - sizeof(TP_DKG_Message) <= msg9->data[0]) return 5;
 
     // keep a copy all complaint pairs (complainer, complained)
-    for(int k=0;k<msg9->data[0] && (k+1)<msg9->len-sizeof(TP_DKG_Message);k++) {
+    for(int k=0;k<msg9->data[0] && (k+1)<ntohl(msg9->len)-sizeof(TP_DKG_Message);k++) {
+      if(msg9->data[k+1] > ctx->n || msg9->data[k+1] < 1) return 6;
       uint16_t pair=(uint16_t) (((i+1)<<8) | msg9->data[k+1]);
       int j=0;
       for(j=0;j<ctx->complaints_len;j++) if(ctx->complaints[j]==pair) break;
@@ -1713,7 +1717,10 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
       return c->peer;
   }
   if(c->step==16) {
-    if(c->error == 6) {
+    if(c->error == 5) {
+      snprintf(out, outlen, "peer %d sent more complaints than there are peers.", c->peer);
+      return c->peer;
+    } else if(c->error == 6) {
       snprintf(out, outlen, "more than t^2 complaints, most peers are cheating.");
       return 0;
     } else if(c->error == 7) {
-- 
2.43.0


From 697cc144b626416ca4b5e8111c0f3ba171664df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 06/26] fix: do not log a rejected handshake message without a
 log file

The trusted party crashed on the first invalid handshake message when no
log file was set.
---
 src/tp-dkg.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 4e39877..cc9f7f0 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -910,9 +910,11 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       int ret = recv_msg((*inputs)[j][i], tpdkg_msg4_SIZE, (uint8_t) (2+ctx->step), j+1, i+1, (*ctx->peer_sig_pks)[j], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[j]);
       if(0!=ret) {
         if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
-        TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
-        fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
-        dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
+        if(log_file!=NULL) {
+          TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
+          fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
+          dump((*inputs)[j][i], tpdkg_msg4_SIZE, "msg");
+        }
         continue;
       }
       memcpy(wptr, (*inputs)[j][i], tpdkg_msg4_SIZE);
-- 
2.43.0


From 832b0fc4980e3ce0b88723e2e83fdde8062137d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 07/26] fix: complain about peers with undecodable commitments

dkg_verify_commitments gave up at the first invalid commitment without
adding the peer to the failed ones.  The DKG peers only look at that
list, so they raised no complaint and went on with the bad share.  Also
report an undecodable constant term as invalid input, like the other
terms.
---
 src/dkg.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dkg.c b/src/dkg.c
index 4db1ef5..0e6ab83 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -126,7 +126,7 @@ int dkg_verify_commitment(const uint8_t n,
     //dump(tmp, sizeof tmp, "%d tmp", k);
     //dump(commitments[i-1][k], crypto_core_ristretto255_BYTES, "c[%d][%d]", i-1, k);
     if(crypto_scalarmult_ristretto255(tmP, tmp, commitments[k])) return -1;
-    crypto_core_ristretto255_add(v1,v1,tmP);
+    if(crypto_core_ristretto255_add(v1,v1,tmP)) return -1;
   }
 
   // v0 == v1
@@ -150,7 +150,6 @@ int dkg_verify_commitments(const uint8_t n,
   for(uint8_t i=1;i<=n;i++) {
     if(i==self) continue;
     int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
-    if(-1 == ret) return ret;
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
   }
-- 
2.43.0


From 18335c64c995dff5a3ab470ea88c6f14df5c2943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 08/26] fix: check the number of responses before allocating
 for them

toprf_thresholdmult put an array of response_len bytes on the stack
before rejecting oversized values.
---
 src/toprf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index 88b74c9..074e748 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -131,6 +131,7 @@ static void sort_parts(const int n, const TOPRF_Part parts[n], uint8_t indexes[n
 int toprf_thresholdmult(const size_t response_len,
                         const uint8_t _responses[response_len][TOPRF_Part_BYTES],
                         uint8_t result[crypto_scalarmult_ristretto255_BYTES]) {
+  if(response_len>255) return 1;
   const TOPRF_Part *responses=(TOPRF_Part*) _responses;
   uint8_t lpoly[crypto_scalarmult_ristretto255_SCALARBYTES];
   uint8_t gki[crypto_scalarmult_ristretto255_BYTES];
@@ -138,7 +139,6 @@ int toprf_thresholdmult(const size_t response_len,
 
   // sort the responses by their indexes
   uint8_t indexed_indexes[response_len];
-  if(response_len>255) return 1;
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   uint8_t indexes[response_len];
-- 
2.43.0


From 0bf15bf6777f33ea6ca18bf9a6372f393a9c53f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:26:41 +0000
Subject: [PATCH 09/26] fix: fail toprf_thresholdcombine on invalid responses

A response that is not a valid group element was skipped silently and
the sum of the others returned as success.
---
 src/toprf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/toprf.c b/src/toprf.c
index 074e748..1fcd656 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -186,7 +186,7 @@ int toprf_thresholdcombine(const size_t response_len,
   sort_parts((uint8_t) response_len, (TOPRF_Part*) responses, indexed_indexes);
 
   for(size_t i=0;i<response_len;i++) {
-    crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value);
+    if(crypto_core_ristretto255_add(result,result,responses[indexed_indexes[i]].value)) return 1;
   }
   return 0;
 }
-- 
2.43.0


From da786d49ea6f46483db6e829330dfdbb90f44dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:41 +0000
Subject: [PATCH 10/26] fix: unlock the hashed input when oprf_Blind fails to
 hash

The page was left locked and the value was not wiped on this path.
---
 src/oprf.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oprf.c b/src/oprf.c
index 87fee33..cdb3e2b 100644
--- a/src/oprf.c
+++ b/src/oprf.c
@@ -297,7 +297,10 @@ int oprf_Blind(const uint8_t *x, const uint8_t x_len,
     return -1;
   }
   // sets α := (H^0(pw))^r
-  if(0!=voprf_hash_to_group(x, x_len, H0)) return -1;
+  if(0!=voprf_hash_to_group(x, x_len, H0)) {
+    sodium_munlock(H0,sizeof H0);
+    return -1;
+  }
 #if (defined TRACE || defined CFRG_TEST_VEC)
   dump(H0,sizeof H0, "H0");
 #endif
-- 
2.43.0


From 04c5699dca0efdf43c301bc914e70bf6bc0574bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:41 +0000
Subject: [PATCH 11/26] fix: terminate with 255 shareholders

An 8 bit counter never exceeds n when n is 255.  Sharing among 255
parties looped forever and wrote outside of the list of shares.
---
 src/dkg.c   | 8 ++++----
 src/toprf.c | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/dkg.c b/src/dkg.c
index 0e6ab83..839129e 100644
--- a/src/dkg.c
+++ b/src/dkg.c
@@ -82,9 +82,9 @@ int dkg_start(const uint8_t n,
   }
 
   // calculate shares s_ij
-  for(uint8_t j=1;j<=n;j++) {
+  for(int j=1;j<=n;j++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(t)*x^(t)
-    polynom(j, threshold, a, &shares[j-1]);
+    polynom((uint8_t) j, threshold, a, &shares[j-1]);
   }
 
   sodium_munlock(a,sizeof a);
@@ -147,9 +147,9 @@ int dkg_verify_commitments(const uint8_t n,
                            uint8_t fails[n],
                            uint8_t *fails_len) {
   *fails_len = 0;
-  for(uint8_t i=1;i<=n;i++) {
+  for(int i=1;i<=n;i++) {
     if(i==self) continue;
-    int ret = dkg_verify_commitment(n, threshold, self, i, commitments[i-1], shares[i-1]);
+    int ret = dkg_verify_commitment(n, threshold, self, (uint8_t) i, commitments[i-1], shares[i-1]);
     if(0 == ret) continue;
     fails[(*fails_len)++] = (uint8_t) i;
   }
diff --git a/src/toprf.c b/src/toprf.c
index 1fcd656..99e32ae 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -85,15 +85,15 @@ void toprf_create_shares(const uint8_t secret[crypto_core_ristretto255_SCALARBYT
   TOPRF_Share *shares= (TOPRF_Share*)_shares;
 
   uint8_t a[threshold-1][crypto_core_ristretto255_SCALARBYTES];
-  uint8_t i;
+  int i;
   for(i=0;i<threshold-1;i++) {
     crypto_core_ristretto255_scalar_random(a[i]);
   }
   for(i=1;i<=n;i++) {
     //f(x) = a_0 + a_1*x + a_2*x^2 + a_3*x^3 + ⋯ + a_(k−1)*x^(k−1)
-    shares[i-1].index=i;
+    shares[i-1].index=(uint8_t) i;
     uint8_t x[crypto_core_ristretto255_SCALARBYTES]={0};
-    x[0]=i;
+    x[0]=(uint8_t) i;
     memcpy(shares[i-1].value, secret, crypto_core_ristretto255_SCALARBYTES);
     for(int j=0;j<threshold-1;j++) {
       // a_j^j
-- 
2.43.0


From 72704692bc35cc2b9db1fa09fd459ec48bd8317d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:41 +0000
Subject: [PATCH 12/26] fix: set the index of the result of toprf_Evaluate

The index of the returned part was left as it was in the callers
buffer, toprf_thresholdcombine then sorted by uninitialised values.
---
 src/toprf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/toprf.c b/src/toprf.c
index 99e32ae..ef36dbd 100644
--- a/src/toprf.c
+++ b/src/toprf.c
@@ -170,6 +170,7 @@ int toprf_Evaluate(const uint8_t _k[TOPRF_Share_BYTES],
   crypto_core_ristretto255_scalar_mul(kl, k->value, lpoly);
 
   TOPRF_Part *Z=(TOPRF_Part*) _Z;
+  Z->index=self;
   if(oprf_Evaluate(kl,blinded, Z->value)) return 1;
 
   return 0;
-- 
2.43.0


From a43eb42a43d1f288b922b465ef09ec93a2951c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:41 +0000
Subject: [PATCH 13/26] fix: refuse parameters that the peers do not accept
 either

A trusted party could be started with a threshold of 0 or 1, which every
peer refuses.  A peer accepted an index greater than the number of peers
and used it later to index tables with n entries.
---
 src/tp-dkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index cc9f7f0..d847ff5 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -652,7 +652,7 @@ int tpdkg_start_tp(TP_DKG_TPState *ctx, const uint64_t ts_epsilon,
              const char *proto_name, const size_t proto_name_len,
              const size_t msg0_len, TP_DKG_Message *msg0) {
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step 0. start protocol\e[0m\n");
-  if(2>n || t>=n || n>128) return 1;
+  if(2>n || t>=n || n>128 || t<2) return 1;
   if(proto_name_len<1) return 2;
   if(proto_name_len>1024) return 3;
   if(msg0_len != tpdkg_msg0_SIZE) return 4;
@@ -780,7 +780,7 @@ static int peer_step23_handler(TP_DKG_PeerState *ctx, const uint8_t *input, cons
   }
   int ret = recv_msg(input, tpdkg_msg1_SIZE, 1, 0, msg1->to, ctx->tp_sig_pk, ctx->sessionid, ctx->ts_epsilon, &ctx->tp_last_ts);
   if(0!=ret) return 4 + ret;
-  if(msg1->to > 128 || msg1->to < 1) return 3;
+  if(msg1->to > ctx->n || msg1->to < 1) return 3;
   ctx->index=msg1->to;
 
   if(log_file!=NULL) fprintf(log_file, "\e[0;33m[%d] step 3. send msg2 containing ephemeral pubkey\e[0m\n", ctx->index);
-- 
2.43.0


From 9751386d529b836df5707d688ae75a0377fa348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:41 +0000
Subject: [PATCH 14/26] fix: finish the trusted party after a failed complaint
 round

Unlike all other steps a failure in the step collecting the complaints
left the trusted party in a state where it could be run further.
---
 src/tp-dkg.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index d847ff5..e52bf0b 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1655,6 +1655,7 @@ int tpdkg_tp_next(TP_DKG_TPState *ctx, const uint8_t *input, const size_t input_
       ctx->step++;
     }
     ctx->step++;
+    if(ret!=0) ctx->step=99; // so that not_done reports done
     return ret;
   }
   case 7: {ret = tp_step18_handler(ctx, input, input_len, output, output_len); break;}
-- 
2.43.0


From bd5538ae22b6e210a5096ef13e5602ee52513552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:41 +0000
Subject: [PATCH 15/26] fix: end the protocol for all peers when someone
 complained

The protocol ends after the dispute step for everyone.  A peer that was
not accused itself went on to the closing steps, ready to accept an
approval and to output a share.
---
 src/tp-dkg.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index e52bf0b..2896fea 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1337,6 +1337,8 @@ static int peer_step17a_handler(TP_DKG_PeerState *ctx, const uint8_t *input, con
     if(log_file!=NULL) {
       fprintf(log_file,"[%d] nothing to defend against, no message to send\n", ctx->index);
     }
+    // the protocol ends here for everyone, if anyone complained
+    ctx->step=99;
     return 0;
   }
 
-- 
2.43.0


From 484271e0715e5b31619801519a4af671101b20c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:41 +0000
Subject: [PATCH 16/26] fix: name the peer whose long-term signature is invalid

The trusted party gave up without recording which peer sent the invalid
signature.
---
 src/tp-dkg.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 2896fea..6222cf5 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -823,7 +823,10 @@ static int tp_step4_handler(TP_DKG_TPState *ctx, const uint8_t *msg2s, const siz
       dump(ptr, tpdkg_msg2_SIZE, "msg");
     }
 #if !defined(FUZZING_BUILD_MODE_UNSAFE_FOR_PRODUCTION)
-    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) return 3;
+    if(0!=crypto_sign_verify_detached(ptr+tpdkg_msg2_SIZE,ptr,tpdkg_msg2_SIZE,(*ctx->peer_lt_pks)[i])) {
+      if(add_cheater(ctx, 4, 3, i+1, 0xff) == NULL) return 7;
+      continue;
+    }
 #endif
     int ret = recv_msg(ptr, tpdkg_msg2_SIZE, 2, i+1, 0xff, msg->data, ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[i]);
     if(0!=ret) {
@@ -1721,6 +1724,10 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
                c->step, c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x3f));
       return c->peer;
   }
+  if(c->step==4 && c->error==3) {
+      snprintf(out, outlen, "long-term signature of peer %d could not be validated", c->peer);
+      return c->peer;
+  }
   if(c->step==16) {
     if(c->error == 5) {
       snprintf(out, outlen, "peer %d sent more complaints than there are peers.", c->peer);
-- 
2.43.0


From 94801bcd1c947ae07a46f3d365f97c5d512a0f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:41 +0000
Subject: [PATCH 17/26] fix: blame the accused peer for not answering a
 complaint

Complaints are stored as complainer << 8 | accused.  The complaining
peer was reported as the cheater when the accused one did not reveal the
key.
---
 src/tp-dkg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 6222cf5..7b51ffe 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1510,7 +1510,7 @@ static int tp_step18_handler(TP_DKG_TPState *ctx, const uint8_t *input, const si
 
   for(int i=0;i<ctx->complaints_len;i++) {
     if(complaints[i] != 0xffff) {
-      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] >> 8), (uint8_t) (complaints[i] & 0xff)) == NULL) return 4;
+      if(add_cheater(ctx, 18, 7, (uint8_t) (complaints[i] & 0xff), (uint8_t) (complaints[i] >> 8)) == NULL) return 4;
     }
   }
 
-- 
2.43.0


From 5d33cec033cc105c4d2ee9ab720df3f8df6822e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:29:41 +0000
Subject: [PATCH 18/26] fix: explain all recorded cheaters

tpdkg_cheater_msg did not know about messages with an invalid length or
an invalid session id, about invalid messages in step 20, and reported
unusable dispute parameters as an invalid message.  Two of the texts for
step 18 did not match what was detected, one had its arguments swapped.
---
 src/tp-dkg.c | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 7b51ffe..33088c2 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -1719,7 +1719,7 @@ char* tpdkg_recv_err(const int code) {
 }
 
 uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outlen) {
-  if(c->error>65 && c->error<=70) {
+  if(c->error>64 && c->error<=71) {
       snprintf(out, outlen, "step %d message from peer %d for peer %d could not be validated: %s",
                c->step, c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x3f));
       return c->peer;
@@ -1745,26 +1745,26 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     snprintf(out,outlen, "invalid error code for step 16: %d", c->error);
     return 0;
   } else if(c->step==18) {
-    if(c->error & 16) {
+    if(c->error>16 && c->error<=23) {
       snprintf(out, outlen, "message containing encrypted share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0xf));
       return c->peer;
-    } else if (c->error & 32) {
+    } else if (c->error>32 && c->error<=39) {
       snprintf(out, outlen, "message revealing key encrypting share from peer %d for peer %d could not be validated: %s",
                c->peer, c->other_peer, tpdkg_recv_err(c->error & 0x1f));
       return c->peer;
     }
     switch(c->error) {
     case 3: {
-      snprintf(out,outlen, "accused peer %d revealed a key (for peer %d) that was not complained about", c->peer, c->other_peer);
+      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 4: {
-      snprintf(out,outlen, "verification of hmac of message from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
+      snprintf(out,outlen, "decryption of share from accused peer %d to complaining peer %d failed", c->peer, c->other_peer);
       return c->peer;
     }
     case 5: {
-      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->other_peer, c->invalid_index);
+      snprintf(out,outlen, "accused peer %d sent an invalid share with index %d to complaining peer %d", c->peer, c->invalid_index, c->other_peer);
       return c->peer;
     }
     case 6: {
@@ -1796,6 +1796,10 @@ uint8_t tpdkg_cheater_msg(const TP_DKG_Cheater *c, char *out, const size_t outle
     if(c->error == 1) {
       snprintf(out,outlen, "transcript mismatch peer %d", c->peer);
       return c->peer;
+    } else if(c->error>1 && c->error<=8) {
+      snprintf(out, outlen, "message containing transcript of peer %d could not be validated: %s",
+               c->peer, tpdkg_recv_err(c->error-1));
+      return c->peer;
     }
     snprintf(out,outlen, "invalid error code for step 20: %d", c->error);
     return 0;
-- 
2.43.0


From 2008375d65c6ddb3fd8a3af22476ff9e64ef531c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:06 +0000
Subject: [PATCH 19/26] fix: raise the argument errors of the threshold
 functions

coeff, thresholdmult and threshold_combine created an exception for too
short lists but did not raise it.
---
 python/pyoprf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index bac9ce0..7b5de52 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -197,7 +197,7 @@ TOPRF_Part_BYTES=pysodium.crypto_core_ristretto255_BYTES+1
 #void coeff(const int index, const int peers_len, const uint8_t peers[peers_len], uint8_t result[crypto_scalarmult_ristretto255_SCALARBYTES]);
 def coeff(index: int, peers: list) -> bytes:
     if index < 1: raise ValueError("index must be positive integer")
-    if len(peers) < 2: ValueError("peers must be a list of at least 2 integers")
+    if len(peers) < 2: raise ValueError("peers must be a list of at least 2 integers")
     peers_len=ctypes.c_size_t(len(peers))
     c = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
     liboprf.coeff(index, peers_len, peers, c)
@@ -254,7 +254,7 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
 #                        const uint8_t responses[response_len][TOPRF_Part_BYTES],
 #                        uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def thresholdmult(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
@@ -329,7 +329,7 @@ def threshold_evaluate(k: bytes, blinded: bytes, self: int, indexes: list) -> by
 #                            const uint8_t _responses[response_len][TOPRF_Part_BYTES],
 #                            uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def threshold_combine(responses: bytes_list_t) -> bytes:
-    if len(responses) < 2: ValueError("responses must be a list of at least 2 integers")
+    if len(responses) < 2: raise ValueError("responses must be a list of at least 2 integers")
     if not all(isinstance(r,bytes) for r in responses):
         raise ValueError("at least one of the responses is not of type bytes")
     if not all(len(r)==TOPRF_Part_BYTES for r in responses):
-- 
2.43.0


From eb333d0b75f97270d95aeb628f5abc191669374a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:06 +0000
Subject: [PATCH 20/26] fix: pass the peers as bytes to coeff

ctypes cannot convert a list, so every call failed.
---
 python/pyoprf/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index 7b5de52..db3a82a 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -196,11 +196,13 @@ TOPRF_Part_BYTES=pysodium.crypto_core_ristretto255_BYTES+1
 # @param [out] result - the lagrange coefficient
 #void coeff(const int index, const int peers_len, const uint8_t peers[peers_len], uint8_t result[crypto_scalarmult_ristretto255_SCALARBYTES]);
 def coeff(index: int, peers: list) -> bytes:
-    if index < 1: raise ValueError("index must be positive integer")
+    if index < 1 or index > 255: raise ValueError("index must be positive integer less than 256")
     if len(peers) < 2: raise ValueError("peers must be a list of at least 2 integers")
+    if not all(i>0 and i<256 for i in peers):
+        raise ValueError("peer(s) outside valid range")
     peers_len=ctypes.c_size_t(len(peers))
     c = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
-    liboprf.coeff(index, peers_len, peers, c)
+    liboprf.coeff(index, peers_len, bytes(peers), c)
     return c.raw
 
 
-- 
2.43.0


From e710078aa9cc4568a994b8da17ea27652b4609a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:06 +0000
Subject: [PATCH 21/26] fix: do not check the result of toprf_create_shares

It returns nothing, what was checked is whatever the last instruction
left in the register.
---
 python/pyoprf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index db3a82a..faa08d0 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -233,7 +233,7 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
     if t < 2:
         raise ValueError("t must be bigger than 1")
     shares = ctypes.create_string_buffer(n*TOPRF_Share_BYTES)
-    __check(liboprf.toprf_create_shares(secret, n, t, shares))
+    liboprf.toprf_create_shares(secret, n, t, shares)
     return tuple([bytes(s) for s in split_by_n(shares.raw, TOPRF_Share_BYTES)])
 
 
-- 
2.43.0


From f1e6e5824fdbb4cd69b3565b75bcb6ebe4d022a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:06 +0000
Subject: [PATCH 22/26] fix: refuse group sizes that do not fit the library

The library takes the number of shareholders as 8 bit values.  Bigger
values were silently reduced, create_shares for 256 shareholders
returned 256 shares consisting of zeroes.
---
 python/pyoprf/__init__.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index faa08d0..d39a526 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -228,6 +228,8 @@ def create_shares(secret: bytes, n: int, t: int) -> bytes_list_t:
         raise ValueError("secret has incorrect length")
     if not isinstance(secret, bytes):
         raise ValueError("secret is not of type bytes")
+    if n > 255:
+        raise ValueError("n must be less than 256")
     if n < t:
         raise ValueError("t cannot be bigger than n")
     if t < 2:
@@ -309,6 +311,8 @@ def threshold_evaluate(k: bytes, blinded: bytes, self: int, indexes: list) -> by
         raise ValueError("self outside valid range")
     if(not all(i>0 and i<256 for i in indexes)):
         raise ValueError("index(es) outside valid range")
+    if len(indexes)>255:
+        raise ValueError("too many indexes")
     index_len=ctypes.c_uint16(len(indexes))
 
     indexes_buf=ctypes.create_string_buffer(bytes(indexes))
@@ -378,6 +382,8 @@ def _3hashtdh(k: bytes, z: bytes, alpha: bytes, ssid_S: bytes) -> bytes:
 #              uint8_t commitments[dkg_commitment_BYTES(threshold)],
 #              TOPRF_Share shares[n]);
 def dkg_start(n : int, t : int) -> (bytes, bytes, bytes_list_t):
+    if n > 255:
+        raise ValueError("n must be less than 256")
     if n < t:
         raise ValueError("t cannot be bigger than n")
     if t < 2:
@@ -400,6 +406,8 @@ def dkg_start(n : int, t : int) -> (bytes, bytes, bytes_list_t):
 def dkg_verify_commitments(n: int, t: int, self: int,
                            commitments : bytes_list_t,
                            shares: bytes_list_t) -> bytes:
+    if n > 255:
+        raise ValueError("n must be less than 256")
     if n < t:
         raise ValueError("t cannot be bigger than n")
     if t < 2:
@@ -425,6 +433,8 @@ def dkg_verify_commitments(n: int, t: int, self: int,
 #                const uint8_t self,
 #                TOPRF_Share *xi);
 def dkg_finish(n: int, shares: List[bytes], self: int, ) -> bytes:
+    if n > 255:
+        raise ValueError("n must be less than 256")
     if self < 1 or self > n:
         raise ValueError("self must 1 <= self <= n")
     shares = b''.join(shares)
@@ -541,6 +551,8 @@ class TP_DKG_TPState(ctypes.Structure):
 #                  uint8_t (*peer_lt_pks)[][crypto_sign_PUBLICKEYBYTES],
 #                  uint64_t (*last_ts)[]);
 def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
+    if n > 128 or t > n:
+        raise ValueError("n must be at most 128 and t at most n")
     #state = TP_DKG_TPState()
     ## force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
-- 
2.43.0


From 41ad5081f6acaac5b287b2a60ff9631bb9019506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:07 +0000
Subject: [PATCH 23/26] fix: refuse OPRF inputs that are longer than the
 library supports

oprf_Blind takes the length of the input as 8 bits and oprf_Finalize as
16 bits.  Of longer inputs only a part was used without any notice.
---
 python/pyoprf/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index d39a526..be389fe 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -75,10 +75,12 @@ def keygen() -> bytes:
 # the blinded version of x, an input to oprf_Evaluate
 # @return The function raises a ValueError if there is something wrong with the inputs.
 #
-#int oprf_Blind(const uint8_t *x, const uint16_t x_len,
+#int oprf_Blind(const uint8_t *x, const uint8_t x_len,
 #               uint8_t r[crypto_core_ristretto255_SCALARBYTES],
 #               uint8_t blinded[crypto_core_ristretto255_BYTES]);
 def blind(x: bytes) -> (bytes, bytes):
+    if len(x) > 255:
+        raise ValueError("param x is too long")
     r =       ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_SCALARBYTES)
     blinded = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_BYTES)
     __check(liboprf.oprf_Blind(x, ctypes.c_size_t(len(x)), r, blinded))
@@ -172,6 +174,8 @@ def finalize(x: bytes, N: bytes) -> bytes:
         raise ValueError("param N has incorrect length")
     if not isinstance(N, bytes):
         raise ValueError("param N is not of type bytes")
+    if len(x) > (1<<16)-1:
+        raise ValueError("param x is too long")
     y = ctypes.create_string_buffer(OPRF_BYTES)
     __check(liboprf.oprf_Finalize(x, ctypes.c_size_t(len(x)), N, y))
     return y.raw
-- 
2.43.0


From b1a1f03ed586f03668f3c19e27eac0fd69963607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:07 +0000
Subject: [PATCH 24/26] fix: check the sizes of keys and messages passed to the
 library

Shorter values made the library read beyond the end of the buffers.
---
 python/pyoprf/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/pyoprf/__init__.py b/python/pyoprf/__init__.py
index be389fe..2a70817 100755
--- a/python/pyoprf/__init__.py
+++ b/python/pyoprf/__init__.py
@@ -457,6 +457,8 @@ def dkg_finish(n: int, shares: List[bytes], self: int, ) -> bytes:
 #                     const TOPRF_Share responses[response_len][2],
 #                     uint8_t result[crypto_scalarmult_ristretto255_BYTES]);
 def dkg_reconstruct(responses) -> bytes_list_t:
+    if not all(len(r)==TOPRF_Share_BYTES for r in responses):
+        raise ValueError("at least one of the responses is not of correct size")
     rlen = len(responses)
     responses = ctypes.create_string_buffer(b''.join(responses))
     result = ctypes.create_string_buffer(pysodium.crypto_core_ristretto255_BYTES)
@@ -557,6 +559,9 @@ class TP_DKG_TPState(ctypes.Structure):
 def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
     if n > 128 or t > n:
         raise ValueError("n must be at most 128 and t at most n")
+    peer_lt_pks = b''.join(peer_lt_pks)
+    if len(peer_lt_pks) != n*pysodium.crypto_sign_PUBLICKEYBYTES:
+        raise ValueError("peer_lt_pks must contain n public keys")
     #state = TP_DKG_TPState()
     ## force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
@@ -577,7 +582,6 @@ def tpdkg_start_tp(n, t, ts_epsilon, proto_name, peer_lt_pks):
     complaints = ctypes.create_string_buffer(n*n*2)
     noisy_shares = ctypes.create_string_buffer(n*n*tpdkg_msg8_SIZE)
     cheaters = (TP_DKG_Cheater * (t*t - 1))()
-    peer_lt_pks = b''.join(peer_lt_pks)
     last_ts = (ctypes.c_uint64 * n)()
 
     liboprf.tpdkg_tp_set_bufs(ctypes.byref(state),
@@ -661,6 +665,10 @@ def tpdkg_get_cheaters(ctx):
 #                         uint16_t (*complaints)[],
 #                         uint8_t (*my_complaints)[]);
 def tpdkg_peer_start(ts_epsilon, peer_lt_sk, msg0):
+    if len(peer_lt_sk) != pysodium.crypto_sign_SECRETKEYBYTES:
+        raise ValueError("peer_lt_sk has incorrect length")
+    if len(msg0) != tpdkg_msg0_SIZE:
+        raise ValueError("msg0 has incorrect length")
     #state = TP_DKG_PeerState()
     # force 32 byte alignment of state
     #while ctypes.addressof(state) % 32 != 0:
-- 
2.43.0


From 46201e907ccbe7db160c0827116ec52e830c1d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:32:07 +0000
Subject: [PATCH 25/26] fix: raise when the noise library fails

ctypes returns None for a NULL pointer, so the checks for a failed
session never triggered, other results were not checked at all.  The
result of unpacking a message is a bool, of which only the lowest byte
is defined.  Also check the sizes of keys.
---
 python/pyoprf/noisexk.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/python/pyoprf/noisexk.py b/python/pyoprf/noisexk.py
index b080a9d..19cbeaa 100755
--- a/python/pyoprf/noisexk.py
+++ b/python/pyoprf/noisexk.py
@@ -50,17 +50,25 @@ def __check(code):
 lib.Noise_XK_device_add_peer.restype = c_void_p
 lib.Noise_XK_device_add_peer.argtypes = [c_void_p, c_void_p, ctypes.c_char_p]
 def add_peer(device, name, key):
-    return lib.Noise_XK_device_add_peer(device, name, key)
+    if len(key) != KEYSIZE: raise ValueError("key has incorrect length")
+    res = lib.Noise_XK_device_add_peer(device, name, key)
+    if not res: raise ValueError
+    return res
 
 def pubkey(privkey):
+    if len(privkey) != KEYSIZE: raise ValueError("privkey has incorrect length")
     pubkey = ctypes.create_string_buffer(KEYSIZE)
-    lib.Noise_XK_dh_secret_to_public(pubkey, privkey)
+    __check(lib.Noise_XK_dh_secret_to_public(pubkey, privkey))
     return pubkey.raw
 
+lib.Noise_XK_dh_secret_to_public.restype = c_ubyte
 lib.Noise_XK_device_create.restype = c_void_p
 def create_device(prologue, name, privkey):
+    if len(privkey) != KEYSIZE: raise ValueError("privkey has incorrect length")
     srlz_key = b'\x00'*KEYSIZE
-    return lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey)
+    res = lib.Noise_XK_device_create(len(prologue), prologue, name, srlz_key, privkey)
+    if not res: raise ValueError
+    return res
 
 lib.Noise_XK_peer_get_id.restype = c_void_p
 lib.Noise_XK_peer_get_id.argtypes = [c_void_p]
@@ -77,14 +85,14 @@ lib.Noise_XK_session_create_initiator.restype = c_void_p
 lib.Noise_XK_session_create_initiator.argtypes = [c_void_p, c_void_p]
 def create_session_initiator(device, peerid):
     res = lib.Noise_XK_session_create_initiator(device, peerid)
-    if res == 0: raise ValueError
+    if not res: raise ValueError
     return res
 
 lib.Noise_XK_session_create_responder.restype = c_void_p
 lib.Noise_XK_session_create_responder.argtypes = [c_void_p]
 def create_session_responder(device):
     res = lib.Noise_XK_session_create_responder(device)
-    if res == 0: raise ValueError
+    if not res: raise ValueError
     return res
 
 lib.Noise_XK_pack_message_with_conf_level.restype = c_void_p
@@ -104,6 +112,7 @@ def initiator_1st_msg(session):
 
 # Noise_XK_session_read(&encap_msg, bob_session, cipher_msg_len, cipher_msg);
 lib.Noise_XK_session_read.argtypes = [POINTER(c_void_p), c_void_p, c_uint32, POINTER(c_ubyte)]
+lib.Noise_XK_unpack_message_with_auth_level.restype = ctypes.c_bool
 # Noise_XK_unpack_message_with_auth_level(&plain_msg_len, &plain_msg, NOISE_XK_AUTH_ZERO, encap_msg),
 def responder_1st_msg(session, msg):
     encap_msg = c_void_p()
@@ -172,6 +181,7 @@ lib.Noise_XK_peer_get_static.argtypes = [(c_char * 32), c_void_p]
 def get_pubkey(session, device):
     peerid = lib.Noise_XK_session_get_peer_id(session)
     peer = lib.Noise_XK_device_lookup_peer_by_id(device, peerid);
+    if not peer: raise ValueError
     pubkey = ctypes.create_string_buffer(KEYSIZE)
     lib.Noise_XK_peer_get_static(pubkey, peer);
     return pubkey.raw
-- 
2.43.0


From 0bc41c86862a9269edbad54ee58423df4f5bd2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:27:03 +0000
Subject: [PATCH 26/26] fix: report the right step for rejected handshake
 messages

The trusted party routes the handshake messages in steps 6 and 8, but
recorded (and logged) steps 8 and 10 for messages it rejected there.
---
 src/tp-dkg.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp-dkg.c b/src/tp-dkg.c
index 33088c2..d84ce0f 100644
--- a/src/tp-dkg.c
+++ b/src/tp-dkg.c
@@ -898,7 +898,7 @@ static int peer_step5_handler(TP_DKG_PeerState *ctx, const uint8_t *input, const
 }
 
 static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const size_t msg4s_len, uint8_t *output, const size_t output_len) {
-  if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step %d. route p2p noise handshakes to peers\e[0m\n", 6 + (ctx->step - 1) * 2);
+  if(log_file!=NULL) fprintf(log_file, "\e[0;33m[!] step %d. route p2p noise handshakes to peers\e[0m\n", 6 + (ctx->step - 2) * 2);
   if(msg4s_len != tpdkg_msg4_SIZE * ctx->n * ctx->n) return 1;
   if(msg4s_len != output_len) return 2;
 
@@ -912,7 +912,7 @@ static int tp_step68_handler(TP_DKG_TPState *ctx, const uint8_t *msg4s, const si
       } 
       int ret = recv_msg((*inputs)[j][i], tpdkg_msg4_SIZE, (uint8_t) (2+ctx->step), j+1, i+1, (*ctx->peer_sig_pks)[j], ctx->sessionid, ctx->ts_epsilon, &ctx->last_ts[j]);
       if(0!=ret) {
-        if(add_cheater(ctx, 6 + (ctx->step - 1) * 2, 64+ret, j+1, i+1) == NULL) return 7;
+        if(add_cheater(ctx, 6 + (ctx->step - 2) * 2, 64+ret, j+1, i+1) == NULL) return 7;
         if(log_file!=NULL) {
           TP_DKG_Message *msg = (TP_DKG_Message*) (*inputs)[j][i];
           fprintf(log_file,"[x] msgno: %d, from: %d to: %d ", msg->msgno, msg->from, msg->to);
-- 
2.43.0

