#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the records stay readable)."""
import json, os
T = "src/tp-dkg.c"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("P01", "Protocol signatures cover the whole message, body included",
 "Every message a DKG participant emits is signed with its own session signing key over every byte that follows the signature field, up to the message's full length, and nothing in that range changes after signing. A receiver acts on a message only if the signature verifies over exactly that same full range under the session key of the participant the message is expected from (for a peer's first message, the key it carries, which must also be covered by that peer's long-term signature).",
 ["inputs", "histories"], "every message of every protocol step, any n, t and any message content an adversary on the wire may produce",
 "The suite only runs honest parties and one corrupt-share scenario; nothing in it alters a body byte in transit or presents a message signed by another key.",
 [T, "src/tp-dkg.h"], [("message signing", T + " send_msg"), ("message verification", T + " recv_msg"), ("long-term signature of the first peer message", T + " tp_step4_handler / peer_step23_handler")],
 observe=["return value of tpdkg_tp_next / tpdkg_peer_next / tpdkg_start_peer", "bytes emitted in output"])

prop("P02", "A message is accepted only if its envelope is the expected one",
 "At every step a participant accepts a message only if its declared length equals the length of that message kind, its type is the one the step expects, its sender and recipient are the expected ones (a broadcast only as broadcast, a directed one only for the receiver's own index), and its session id equals, in all bytes, the id of the running session. A message with any other value in one of these fields is rejected.",
 ["inputs", "histories"], "every message consumed by every step of the trusted party and of a peer, for all header values",
 "Honest runs carry correct headers only, so any weakened or missing comparison still passes.",
 [T], [("header validation", T + " recv_msg"), ("per-step expectations", T + " tp_step*_handler, peer_step*_handler")],
 observe=["return value of tpdkg_tp_next / tpdkg_peer_next / tpdkg_start_peer"])

prop("P03", "Only fresh, non-decreasing timestamps are accepted",
 "A peer accepts the first message from a given sender only if its timestamp lies within the configured tolerance of the peer's clock, and every later one only if its timestamp is not older than that sender's previous one and not more than the tolerance newer; the trusted party applies the latter rule to every peer, counting from its own clock at session start. The reference is kept per sender and replaced by each accepted timestamp; a message outside the window is rejected.",
 ["inputs", "histories"], "all timestamp values, tolerances and message histories per sender",
 "All test parties share one machine clock and never replay a message.",
 [T], [("freshness window", T + " check_ts"), ("per-sender reference", T + " recv_msg callers, tpdkg_tp_set_bufs, tpdkg_start_peer")],
 state=[("last_ts / tp_last_ts", "timestamp of the last accepted message per sender", "src/tp-dkg.h")])

prop("P04", "Message content is used only after the message was accepted",
 "No byte of a received message is copied into protocol state, forwarded in output, absorbed into the transcript, or handed to the key-agreement or secret-sharing code unless that very message has passed length, type, sender, recipient, session, freshness and signature validation in the same step; what is kept for or about a peer comes from a message of that peer. (The timestamp reference may be updated while the message is being validated.)",
 ["inputs", "histories"], "every consumption of input bytes in every step of both roles",
 "With honest input an unvalidated use behaves identically to a validated one.",
 [T], [("handlers of the trusted party", T + " tp_step*_handler"), ("handlers of the peers", T + " peer_step*_handler, tpdkg_start_peer")])

prop("P05", "A rejected peer message is attributed to its sender and aborts the run",
 "Whenever the trusted party rejects a message from a peer, that peer (by its 1-based index) is recorded in the list of violators together with the failing step and a non-zero reason, the remaining peers of the step are still examined, and the step fails before any peer message is passed on as a signed broadcast. The violator list only grows during a run, is never written beyond the capacity the caller provided, and a step never succeeds while it is non-empty.",
 ["inputs", "histories"], "every rejecting branch of every trusted-party step, every position of the offending peer, every list capacity",
 "No test sends the trusted party an invalid message except the bad-share scenario of the corrupt build.",
 [T], [("violator recording", T + " add_cheater"), ("abort before sending", T + " tp_step4..22 handlers")],
 state=[("cheaters / cheater_len / cheater_max", "violators seen so far and list capacity", "src/tp-dkg.h")])

prop("P06", "A failed protocol step is final",
 "Once any step of the trusted party or of a peer returns an error, that participant reports itself as finished and every further step call returns an error. A step that succeeds advances the participant by exactly one step, except that the dispute step is skipped when nobody complained and that the dispute step ends the run.",
 ["histories", "fault_sequences"], "every return path of both step functions in every state, including states reached after failure",
 "Test drivers stop at the first error, so a participant that could be resumed after a failure is never exercised.",
 [T], [("step engines", T + " tpdkg_tp_next, tpdkg_peer_next"), ("completion predicates", T + " tpdkg_tp_not_done, tpdkg_peer_not_done")],
 state=[("step / prev", "current and previous protocol step", "src/tp-dkg.h")])

prop("P07", "A peer outputs its key share only after authenticated approval",
 "A peer assembles its final key share only in the closing step and only after accepting a valid message from the trusted party whose whole content is the approval word; with any other content the closing step fails and no share is assembled. A peer that knows of any complaint in the run never reaches the closing step.",
 ["inputs", "histories"], "all contents of the closing message, all complaint sets",
 "Tests never deliver a negative verdict to a peer and then look for a share.",
 [T, "src/dkg.c"], [("closing step of a peer", T + " peer_step21_handler"), ("complaint branch", T + " peer_step17_handler, tpdkg_peer_next")],
 state=[("share", "the DKG result of a peer", "src/tp-dkg.h")])

prop("P08", "Broadcasts are bound into one transcript that all parties must agree on",
 "Trusted party and peers start the transcript from the same label and absorb every broadcast (parameters, key announcements, commitments, complaints), each whole and preceded by its 32-bit length, in the same order. The trusted party approves the run only if every peer's reported transcript hash equals its own in all bytes, and otherwise tells the peers no and fails.",
 ["inputs", "histories"], "every broadcast of every run and every reported hash",
 "A transcript that silently omits a message, or a comparison that is skipped for some peer, still matches among honest parties.",
 [T], [("absorption", T + " update_transcript and its callers"), ("comparison and verdict", T + " tp_step20_handler")],
 state=[("transcript", "running hash of all broadcasts", "src/tp-dkg.h")])

prop("P09", "Cryptographic failures are never swallowed",
 "Every library call that can report failure on externally supplied data (invalid group elements, failed multiplication or inversion, memory locking, hashing to the group, commitment verification, authentication, decryption, signature verification) has its result examined, and a reported failure makes the surrounding operation return an error (or, for a bad peer, record it); no result computed from a rejected element is returned as success.",
 ["inputs", "fault_sequences"], "every fallible call reachable from the public C interface on data the caller does not control",
 "Test inputs are valid group elements and well-formed ciphertexts, so the failing branch of each call is never taken.",
 ["src/oprf.c", "src/toprf.c", "src/dkg.c", T], [("OPRF operations", "src/oprf.c"), ("threshold combination", "src/toprf.c"), ("commitment verification", "src/dkg.c"), ("channel setup and decryption", T)])

prop("P10", "Locked secret memory is unlocked and erased on every way out",
 "Whenever an operation has locked a buffer for secret data, every way out of that operation, including each error return, unlocks (and thereby erases) that buffer over the same length; a failed lock ends the operation with an error before the buffer holds a secret. A peer erases its copy of the long-term signing key once its single use, signing the key announcement, is done.",
 ["inputs", "fault_sequences"], "every return path of every operation that locks memory; every failure of the called primitives",
 "Residual secrets and leaked locked pages have no effect on returned values.",
 ["src/oprf.c", "src/dkg.c", T], [("lock/unlock pairs", "src/oprf.c oprf_Finalize, voprf_hash_to_group, oprf_Blind, oprf_Unblind; src/dkg.c dkg_start"), ("long-term key erasure", T + " peer_step23_handler")])

prop("P11", "All secrets and nonces come fresh from the system CSPRNG",
 "In production builds, OPRF keys, blinding factors, polynomial coefficients, session ids, session signing keys and channel keys are each filled completely, and on every call, from the cryptographic random generator, and are not overwritten, reused or derived from constants, time or a deterministic generator before use.",
 ["configurations", "inputs"], "every generation site of a secret in a production build, all thresholds",
 "Tests compare algebraic relations that hold for any coefficient values, including constant or repeated ones.",
 ["src/oprf.c", "src/toprf.c", "src/dkg.c", T, "src/utils.c"], [("key and blind generation", "src/oprf.c oprf_KeyGen, oprf_Blind"), ("polynomials", "src/toprf.c toprf_create_shares, src/dkg.c dkg_start"), ("session id and session keys", T + " tpdkg_start_tp, peer_step23_handler")])

prop("P12", "Group size, threshold and identity limits are enforced by both roles",
 "A trusted party starts a session, and a peer joins one, only if 2 <= t < n and n is at most 128; the trusted party also insists on a non-empty protocol name of at most 1024 bytes and on a correctly sized first message buffer. A peer accepts an assigned index only between 1 and n.",
 ["inputs"], "all values of n, t, name length, buffer length and assigned index",
 "Tests use a handful of sane parameter pairs.",
 [T], [("trusted party parameters", T + " tpdkg_start_tp"), ("peer parameters", T + " tpdkg_start_peer"), ("index assignment", T + " peer_step23_handler")])

prop("P13", "Step processing stays within the caller's buffers",
 "For every input and output length and every message content, a protocol step touches only bytes inside the input and output buffers of the given lengths; a step called with a wrong length fails without touching them. Counts and peer indices taken from a message are range-checked before they steer a loop or select an array element.",
 ["inputs"], "all buffer lengths, all n and t, all complaint counts and indices in messages",
 "Honest messages carry in-range values and drivers always pass exact lengths.",
 [T], [("length checks of the handlers", T + " tp_step*_handler, peer_step*_handler"), ("complaint parsing", T + " tp_step16_handler, peer_step17_handler")])

prop("P14", "Announced buffer sizes agree with what the steps consume and produce",
 "At every step, the input and output sizes a participant announces are exactly the ones its next step insists on. What a peer announces as output is what the trusted party expects from each peer, and the slice of the trusted party's output designated for a peer is exactly what that peer announces as its input and lies within the output.",
 ["inputs", "configurations"], "every step of both roles for all n and t",
 "Tests run a few fixed (n, t) pairs, for which a wrong size formula can coincide with the right one.",
 [T], [("announced sizes", T + " tpdkg_tp_input_size(s), tpdkg_tp_output_size, tpdkg_peer_input_size, tpdkg_peer_output_size"), ("slices for peers", T + " tpdkg_tp_peer_msg"), ("length checks", T + " handlers")])

prop("P15", "Secure-channel failures stop the peer and sessions have one owner",
 "If setting up, answering, completing or using a pairwise secure channel fails, the peer's step fails. A channel session is freed at most once, is never used after being freed, and everything the channel layer hands out is released on every way out of the operation that requested it.",
 ["inputs", "fault_sequences"], "every channel operation of every step with arbitrary handshake bytes, every failing branch, followed by peer clean-up",
 "All handshakes in the tests succeed.",
 [T], [("channel helpers", T + " tpdkg_init_noise_handshake, tpdkg_respond_noise_handshake, tpdkg_finish_noise_handshake, tpdkg_noise_encrypt, tpdkg_noise_decrypt"), ("clean-up", T + " tpdkg_peer_free")],
 state=[("noise_ins / noise_outs", "channel sessions with each other peer", "src/tp-dkg.h")])

prop("P16", "Shares travel only encrypted and are accepted only authenticated",
 "A peer's outgoing share leaves it only as payload of the pairwise channel at the forward-secret confidentiality level, accompanied by a key-committing authentication tag over the whole ciphertext. A received share enters the peer's state only if that tag verifies and the channel decrypts it at the authenticated-sender level with the exact share size; otherwise a complaint or failure results.",
 ["inputs"], "every share sent and received, all ciphertext and tag values",
 "Honest ciphertexts always verify; a dropped tag check or a plaintext leak beside the ciphertext changes nothing tests look at.",
 [T], [("share sending", T + " peer_step13_handler, tpdkg_noise_encrypt"), ("share receiving", T + " peer_step15_handler, tpdkg_noise_decrypt")])

prop("P17", "Every bad share leads to a complaint and no disputed run succeeds",
 "A peer whose check of another peer's share against that peer's commitments does not succeed for any reason complains about exactly that peer. Once any complaint is made, the run cannot succeed for the trusted party or any peer, and resolving a complaint blames the accused if the revealed share does not verify (or was never revealed) and the complainer if it does.",
 ["inputs", "histories"], "all shares and commitments including undecodable ones, all complaint sets, both outcomes of each dispute",
 "One corrupt scenario with decodable commitments is tested; undecodable commitments, false complaints and unanswered ones are not.",
 [T, "src/dkg.c"], [("share check and complaint", T + " peer_step15_handler; src/dkg.c dkg_verify_commitments"), ("complaint collection", T + " tp_step16_handler, peer_step17_handler"), ("dispute resolution", T + " tp_step18_handler")])

prop("P18", "Every recorded violation has an explanation naming the culprit",
 "For every step and reason code the trusted party can record, the reporting function produces a specific explanation and returns the index of the culprit (for an unfounded complaint the complainer), never an invalid-code text or index 0; only the report of too many complaints, which has no single culprit, names nobody.",
 ["inputs"], "every (step, reason) pair that can be recorded",
 "Tests print the report of one scenario without checking it.",
 [T], [("report", T + " tpdkg_cheater_msg, tpdkg_recv_err"), ("recorded codes", T + " add_cheater callers")])

prop("P19", "Sharing operations terminate and handle every group size",
 "Every loop of the library that counts over shares, peers or coefficients ends for every value its parameters can take (up to 255), and, for thresholds of at least 1, share generation yields exactly the shares with indices 1 to n, each evaluated over all threshold coefficients, writing nothing outside the n shares.",
 ["inputs"], "all n, threshold and count values representable in the parameter types",
 "Tests use small groups only; the largest representable sizes are never tried.",
 ["src/toprf.c", "src/dkg.c", "src/mpmult.c", T], [("share generation", "src/toprf.c toprf_create_shares, src/dkg.c dkg_start"), ("verification loops", "src/dkg.c dkg_verify_commitments")])

prop("P20", "Hash inputs are complete and unambiguously framed",
 "The OPRF output hash binds the 16-bit length and every byte of the input, the length and every byte of the group element, and the closing label; the 3hashTDH hash binds the 16-bit length and all bytes of the session identifier and the whole blinded element; the DKG domain tag binds the length and all bytes of the label and protocol name. Lengths enter in network byte order as full 16- or 32-bit values for every input length.",
 ["inputs"], "all input lengths and contents, in particular lengths above 255",
 "Test vectors use short inputs, for which truncated lengths or partial inputs hash alike on both sides.",
 ["src/oprf.c", "src/toprf.c", T], [("OPRF finalisation", "src/oprf.c oprf_Finalize"), ("3hashTDH", "src/toprf.c toprf_3hashtdh"), ("DKG domain tag", T + " tpdkg_start_tp")])

prop("P21", "Control flow and memory access do not depend on secrets",
 "In the OPRF, threshold OPRF, DKG and multiplication code no branch, loop bound, memory address or variable-time comparison depends on the value of a private key, key share, blinding factor, polynomial coefficient or the input being blinded; only success or failure reported by the crypto library may influence control flow.",
 ["inputs"], "all secret values at every public entry point",
 "Timing and access patterns are invisible to functional tests.",
 ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/mpmult.c"], [("public entry points", "src/oprf.h, src/toprf.h, src/dkg.h, src/mpmult.h")])

prop("P22", "Python bindings surface every native failure as an exception",
 "Every Python binding call to a native function that can report failure raises an exception when the native result is non-zero (or, for functions with documented non-zero results, hands that result back), and every documented argument error raises instead of being silently ignored.",
 ["inputs", "fault_sequences"], "every binding function and every native error result",
 "Python tests exercise successful calls only.",
 ["python/pyoprf/__init__.py", "python/pyoprf/noisexk.py"], [("error check helper and call sites", "python/pyoprf/__init__.py")])

prop("P23", "Python bindings never pass undersized buffers to native code",
 "Before a Python binding passes caller-supplied bytes to a native parameter of fixed size, it has verified the length; result buffers are at least as large as what the native code writes; lengths passed along are those of the passed data and fit the native parameter type.",
 ["inputs"], "every native call of the bindings, all argument lengths",
 "Tests pass correctly sized values.",
 ["python/pyoprf/__init__.py", "src/oprf.h", "src/toprf.h", "src/dkg.h", "src/tp-dkg.h", "src/mpmult.h"], [("binding functions", "python/pyoprf/__init__.py")])

prop("P24", "Structures and constants declared more than once agree",
 "Python mirror structures have exactly the field order, offsets, sizes and total size of the C structures they describe, Python size constants equal their C counterparts, and structure types that several C files declare for the same data have identical layouts.",
 ["configurations"], "every mirrored structure field and constant",
 "Fields past the ones tests read can be misplaced without visible effect.",
 ["python/pyoprf/__init__.py", "src/tp-dkg.h", "src/dkg.h", "src/toprf.c", "src/mpmult.c"], [("ctypes mirrors", "python/pyoprf/__init__.py"), ("duplicated C structs", "src/toprf.c, src/mpmult.c, src/dkg.h, src/noise_xk/include/noise_private.h, src/noise_xk/src/XK.c")])

prop("P25", "Threshold operations reject inconsistent inputs",
 "Combining threshold responses fails for more than 255 responses before anything of that size is allocated or written; starting a shared multiplication fails, producing no shares, unless both operands carry the same index, the threshold is non-zero and there are at least threshold peers. Evaluation results carry the index of the share they were computed with.",
 ["inputs"], "all response counts, share indices, thresholds and peer counts",
 "Tests call these with consistent arguments.",
 ["src/toprf.c", "src/mpmult.c"], [("response count limits", "src/toprf.c toprf_thresholdmult, toprf_thresholdcombine"), ("multiplication preconditions", "src/mpmult.c toprf_mpc_mul_start"), ("index of results", "src/toprf.c toprf_3hashtdh")])

prop("P26", "Channel messages are released only authenticated, under unique nonces",
 "The secure-channel transport returns plaintext only if the ciphertext authenticated under the receive key and the current nonce; each successful send or receive advances the corresponding nonce by one, and a direction whose nonce is exhausted refuses further messages. A failed Diffie-Hellman computation or authentication during the handshake fails the handshake.",
 ["inputs", "histories"], "all ciphertexts, all nonce values, all handshake bytes",
 "Tests send a few honest messages per channel.",
 ["src/noise_xk/src/XK.c", "src/noise_xk/src/Noise_XK.c"], [("transport", "src/noise_xk/src/XK.c state_transport_write, state_transport_read"), ("primitives", "src/noise_xk/src/Noise_XK.c Noise_XK_dh, Noise_XK_aead_decrypt")])

prop("P27", "Only shares matching their dealer's commitments are accepted",
 "A dealt share is accepted as matching its dealer's commitments only if its image in the group equals, in all bytes, the sum over all threshold commitments of each commitment times the corresponding power of the receiver's own index (the receiver's own share to itself is exempt). Checking a whole group applies this to every other participant's share with that participant's commitments and reports exactly those that fail. The commitments a dealer publishes are the images of the coefficients of the very polynomial whose values it deals out.",
 ["inputs"], "all thresholds, group sizes, indices, shares and commitments",
 "Tests mostly verify honest shares; a check at the wrong index, over fewer coefficients or fewer bytes passes for them.",
 ["src/dkg.c"], [("verification", "src/dkg.c dkg_verify_commitment, dkg_verify_commitments"), ("dealing", "src/dkg.c dkg_start, polynom")])

prop("P28", "Threshold results combine each contribution once, with its own weight",
 "Combining threshold responses, reconstructing a shared secret and summing dealt shares include every given contribution exactly once, and where weighting applies each is multiplied by the interpolation coefficient at zero of its own index over exactly the given indices (for finishing a shared multiplication: by its own entry of the first row of the computed inverse matrix). A partial evaluation is the key share times that coefficient times the given element or, in the three-hash variant, key share times element plus zero share times the hashed element; shares starting a multiplication are shares of the product of both operands. Partial evaluations and multiplication results carry the index of the share or peer they were made for.",
 ["inputs"], "all response counts, indices, share values and orders of responses",
 "Tests use a few small, ordered index sets.",
 ["src/toprf.c", "src/dkg.c", "src/mpmult.c"], [("interpolation coefficient", "src/toprf.c coeff"), ("combination", "src/toprf.c toprf_thresholdmult, toprf_thresholdcombine; src/dkg.c dkg_reconstruct, dkg_finish; src/mpmult.c toprf_mpc_mul_finish"), ("partial results", "src/toprf.c toprf_Evaluate, toprf_3hashtdh; src/mpmult.c toprf_mpc_mul_start")])

prop("P29", "Blinding hides the input and unblinding exactly removes the blind",
 "Blinding outputs the hash-to-group image of exactly the given input multiplied by a blinding scalar drawn afresh for this call, and hands out that same scalar. Evaluation outputs the key times the given element, and unblinding outputs the given element times the inverse of the given blinding scalar.",
 ["inputs", "histories"], "all inputs, keys and blinding scalars; all calls with whatever the output buffers held before",
 "A blinding scalar that is reused or partly fixed still gives correct results in tests.",
 ["src/oprf.c"], [("operations", "src/oprf.c oprf_Blind, oprf_Evaluate, oprf_Unblind")])

prop("P30", "Channel handshakes bind both identities and the whole transcript",
 "Each step of the channel handshake derives its keys from exactly the Diffie-Hellman computations the handshake pattern prescribes between the parties' ephemeral and static keys, and encrypts and authenticates its parts under the key and running hash of everything exchanged before. A new session starts from the protocol name, the prologue and the responder's static key with a fresh random ephemeral key, and a completed handshake gives the two directions distinct keys such that each side's sending key is the other's receiving key. A step that fails after it began leaves the session unusable.",
 ["inputs", "histories"], "all keys, prologues, handshake messages and payloads, genuine or forged",
 "Both ends share the code: a computation left out on both sides still agrees in every test.",
 ["src/noise_xk/src/XK.c", "src/noise_xk/src/Noise_XK.c"], [("steps", "src/noise_xk/src/XK.c state_handshake_write, state_handshake_read"), ("start", "src/noise_xk/src/XK.c session_create_initiator, session_create_responder"), ("primitives", "src/noise_xk/src/Noise_XK.c mix_hash, kdf, hmac, mix_dh, encrypt_and_hash, decrypt_and_hash")])

prop("P31", "Channel sessions belong to the registered peer whose key was proven",
 "A responder completes a channel handshake only with a registered peer whose public key equals in every byte the one the handshake proved, and the session then carries that peer's identifier; an initiator's session uses the key registered under the identifier asked for, and nothing else changes the peer of a session. Registering a peer records exactly the given key under an identifier never used before and keeps all earlier peers, and refuses a key that is registered already or a device out of identifiers. A device has the given private key with the public key and prologue belonging to it, and looking up a peer gives the registered one that matches, nothing only if there is none.",
 ["inputs", "histories"], "all keys, lists of registered peers of any length, identifiers, prologues and handshake messages",
 "Tests register the few peers that then connect; a stranger with a similar key, or a device with other peers before the one wanted, does not occur.",
 ["src/noise_xk/src/XK.c", "src/noise_xk/src/Noise_XK.c"], [("admission", "src/noise_xk/src/XK.c session_read, last step of a responder"), ("registration", "src/noise_xk/src/XK.c device_create, device_add_peer, device_lookup_peer_by_id, device_lookup_peer_by_static"), ("start", "src/noise_xk/src/XK.c session_create_initiator, session_create_responder"), ("comparison", "src/noise_xk/src/Noise_XK.c lbytes_eq")])

prop("P32", "Servers are verified and responses attributed to their server",
 "A server without a certificate configured for it is reached only over TLS 1.2 or later, its certificate verified against the system roots and the name of its own address; a peer counts as connected only once the connection to its configured address stands, messages are sent whole to the peer meant (a broadcast to every peer), and a read takes no more than asked for and gives less only if the other end closed, which is noted. Gathering gives one entry per configured peer in their order, holding only what was read from that very peer in the expected size, processed if asked for; a failure notice is never passed on as a response, and no result is given before enough peers answered or if all of them failed.",
 ["inputs", "schedules"], "all configurations of peers, sizes of messages, ways they arrive in pieces, orders of arrival, failing peers and processing functions",
 "No test of the repository connects to a server or gathers responses; verification errors and mixed-up responses show only against a hostile or slow peer.",
 ["python/pyoprf/multiplexer.py"], [("connection", "python/pyoprf/multiplexer.py Peer.connect, Multiplexer.__init__"), ("reading and sending", "python/pyoprf/multiplexer.py Peer.read, Peer.send, Multiplexer.send, Multiplexer.broadcast"), ("gathering", "python/pyoprf/multiplexer.py Multiplexer.gather")])

prop("P33", "Bindings hand over arguments by role and return what native code gave",
 "Every Python binding calls the native function it stands for, hands each argument whole, unchanged and in order to the native parameter of the same role (lengths being those of the data), gives every output a buffer of its own, and returns exactly what native code wrote, in the documented order: lists of shares cut at share boundaries and outputs of variable size up to the size reported. Channel bindings send only with strong forward secrecy and give out only messages authenticated as from a known sender, register every given key under its own name, use the given name and prologue, and both ends use the same prologue by default.",
 ["inputs", "configurations"], "every binding function, all argument values, lists of any length and native outputs of any size",
 "The tests of the bindings call most functions once with matching values, none for the channel; exchanged arguments of the same size or lost list entries show only with other values.",
 ["python/pyoprf/__init__.py", "python/pyoprf/noisexk.py"], [("arguments", "python/pyoprf/__init__.py blind to tpdkg_peer_free, every liboprf call"), ("outputs", "python/pyoprf/__init__.py returned buffers, split_by_n"), ("channel", "python/pyoprf/noisexk.py send_msg, read_msg, initiator_session, responder_session")])

prop("P34", "Private data reaches neither messages nor diagnostics",
 "Private signing and channel keys, polynomial coefficients, key shares, blinding factors and the input being blinded are never written to an outgoing protocol message, to a result meant for others or to the debug and protocol logs in a normal build. They influence those only through the encrypted channel, signatures, authentication tags and group operations; a channel key is published only to settle a dispute about the share it protected.",
 ["inputs", "configurations"], "every protocol step of both roles, every public operation, logging switched on or off, all values",
 "Leaks do not disturb any functional test, and diagnostics are off in most of them.",
 ["src/tp-dkg.c", "src/dkg.c", "src/oprf.c", "src/toprf.c", "src/mpmult.c"], [("log output", "src/tp-dkg.c dump and fprintf calls of every step handler; src/utils.c dump"), ("outgoing messages", "src/tp-dkg.c output of every step handler"), ("private state", "src/tp-dkg.h TP_DKG_PeerState and TP_DKG_TPState keys and shares")])

prop("P35", "Inputs, session parameters and recorded data are never modified",
 "No operation changes what it was only given to read: keys, shares, responses and received messages are the same afterwards, whether it succeeds or fails. Once a session has started no step changes its identifier, group size, threshold, time tolerance, participant number, keys or buffers, and keys, commitments, shares and complaints recorded in one step are not overwritten by a later step that relies on them.",
 ["inputs", "histories"], "every public operation, every protocol step of both roles, all paths",
 "Tests rarely use an input twice or compare it afterwards.",
 ["src/oprf.c", "src/toprf.c", "src/dkg.c", "src/mpmult.c", "src/tp-dkg.c"], [("inputs", "const parameters in src/oprf.h, src/toprf.h, src/dkg.h, src/mpmult.h, src/tp-dkg.h"), ("session parameters", "src/tp-dkg.h TP_DKG_PeerState, TP_DKG_TPState"), ("recorded data", "src/tp-dkg.c step handlers")])

prop("P36", "Hashing to the group follows the standard expansion for every length",
 "For every message, domain tag and requested length, expanding a message either fails or fills exactly the requested bytes with the standard blocks: block zero hashes a zero block, the whole message, the requested length, a zero byte and the tag followed by its length; the first block hashes block zero, and every later one the exclusive or of block zero with its predecessor, followed by its number and the tag with its length. It succeeds for all tags of up to 254 bytes. Hashing to the group, also when blinding, maps the 64 byte expansion of exactly the given input under the fixed tag.",
 ["inputs"], "messages of 0 to 255 bytes, tags of 0 to 255 bytes, output lengths of 0 to 255 bytes",
 "Tests use few short inputs and only the 64 byte output, which never reaches the loop over further blocks.",
 ["src/oprf.c"], [("expansion", "src/oprf.c expand_message_xmd, expand_loop"), ("hash to group", "src/oprf.c voprf_hash_to_group, oprf_Blind")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
