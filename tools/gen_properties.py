#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})
L = "latke/src/"
PAKES = [L+"pake/cake.rs", L+"pake/cpace.rs", L+"pake/kc_spake2.rs"]
IBKES = [L+"ibke/fg_ibke.rs", L+"ibke/id_hmqv_c.rs", L+"ibke/id_sig_dh.rs", L+"ibke/id_sigma_r.rs"]
TOP = [L+"latke.rs", L+"chip.rs", L+"eue_transform.rs"]
DIL = ["pqcrypto/pqcrypto-dilithium/src/dilithium2.rs", "pqcrypto/pqcrypto-dilithium/src/dilithium3.rs",
       "pqcrypto/pqcrypto-dilithium/src/dilithium5.rs", "pqcrypto/pqclean/crypto_sign/dilithium2",
       "pqcrypto/pqclean/crypto_sign/dilithium3", "pqcrypto/pqclean/crypto_sign/dilithium5"]
SAB = ["saber-rust/src/generic.rs", "saber-rust/src/non_generic.rs", "saber-rust/src/poly.rs",
       "saber-rust/src/lightsaber.rs", "saber-rust/src/saber.rs", "saber-rust/src/firesaber.rs"]

prop("C01", "Honest sessions always finish with one shared key and the right peers",
 "Whenever two honest parties run the same protocol (any PAKE, any identity-based key exchange, CHIP, or LATKE over any PAKE/IBKE pair and either peer model) with the same password or authority and the same session id over a faithful channel, both finish after the protocol's fixed number of messages without error, and they hold the same session key. In the identity-based protocols each party's output identity is exactly the other party's identity. This holds for every password (empty, binary, very long), every identity, every session id and both ways of assigning roles.",
 ["inputs", "configurations", "programs"],
 "All passwords, identities, session ids, roles, protocol combinations (3 PAKEs, 5 IBKEs, 3 CHIP and 15 LATKE stacks in two peer models) and all internal random choices.",
 "The unit tests run each protocol once with one short ASCII password and random ids; they never use empty/long/binary passwords, extreme ids, most LATKE or CHIP stacks, or enough repetitions to meet rare random choices.",
 PAKES + IBKES + TOP + ["latke/src/lib.rs"],
 [("step machines of the PAKEs", L+"pake/*.rs run()"), ("step machines of the IBKEs", L+"ibke/*.rs run()"), ("LATKE driver", L+"latke.rs Latke::run"), ("CHIP driver", L+"chip.rs Chip::run")],
 [("next_step/done", "position in the protocol and completion", "every protocol struct")],
 ["run() outputs, is_done(), finalize()"])

prop("C02", "Different passwords never produce a shared key",
 "If the two parties' passwords differ in any way at all (one bit, case, a trailing NUL or space, a difference beyond any block or buffer boundary, prefix or empty), no PAKE, CHIP or LATKE session ever ends with both parties holding the same session key. In protocols with key confirmation (KC-SPAKE2, and CHIP and LATKE built on it) at least one party rejects, and LATKE never lets both parties complete with a key, whatever the PAKE.",
 ["inputs", "configurations"],
 "All pairs of distinct passwords, all protocol stacks, all session ids and roles.",
 "No existing test uses two different passwords at all.",
 PAKES + TOP + [L+"ideal_cipher.rs"],
 [("password enters the key derivation", L+"pake/*.rs"), ("password-derived authority key", L+"latke.rs gen_pwfile"), ("password scalar", L+"chip.rs gen_pwfile")],
 [], ["finalize() of both parties"])

prop("C03", "Keys are bound to session id, roles, identities and authority",
 "Two parties that disagree on the session id, that both take the same role, that expect a different peer identity than the one they talk to (CHIP, and LATKE with a pre-specified peer), or that trust different authorities never end up sharing a session key. In KC-SPAKE2, HMQV-C, signed DH, SIGMA-R and LATKE (and CHIP on KC-SPAKE2) at least one of them rejects or never obtains a key; the protocols without key confirmation (and FG-IBKE for the session id, which only enters its key) may let both finish, with unrelated keys.",
 ["inputs", "configurations"],
 "All pairs of differing contexts (every bit position of session ids and identities), all protocols and stacks.",
 "Tests always give both parties identical contexts, so dropping a context value from a hash, signature or PAKE input is invisible to them.",
 PAKES + IBKES + TOP,
 [("ssid in key derivations and signatures", L+"ibke/*.rs, "+L+"pake/*.rs, "+L+"eue_transform.rs"), ("ids in the PAKE input", L+"latke.rs new_session"), ("id hash", L+"chip.rs ibke_step_2")],
 [], ["finalize() of both parties, errors"])

prop("C04", "Modified messages never go unnoticed",
 "If an attacker changes any message of a session in transit (any bit, any length change, any replacement), the two parties never both complete holding the same session key. In the identity-based exchanges, KC-SPAKE2, CHIP on KC-SPAKE2 and LATKE the party whose conversation was altered never completes with a key shared with anyone: some honest party rejects instead of both accepting.",
 ["inputs", "fault_sequences"],
 "Every message index, every byte position and bit, truncation, extension, emptying, duplication of content and substitution by well-formed foreign values, for every protocol and stack.",
 "Only one test tampers with anything: one random bit of an authenticated ciphertext in isolation; no protocol message is ever tampered with.",
 PAKES + IBKES + TOP + [L+"auth_enc.rs"],
 [("MAC and signature checks", L+"ibke/*.rs"), ("key confirmation", L+"pake/kc_spake2.rs"), ("transcript hash", L+"latke.rs, "+L+"ibke/fg_ibke.rs, "+L+"chip.rs")],
 [], ["finalize(), run() results"])

prop("C05", "Replayed, reflected and cross-session messages are never accepted",
 "Messages recorded in one session and delivered in another (same or different users, role or session id), messages reflected back to their sender, and messages delivered out of order or twice never make a party complete an authenticated exchange with a key that it shares with nobody or with the wrong peer. Two completed parties hold the same key only if they are the two ends of the same conversation, with each having received exactly what the other sent (signed DH relies on the session ids of concurrent sessions being unique).",
 ["histories", "schedules"],
 "All interleavings of several concurrent sessions under an attacker that may deliver any recorded message to any party at any step.",
 "Tests run a single session with in-order delivery; there is no concurrent, replayed or reordered history.",
 PAKES + IBKES + TOP,
 [("nonces and ephemeral keys under signatures/MACs", L+"ibke/*.rs"), ("role separation bytes", L+"ibke/id_sig_dh.rs, "+L+"ibke/id_sigma_r.rs"), ("per-message ratchet", L+"eue_transform.rs")],
 [], ["event log of sends, deliveries, completions"])

prop("C06", "Only identities certified by the authority are ever accepted",
 "An identity-based key exchange completes with peer identity ID only if the peer holds a private key that the session's authority certified for exactly ID and proved possession of it within this session. A peer that follows the protocol perfectly but with a certificate that is self-made, issued by another authority, issued for another identity or key, or stolen without its private key, or with any single signature, MAC or transcript field wrong, is always rejected before the session completes.",
 ["inputs", "programs"],
 "All deviating peers: every check of every protocol is exercised by a peer that is correct in everything except what that one check verifies, in both roles.",
 "Tests contain only honest peers, so deleting any single verification step leaves them green.",
 IBKES + [L+"auth_enc.rs"],
 [("certificate verification", L+"ibke/*.rs run() mpk.verify"), ("possession proof", "signatures/MACs in "+L+"ibke/*.rs")],
 [], ["run()/finalize() of the honest party facing a deviating peer"])

prop("C07", "A stolen password file only lets the thief impersonate its owner",
 "A party that holds a user's password file but not the password can complete LATKE or CHIP sessions only under that user's own identity: no honest party ever completes with, or (in CHIP and pre-specified LATKE) shares a key with, the thief while believing it talks to anyone else. Password files of one user and of different users share no private key material, and the password file never reveals the key that issues certificates.",
 ["inputs", "programs"],
 "All identities the thief may claim, all places where an identity or certificate can be swapped on the wire, all IBKEs, CHIP, both roles and peer models.",
 "Tests never use a password file for anything but its owner's honest session.",
 TOP + IBKES,
 [("identity bound in the certificate", L+"latke.rs gen_pwfile / "+L+"ibke/*.rs extract"), ("identity bound in xhat", L+"chip.rs gen_pwfile")],
 [], ["honest party facing a thief peer"])

prop("C08", "Session keys are released only by sessions that completed successfully",
 "A session reports completion exactly when its last protocol step has succeeded, and asking for its session key before that point, or right after a message was rejected, never yields a key. Once a session has completed, its key, peer identity and completion status never change, and a further step cannot restart or alter it. (A LATKE session that only simulates after a failure does come to its end, but never yields a key.)",
 ["histories", "fault_sequences"],
 "Every protocol and stack, both roles, every prefix of the protocol and every point at which a rejected message may arrive.",
 "Tests only ask for the key at the very end of a successful run.",
 PAKES + IBKES + TOP + ["latke/src/lib.rs"],
 [("done flags", "every protocol struct"), ("finalize", "every protocol struct")],
 [("done", "set when the last step of the party succeeded", "every protocol struct")], ["is_done(), finalize() probed after every step"])

prop("C09", "LATKE runs to its end unconditionally, with unchanged message sizes",
 "After the PAKE phase, a LATKE party that receives a message it cannot decrypt (wrong password at the peer, corrupted, or of any wrong non-zero size) does not abort: it keeps answering with ciphertexts of exactly the number and lengths of an honest run until the protocol's normal end. Such a session never yields a session key, and the ciphertexts it sends are fresh, distinct and pass the authenticated-encryption format of a real run.",
 ["inputs", "configurations", "fault_sequences"],
 "All IBKEs, PAKEs without key confirmation, both roles, every step at which decryption can first fail and every shape of the undecryptable message.",
 "Tests only run the success path; the failure path is not executed by any of them.",
 [L+"eue_transform.rs", L+"auth_enc.rs", L+"latke.rs"] + IBKES,
 [("encrypt-and-unconditionally-execute", L+"eue_transform.rs run"), ("simulated steps", L+"ibke/*.rs run_sim")],
 [("real_mode", "false once decryption failed", L+"eue_transform.rs")], ["wire messages of the party after the first decryption failure"])

prop("C10", "LATKE hides the identity exchange under fresh per-message keys",
 "Every non-empty identity-exchange message that LATKE puts on the wire is an authenticated ciphertext whose keys come from the PAKE key, the session id and the message's position through a one-way ratchet, so that a party with the PAKE key can decrypt exactly the protocol message and nothing else can. No identity, certificate or public key ever appears on the wire in clear, the two directions and all positions use different keys, and no (key, nonce) pair is ever used twice.",
 ["inputs", "configurations", "histories"],
 "All message lengths and contents an identity exchange may send (checked with a stand-in exchange), all real exchanges, all session ids, keys and positions.",
 "Tests only look at the final key; a plaintext channel would pass them.",
 [L+"eue_transform.rs", L+"auth_enc.rs", L+"latke.rs"],
 [("ratchet", L+"eue_transform.rs ratchet_keys"), ("auth_encrypt", L+"auth_enc.rs")],
 [("chain_key/msg_key", "ratcheted keys", L+"eue_transform.rs")], ["wire messages decrypted by an independent model"])

prop("C11", "Encrypted LATKE messages are accepted only exactly as sent",
 "For a plaintext of any length the encrypted message decrypts at the peer to exactly that plaintext, and the ciphertext is longer by a constant overhead. If any bit of ciphertext, nonce or tag is changed, or the message is shortened or extended by any amount, or replaced by an earlier or later message, the receiver never hands any plaintext to the identity exchange. (An empty message carries no plaintext: it is the hand-over between phases.)",
 ["inputs", "fault_sequences"],
 "All plaintext lengths including empty and cipher-block boundaries, all bit positions, all truncation points and extensions, all replays inside a session.",
 "The two unit tests use one random length and one random bit flip each.",
 [L+"auth_enc.rs", L+"eue_transform.rs"],
 [("encrypt-then-MAC", L+"auth_enc.rs"), ("ratchet", L+"eue_transform.rs")],
 [], ["plaintexts delivered to a stand-in identity exchange"])

prop("C12", "The LATKE key covers the whole conversation and the inner key",
 "The session key LATKE outputs is a function of every byte of every message exchanged, in order and as seen by that party, and of the inner exchange's key: two parties whose views of the exchanged bytes differ anywhere by even one bit, or whose inner keys differ, never output the same key, even if the inner protocols would not notice. The identity LATKE outputs is exactly the one the inner exchange authenticated, and the output key is never the PAKE key or the inner key itself.",
 ["inputs", "histories"],
 "All message positions, sizes and bit positions, both roles, checked with stand-in inner protocols that accept anything.",
 "Tests only compare the two keys of an unmodified run.",
 [L+"latke.rs"],
 [("running transcript hash", L+"latke.rs run/finalize")],
 [("running_transcript_hash", "hash over all messages", L+"latke.rs")], ["finalize()"])

prop("C13", "Every session uses fresh randomness of full strength",
 "No two sessions, even with identical inputs and run in parallel, ever repeat an ephemeral public value, nonce, ciphertext or session key, and neither do two password files their user keys. Each of these values depends on at least 128 bits of the entropy supplied by the caller or the operating system (all bits of it where the value is shorter than that, as with 96-bit nonces), and never on the clock, counters or protocol inputs alone.",
 ["histories", "inputs"],
 "All protocols, roles, and entropy streams; pairs of sessions that differ only in entropy and pairs that share everything else.",
 "Tests run each protocol once, so a constant or truncated ephemeral is invisible to them.",
 PAKES + IBKES + TOP + [L+"auth_enc.rs", "saber-rust/src/generic.rs", "pqcrypto/pqcrypto-internals/src/lib.rs"],
 [("ephemeral generation", L+"ibke/*.rs, "+L+"pake/*.rs, saber keygen/encapsulate"), ("randombytes", "pqcrypto/pqcrypto-internals/src/lib.rs")],
 [], ["wire values and keys of many sessions, getrandom interposition"])

prop("C14", "The PAKEs compute exactly the published protocols",
 "CAKE, CPace and KC-SPAKE2 interoperate in both roles with an independent implementation written from their specifications: for every password, session id and choice of randomness, messages are accepted in both directions and the keys agree bit for bit. In particular CAKE's password encryption is a permutation in which every plaintext bit influences the whole ciphertext, with separate keys per message, session id and password.",
 ["inputs", "programs"],
 "All passwords, session ids, random choices, both roles, with an independent peer.",
 "Unit tests let the code talk to itself, so symmetric deviations (a dropped hash input, a weakened cipher round, a wrong domain byte on both sides) pass.",
 PAKES + [L+"ideal_cipher.rs"],
 [("ideal cipher", L+"ideal_cipher.rs"), ("key schedules", L+"pake/*.rs")],
 [], ["interoperation with reference peers"])

prop("C15", "The identity-based exchanges compute exactly the published protocols",
 "FG-IBKE, HMQV-C, signed DH and SIGMA-R (with Ed25519 and with Dilithium2) interoperate in both roles with an independent implementation written from their specifications: for every authority, identity, session id and choice of randomness, certificates and messages are accepted in both directions, identities are reported correctly and the keys agree bit for bit. Signatures, MACs and key derivations cover every field the specification lists.",
 ["inputs", "programs"],
 "All keys, identities, session ids, random choices, both roles, with an independent peer.",
 "Unit tests let the code talk to itself, so a field dropped from signing and verification alike passes.",
 IBKES + [L+"auth_enc.rs"],
 [("extract", L+"ibke/*.rs"), ("signature/MAC inputs", L+"ibke/*.rs"), ("key schedules", L+"ibke/*.rs")],
 [], ["interoperation with reference peers"])

prop("C16", "LATKE and CHIP compute exactly the published compositions",
 "Full LATKE stacks and CHIP interoperate in both roles with an independent implementation of the compositions. The authority key pair in a LATKE password file is one fixed function of the password bytes alone (the same for every user, time, machine and random generator, different for different passwords), and the input handed to the PAKE is exactly the authority key plus, for a pre-specified peer, the initiator's and then the responder's identity (in CHIP: both shared points and the transcript).",
 ["inputs", "programs", "configurations"],
 "All passwords, identities, session ids, stacks, roles and peer models, with an independent peer and with stand-in PAKEs that record their input.",
 "Unit tests let the code talk to itself and check one password once.",
 TOP,
 [("gen_pwfile", L+"latke.rs, "+L+"chip.rs"), ("PAKE input", L+"latke.rs new_session, "+L+"chip.rs ibke_step_2")],
 [], ["interoperation with reference peers, recorded PAKE inputs"])

prop("C17", "Saber encapsulation and decapsulation always agree",
 "For LightSaber, Saber and FireSaber, in the CCA-secure and the plain variant, decapsulating an honestly produced ciphertext with the matching secret key returns exactly the encapsulated shared secret, with no failure observable at any practical number of tries, also after any of the keys or the ciphertext went through its byte encoding. A different secret key never returns that secret.",
 ["inputs", "configurations"],
 "All key pairs and encapsulation randomness of the three parameter sets and two variants.",
 "The tests do 1 KEM and 100 plain round trips per parameter set; the failure probability of 3.5e-6 reported in the README is invisible at that scale.",
 SAB,
 [("reconciliation", "saber-rust/src/generic.rs recon"), ("bit packing", "saber-rust/src/poly.rs"), ("implicit rejection", "saber-rust/src/generic.rs decapsulate")],
 [], ["shared secrets of both sides"])

prop("C18", "Saber computes exactly the specified KEM, with implicit rejection",
 "Public keys, ciphertexts and shared secrets equal those of an independent implementation of the Saber algorithms on the same seeds, for every parameter set. Decapsulating any altered or malformed ciphertext of the right length never fails, panics or returns the honest secret or a secret known to the sender: it returns the fixed pseudorandom value derived from the secret key's rejection secret and the ciphertext's re-encryption, the same one each time.",
 ["inputs"],
 "All seeds, secret keys, and ciphertexts (single-bit changes at every position, random strings, extreme coefficient patterns).",
 "Tests only round-trip honest ciphertexts; symmetric deviations and the rejection path are never exercised.",
 SAB,
 [("indcpa enc/dec", "saber-rust/src/generic.rs"), ("Fujisaki-Okamoto check", "saber-rust/src/generic.rs decapsulate")],
 [], ["serialized keys, ciphertexts, secrets"])

prop("C19", "Byte encodings round-trip exactly and wrong lengths are refused",
 "For every key, ciphertext, signature and signed message of Saber and Dilithium, decoding what was encoded gives back an equal object that behaves identically, and encoding what was decoded gives back the same bytes. Every decoder that reports errors refuses every input of a wrong length with a length error naming the actual and expected lengths, and never panics, truncates or pads (detached Dilithium signatures and signed messages may be decoded from shorter inputs, which are kept as they are and never verify).",
 ["inputs"],
 "All objects and all input lengths from 0 to beyond twice the expected one.",
 "Tests decode only what they have just encoded, once, and never a wrong length.",
 SAB + ["saber-rust/src/newtype.rs"] + DIL[:3] + ["pqcrypto/pqcrypto-traits/src/sign.rs"],
 [("to_bytes/from_bytes", "saber-rust/src/generic.rs, newtype.rs; pqcrypto-dilithium/src/dilithium*.rs")],
 [], ["encoders and decoders"])

prop("C20", "Dilithium accepts all honest signatures and rejects everything else",
 "For all three parameter sets, every signature made by a key pair (randomly or deterministically generated) on a message of any length verifies, attached and detached signatures carry the same signature, and opening a signed message returns exactly the message. Any change to the message, any bit of the signature, its length, or the public key makes verification fail with an error, and opening never returns a message then.",
 ["inputs"],
 "All messages (including empty and large), key pairs, and all single-bit and length changes of signatures, messages and keys.",
 "Tests sign a few random messages and never check rejection of a modified signature.",
 DIL,
 [("verify", "pqclean/crypto_sign/dilithium*/{clean,avx2}/sign.c"), ("wrappers", "pqcrypto-dilithium/src/dilithium*.rs")],
 [], ["Rust API results"])

prop("C21", "Dilithium implementations agree with the specification and each other",
 "For every seed, message and signature, the portable and the vectorised code give identical keys and signatures and identical verdicts, equal to an independent implementation of the specification. Deterministic key generation is a pure function of its 32 coin bytes, every coin bit matters, and its keys are those that ordinary key generation makes from the same random bytes; signatures with oversized coefficients or malformed hints are rejected by all implementations.",
 ["inputs", "configurations"],
 "All seeds, messages and signature strings (including ones made by a signer that skips one rejection rule, and non-canonical hint encodings), three parameter sets, clean and AVX2 code.",
 "Known-answer tests cover 100 fixed seeds of honest use; deterministic key generation, disagreement between implementations on invalid signatures and non-canonical encodings are not tested.",
 DIL + ["pqcrypto/pqcrypto-dilithium/src/ffi.rs"],
 [("keypair_det", "pqclean/crypto_sign/dilithium*/clean/sign.c"), ("hint decoding, norm checks", "packing.c / sign.c")],
 [], ["FFI functions"])

prop("C22", "Native code and its wrappers never touch memory outside their buffers",
 "No call through the public interfaces of the Dilithium bindings, whatever the message length, signature bytes, key bytes or buffer alignment, reads or writes outside the buffers it was given, reads uninitialised memory, or executes undefined behaviour; failed opens never expose uninitialised output. The same holds for the whole protocol stack built on top of it when it is fed arbitrary bytes.",
 ["inputs"],
 "All message lengths, alignments, signatures and keys, including adversarial ones, for clean and AVX2 code, under sanitizers and guard pages.",
 "The existing sanitizer tests run one fixed functional test with honest data on the C code only, not through the Rust wrappers.",
 DIL + ["pqcrypto/pqcrypto-internals/src/lib.rs", "pqcrypto/pqcrypto-internals/cfiles", "pqcrypto/pqcrypto-dilithium/src/ffi.rs"],
 [("buffer sizing", "pqcrypto-dilithium/src/dilithium*.rs macros"), ("C bounds", "pqclean/crypto_sign/**")],
 [], ["AddressSanitizer, UndefinedBehaviorSanitizer, guard pages, memcheck"])

prop("C23", "Concurrent sessions and calls never influence one another",
 "Any number of sessions, key generations, signatures and encapsulations running in parallel threads produce the results they would produce alone: every one completes correctly, outputs depend only on its own inputs and entropy, and there is no data race. Running other operations before or in between never changes a deterministic result.",
 ["schedules", "histories"],
 "All thread interleavings and all orders of calls.",
 "All tests exercise one operation at a time on one thread.",
 TOP + PAKES + IBKES + SAB + DIL,
 [("absence of shared mutable state", "whole repository")],
 [], ["ThreadSanitizer, comparison with single-threaded results"])

prop("C24", "Checks of secret values do not branch on the secret data",
 "Comparing a received confirmation value with the expected one (in KC-SPAKE2, FG-IBKE, HMQV-C, SIGMA-R and the encrypted channel), and decapsulating with Saber, executes the same instructions and touches the same addresses whatever the secret contents: no conditional jump or memory address depends on the expected MAC, the secret key or the decapsulated message.",
 ["inputs"],
 "All secret values; observed as undefined-value taint in a memory checker along the executed path.",
 "Functional tests cannot see timing at all.",
 [L+"pake/kc_spake2.rs", L+"ibke/fg_ibke.rs", L+"ibke/id_hmqv_c.rs", L+"auth_enc.rs", "saber-rust/src/generic.rs", "saber-rust/src/poly.rs"],
 [("ct_eq / Mac::verify", L+"pake/kc_spake2.rs, "+L+"ibke/*.rs, "+L+"auth_enc.rs"), ("secret integers", "saber-rust/src/*.rs")],
 [], ["valgrind memcheck with secrets marked undefined"])

prop("C25", "Entropy failures never lead to predictable keys",
 "If the operating system's random source fails, is interrupted, or returns short reads at any point, every key generation, encapsulation and protocol step either still gets its full fresh random bytes or aborts; it never continues with zero, stale or partial randomness. Interruptions and short reads alone never change a result or cause a failure.",
 ["fault_sequences"],
 "Every entropy request of every operation, failing with every error, interrupted, or answered in pieces of any size.",
 "No test injects a fault into the random source.",
 ["pqcrypto/pqcrypto-internals/src/lib.rs", "saber-rust/src/generic.rs", "pqcrypto/pqclean/common/randombytes.c"] + DIL[:3] + IBKES + PAKES,
 [("error propagation of the random source", "pqcrypto-internals/src/lib.rs, saber-rust/src/generic.rs")],
 [], ["interposed getrandom"])

prop("C26", "Hash, XOF and stream primitives are exact for every input and chunking",
 "The bundled SHA-2, SHA-3, SHAKE, cSHAKE, AES-CTR and 4-way Keccak code returns the standard's value for every input length and output length, however the input is split over incremental calls and the output over squeezes, and cloned or released states never influence each other. Both bundled copies of this code behave identically.",
 ["inputs", "histories"],
 "All lengths around block boundaries and beyond, all splits into incremental calls, all interleavings of states.",
 "The existing common tests check a few fixed vectors and chunkings on one of the two copies.",
 ["pqcrypto/pqcrypto-internals/cfiles", "pqcrypto/pqclean/common"],
 [("incremental absorb/squeeze", "fips202.c, sha2.c, sp800-185.c"), ("AES-CTR", "aes.c"), ("keccak4x", "KeccakP-1600-times4-SIMD256.c")],
 [], ["C API"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
print(len(P))
