MON = "Runtime monitoring: "
TRUST = " Trusted: the harness's own monitors and reference code, the compiler, and the third-party primitives named in DESIGN.md."
E = "exploration"
def m(t, n):
    return (MON + t, E, n + TRUST)
MORE = {
 "C04": m("man-in-the-middle fault injection on every message of every stack with an acceptance monitor", "Held on every observed modification; bit positions, lengths and replacements sampled."),
 "C05": m("many concurrent sessions under an attacker that replays, reflects and reorders recorded messages, with an event-log monitor of matching conversations", "Held on every observed schedule; schedules sampled."),
 "C06": m("hostile peers built from an independent reference implementation, one forged field at a time, with an acceptance monitor", "Held on every observed forgery; kinds of forgery enumerated, positions sampled."),
 "C07": m("thief sessions with stolen password files and heap scans of password-file memory, with an identity monitor", "Held on every observed theft; the memory scan looks for the master key's bytes, not for encodings of it."),
 "C08": m("completion and key-release probes after every step of good, failed and over-stepped sessions", "Held on every observed history of steps and rejections."),
 "C09": m("corrupted and wrong-password LATKE sessions with a monitor of message count, sizes and freshness", "Held on every observed corruption; sampled."),
 "C10": m("wire monitor that decrypts every LATKE message with an independent ratchet and scans for clear-text identities and repeated keys and nonces", "Held on every observed session."),
 "C11": m("stand-in identity exchange that logs every delivered plaintext while single ciphertexts are altered, cut, extended and replayed", "Held on every observed alteration; all bit positions of sampled messages, sampled lengths."),
 "C12": m("stand-in inner protocols blind to tampering, with a monitor relating views of the conversation to output keys", "Held on every observed view difference."),
 "C14": m("differential sessions against independent PAKE implementations in both roles", "Held on every observed interoperating session."),
 "C15": m("differential sessions against independent identity-exchange implementations in both roles", "Held on every observed interoperating session."),
 "C16": m("differential sessions against independent LATKE and CHIP implementations and a recorded PAKE input", "Held on every observed interoperating session."),
 "C13": m("entropy interposition and caller-generator bit flips with a freshness and influence monitor over every emitted value", "Held on every observed session; influence measured by flipping single random bits, strength estimated by counting influential bits."),
 "C17": m("key-agreement monitor over Saber encapsulations through typed, encoded and plain interfaces", "Held on every observed encapsulation; says nothing about failure rates below the number of tries."),
 "C18": m("differential runs against an independent Saber implementation with tampered ciphertexts", "Held on every observed key and ciphertext."),
 "C19": m("round-trip and wrong-length monitor over every decoder", "All lengths near the boundaries and sampled others."),
 "C25": m("fault injection into every operating-system entropy source with a monitor of the bytes consumed", "Held under every injected fault schedule."),
 "C20": m("acceptance monitor over honest signatures and every kind of changed signature, message and key", "All single-bit changes of one signature and key per parameter set and run; the rest sampled."),
 "C21": m("differential runs of portable, vectorised and bound code against an independent implementation, with crafted signatures and keys at every bound", "Held on every observed key, message and signature; aarch64 code cannot run here."),
 "C26": m("differential runs of both copies against the standards with randomly split, cloned and released states", "All input lengths up to 600 bytes and sampled larger ones; splits sampled."),
 "C22": m("AddressSanitizer, UndefinedBehaviorSanitizer, valgrind memcheck and guard pages under hostile signatures, keys, lengths and alignments and under the other properties' workloads", "Held on every watched call; the aarch64 code cannot run here."),
 "C24": m("taint tracking with valgrind memcheck: received confirmations and Saber secret keys are marked undefined and every dependent jump or address is counted, in optimised and unoptimised builds", "Held along every executed path; instruction timing itself is not modelled."),
 "C23": m("ThreadSanitizer and result comparison over operations run together, after one another, interleaved step by step, from shared keys and in fresh processes, with injected yields and sleeps", "Held on every observed schedule and history; schedules are sampled, not enumerated."),
}
