//! C10-C12: LATKE's encrypted channel, observed with a recorded PAKE and a scripted exchange.
use crate::core::*;
use crate::mock::{self, Script};
use crate::party::*;
use crate::refs::{kdf::*, stack::*};
use crate::util::*;
use latke::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::*};
use std::collections::HashSet;

const SIZES: [usize; 24] = [1, 2, 11, 12, 13, 15, 16, 31, 32, 33, 43, 44, 45, 63, 64, 65, 127, 128, 129, 255, 256, 1000, 4096, 10000];

fn scripted(c: &mut Case, empty: bool) -> (Script, [u8; 32]) {
    let mut s = Script::blank();
    let np = 2 + c.below(3);
    s.pake_msgs = (0..np).map(|_| 4 + c.below(60)).collect();
    let k = any32(c);
    s.pake_key = Some([k; 2]);
    let n = 2 + c.below(6);
    for j in 0..n {
        let l = match c.below(6) {
            0 if empty && j + 1 < n => 0,
            1 => SIZES[c.below(SIZES.len())],
            _ => 1 + c.below(200),
        };
        let m = match c.below(4) {
            0 => vec![0; l],
            _ => c.vec(l),
        };
        s.inner.push(m);
    }
    s.inner_key = [c.bytes32(); 2];
    (s, k)
}
fn even(n: usize) -> usize {
    (n + 1) / 2 * 2
}
fn post() -> Proto {
    latkes().remove(1)
}

fn contains(hay: &[u8], needle: &[u8]) -> bool {
    hay.windows(needle.len()).any(|w| w == needle)
}
fn rich(w: &[u8]) -> bool {
    let mut v = w.to_vec();
    v.sort();
    v.dedup();
    v.len() >= 9
}

pub fn c10(th: bool) -> Plan {
    let mut groups = vec![];
    groups.push(group("scripted", if th { 30000 } else { 3000 }, |c| {
        let q = post();
        let pr = pair(c, &q);
        let (mut s, k) = scripted(c, true);
        s.inner_id = [pr.r.id, pr.i.id];
        let (inner, pm) = (s.inner.clone(), s.pake_msgs.clone());
        mock::set(s);
        let (mut i, mut r) = (mock::mock_latke(&pr.i), mock::mock_latke(&pr.r));
        let e = even(pm.len());
        let t = faithful(&mut *i, &mut *r, e + inner.len() + 2);
        c.eval();
        let ctx = || format!("PAKE {:?} key {} inner {:?} {}", pm, hex(&k), inner.iter().map(|m| m.len()).collect::<Vec<_>>(), show_pair(&pr));
        if t.evs.len() < e + inner.len() {
            c.fail("latke: scripted session stops", format!("{:?} {:?} {}", t.rej, t.sizes(), ctx()));
            return;
        }
        let keys: Vec<Vec<u8>> = (0..inner.len() + 2).map(|n| Ratchet::at(&k, &pr.i.ssid, n)).collect();
        let mut used = HashSet::new();
        for (n, pt) in inner.iter().enumerate() {
            let w = t.evs[e + n].sent.clone().unwrap_or_default();
            if pt.is_empty() {
                c.check(w.is_empty(), "latke: an empty message is not sent empty", ctx);
                continue;
            }
            c.count("encrypted messages");
            let got = open(&keys[n], &w);
            c.check(got.as_ref() == Some(pt), "latke: message does not decrypt under its own key to the protocol's message", || {
                format!("message {} of {} bytes, plaintext {:?}; {}", n, w.len(), got.as_ref().map(|p| hex(p)), ctx())
            });
            c.check(w.len() == pt.len() + OVERHEAD, "latke: overhead of an encrypted message", || format!("{} -> {}; {}", pt.len(), w.len(), ctx()));
            for (m, other) in keys.iter().enumerate() {
                if m != n {
                    c.check(open(other, &w).is_none(), "latke: message decrypts under another position's key", || format!("message {} under key {}; {}", n, m, ctx()));
                }
            }
            // neither another session id nor the raw PAKE key opens it
            let ssid2 = near32(c, &pr.i.ssid);
            c.check(open(&Ratchet::at(&k, &ssid2, n), &w).is_none(), "latke: message decrypts under another session's key", ctx);
            let k2 = flip32(c, &k);
            c.check(open(&Ratchet::at(&k2, &pr.i.ssid, n), &w).is_none(), "latke: message decrypts under another PAKE key", ctx);
            c.add("foreign keys tried", keys.len() as u64 + 1);
            if w.len() >= 44 {
                let nonce = w[w.len() - 44..w.len() - 32].to_vec();
                c.check(used.insert((keys[n].clone(), nonce)), "latke: a (key, nonce) pair is used twice", ctx);
                // encrypted, not just authenticated
                if pt.len() >= 12 {
                    let same = pt.iter().zip(&w).filter(|(a, b)| a == b).count();
                    c.check(same * 2 < pt.len(), "latke: plaintext visible in a message", || format!("message {}: {} of {} bytes; {}", n, same, pt.len(), ctx()));
                }
            }
            c.nontrivial(&w);
        }
        c.sample(ctx);
    }));
    // a message is corrupted on the way: what both sides send from then on is still hidden and no key serves twice
    groups.push(group("after a corrupted message", if th { 20000 } else { 2000 }, |c| {
        let q = post();
        let pr = pair(c, &q);
        let (mut s, k) = scripted(c, false);
        while s.inner.len() < 5 {
            let l = 1 + c.below(120);
            let m = c.vec(l);
            s.inner.push(m);
        }
        let (inner, pm) = (s.inner.clone(), s.pake_msgs.clone());
        mock::set(s);
        let (mut i, mut r) = (mock::mock_latke(&pr.i), mock::mock_latke(&pr.r));
        let e = even(pm.len());
        let hit = c.below(inner.len() - 1);
        let t = drive(&mut *i, &mut *r, e + inner.len() + 2, &mut |n, m| {
            let mut m = m.to_vec();
            if n == e + hit && !m.is_empty() {
                let b = pr.i.user_seed as usize % (m.len() * 8);
                m[b / 8] ^= 1 << (b % 8);
            }
            m
        });
        c.eval();
        let ctx = || format!("PAKE {:?} key {} inner {:?} message {} corrupted {}", pm, hex(&k), inner.iter().map(|m| m.len()).collect::<Vec<_>>(), hit, show_pair(&pr));
        let keys: Vec<Vec<u8>> = (0..2 * inner.len() + 4).map(|n| Ratchet::at(&k, &pr.i.ssid, n)).collect();
        let mut by_key = std::collections::HashMap::new();
        for (n, ev) in t.evs.iter().enumerate().skip(e) {
            let Some(w) = ev.sent.clone().filter(|w| !w.is_empty()) else { continue };
            for (j, key) in keys.iter().enumerate() {
                if let Some(p) = open(key, &w) {
                    if let Some(o) = by_key.insert(j, n) {
                        c.fail("latke: one key encrypts two messages of a session", format!("messages {} and {} after the PAKE, key {}; {}", o - e, n - e, j, ctx()));
                    }
                    let same = p.iter().zip(&w).filter(|(a, b)| a == b).count();
                    c.check(p.len() < 12 || same * 2 < p.len(), "latke: plaintext visible in a message", ctx);
                }
            }
            c.add("keys tried after a corruption", keys.len() as u64);
            if let Some(pt) = inner.get(n - e).filter(|p| p.len() >= 12) {
                let same = pt.iter().zip(&w).filter(|(a, b)| a == b).count();
                c.check(same * 2 < pt.len(), "latke: plaintext visible in a message", || format!("message {}; {}", n - e, ctx()));
            }
            if w.len() >= 76 {
                let body = &w[..w.len() - 44];
                let zeros = body.iter().filter(|b| **b == 0).count();
                c.check(zeros * 2 < body.len(), "latke: an unencrypted message after a failure", || format!("message {}: {}; {}", n - e, hex(&w), ctx()));
            }
            c.nontrivial(&w);
        }
        c.count("sessions with a corrupted message");
    }));
    // the same PAKE key and session id a second time: other nonces
    groups.push(group("same key twice", if th { 8000 } else { 800 }, |c| {
        let q = post();
        let pr = pair(c, &q);
        let (s, k) = scripted(c, false);
        let mut seen = HashSet::new();
        let e = even(s.pake_msgs.len());
        let (inner, pm) = (s.inner.clone(), s.pake_msgs.clone());
        let ssid = pr.i.ssid;
        for run in 0..3 {
            let mut s = Script::blank();
            s.inner = inner.clone();
            s.pake_msgs = pm.clone();
            s.pake_key = Some([k; 2]);
            mock::set(s);
            let (mut a, mut b) = (pr.i.clone(), pr.r.clone());
            a.rng_seed = c.u64();
            b.rng_seed = c.u64();
            let (mut i, mut r) = (mock::mock_latke(&a), mock::mock_latke(&b));
            let t = faithful(&mut *i, &mut *r, e + inner.len() + 2);
            for (n, ev) in t.evs.iter().enumerate().skip(e) {
                if let Some(m) = &ev.sent {
                    if m.len() >= 44 {
                        let ok = seen.insert((n, m[m.len() - 44..m.len() - 32].to_vec()));
                        c.check(ok, "latke: a (key, nonce) pair is used twice", || format!("run {} message {} ssid {} {}", run, n, hex(&ssid), show_pair(&pr)));
                        c.count("nonces under a repeated key");
                        c.nontrivial(m);
                    }
                }
            }
            c.eval();
        }
    }));
    // the real exchanges: decrypt the wire and look for anything of it in the clear
    fn wire<I: latke::IdentityBasedKeyExchange + 'static>(c: &mut Case, q: &Proto) {
        let mut pr = pair(c, q);
        // identities and nothing else to be recognised
        pr.i.id = c.bytes32();
        pr.r.id = c.bytes32();
        if q.wants_peer() {
            pr.i.peer = Some(pr.r.id);
            pr.r.peer = Some(pr.i.id);
        }
        let mut s = Script::blank();
        s.pake_msgs = vec![5, 6];
        let k = c.bytes32();
        s.pake_key = Some([k; 2]);
        mock::set(s);
        let (mut i, mut r) = (mock::latke_over::<I>(&pr.i), mock::latke_over::<I>(&pr.r));
        let t = faithful(&mut *i, &mut *r, 12);
        c.eval();
        let ctx = || format!("{} over a scripted PAKE {} sizes {:?} {:?}", q.name, show_pair(&pr), t.sizes(), t.rej);
        let wire: Vec<&Vec<u8>> = t.evs.iter().filter_map(|e| e.sent.as_ref()).collect();
        let mut plain = vec![];
        for n in 0..ibke_sizes(q.ibke).len() {
            let Some(m) = t.evs.get(2 + n).and_then(|e| e.sent.as_ref()) else {
                c.fail(format!("{}: stops over a scripted PAKE", q.name), ctx());
                return;
            };
            match open(&Ratchet::at(&k, &pr.i.ssid, n), m) {
                Some(p) => {
                    c.check(p.len() == ibke_sizes(q.ibke)[n], &format!("{}: size of an inner message", q.name), ctx);
                    plain.push(p)
                }
                None => c.fail(format!("{}: message does not decrypt under its own key", q.name), format!("message {}; {}", n, ctx())),
            }
            c.count("encrypted messages");
        }
        plain.push(pr.i.id.to_vec());
        plain.push(pr.r.id.to_vec());
        let all: Vec<u8> = wire.iter().flat_map(|m| m.iter().copied()).collect();
        let mut idx: HashSet<[u8; 16]> = HashSet::new();
        for w in all.windows(16) {
            idx.insert(w.try_into().unwrap());
        }
        for p in &plain {
            for w in p.windows(16) {
                if rich(w) {
                    c.check(!idx.contains(w), &format!("{}: identity-exchange data on the wire in clear", q.name), || format!("{} {}", hex(w), ctx()));
                    c.count("plaintext windows looked for");
                }
            }
        }
        c.nontrivial(&all);
    }
    for (name, f) in [
        ("fg", wire::<FgIbkeC> as fn(&mut Case, &Proto)),
        ("hmqv", wire::<IdHmqvC>),
        ("sigdh", wire::<IdSigDh>),
        ("sigma-ed25519", wire::<IdSigmaREd25519>),
        ("sigma-dilithium2", wire::<IdSigmaRDilithium2>),
    ] {
        for p in latkes().into_iter().filter(|p| p.ibke == name && p.pake == "cpace") {
            groups.push(group(format!("wire {} {:?}", name, p.kind), cases(&p, 400, th), move |c| f(c, &p)));
        }
    }
    // complete stacks: identities and the authority's key never on the wire, also in the PAKE phase
    for p in latkes() {
        let q = p.clone();
        groups.push(group(format!("identities {}", p.name), cases(&p, 250, th), move |c| {
            let mut pr = pair(c, &q);
            pr.i.id = c.bytes32();
            pr.r.id = c.bytes32();
            if q.wants_peer() {
                pr.i.peer = Some(pr.r.id);
                pr.r.peer = Some(pr.i.id);
            }
            let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
            let t = faithful(&mut *i, &mut *r, q.msgs.len() + 2);
            let all: Vec<u8> = t.evs.iter().filter_map(|e| e.sent.clone()).flatten().collect();
            let mpk = crate::refs::ibke::Auth::of_password(q.ibke, &pr.i.secret).mpk();
            c.eval();
            for (what, b) in [("initiator identity", &pr.i.id[..]), ("responder identity", &pr.r.id[..]), ("authority key", &mpk[..32])] {
                for o in [0, 8, 16] {
                    c.check(!contains(&all, &b[o..o + 16]), &format!("{}: {} on the wire in clear", q.name, what), || show_pair(&pr));
                    c.count("plaintext windows looked for");
                }
            }
            c.seen("stacks", q.name.as_bytes());
            c.nontrivial(&all);
        }));
    }
    Plan {
        groups,
        rule: "every ciphertext of a session over a PAKE with a known key is opened with independently derived ratchet keys: its own, all others, those of other sessions; distinct ciphertexts count",
        need: vec![("encrypted messages", 3000), ("foreign keys tried", 10000), ("nonces under a repeated key", 1000), ("plaintext windows looked for", 20000), ("stacks", 30)],
        assumptions: vec!["HKDF-BLAKE2b, ChaCha20 and HMAC are trusted primitives"],
    }
}

pub fn c11(th: bool) -> Plan {
    let mut groups = vec![];
    // every plaintext length
    groups.push(group("lengths", if th { 6000 } else { 1200 }, |c| {
        let q = post();
        let pr = pair(c, &q);
        let (mut s, _) = scripted(c, false);
        let l = if c.idx < 600 { c.idx + 1 } else { 1 + c.below(20000) };
        let at = c.below(s.inner.len());
        s.inner[at] = c.vec(l);
        let (inner, e) = (s.inner.clone(), even(s.pake_msgs.len()));
        mock::set(s);
        let (mut i, mut r) = (mock::mock_latke(&pr.i), mock::mock_latke(&pr.r));
        let t = faithful(&mut *i, &mut *r, e + inner.len() + 2);
        c.eval();
        let ctx = || format!("length {} at {}; {:?} {:?} {}", l, at, t.rej, t.sizes(), show_pair(&pr));
        mock::with(|s| {
            let got: Vec<Vec<u8>> = s.inner_got.iter().filter(|g| g.1 > 0).map(|g| g.2.clone()).collect();
            c.check(got == inner, "latke: decrypted messages differ from those encrypted", ctx);
        });
        for (n, m) in inner.iter().enumerate() {
            let len = t.evs.get(e + n).and_then(|ev| ev.sent.as_ref()).map(|m| m.len());
            c.check(len == Some(m.len() + OVERHEAD), "latke: ciphertext overhead is not constant", || format!("{} -> {:?}; {}", m.len(), len, ctx()));
            c.count("messages carried");
        }
        c.seen("plaintext lengths", &l.to_le_bytes());
        c.nontrivial(&t.bytes());
    }));
    // one changed message
    let attack = |c: &mut Case, bit: Option<usize>| {
        let q = post();
        let pr = pair(c, &q);
        let (mut s, k) = scripted(c, false);
        let at = c.below(s.inner.len());
        if bit.is_some() {
            // short enough to walk through all its bits
            s.inner[at] = c.vec(9)
        }
        let (inner, e) = (s.inner.clone(), even(s.pake_msgs.len()));
        mock::set(s);
        let (mut i, mut r) = (mock::mock_latke(&pr.i), mock::mock_latke(&pr.r));
        let mut kind = "";
        let mut delivered = vec![];
        let mut original = vec![];
        let choice = c.below(12);
        let (x, y) = (c.u64() as usize, c.u64() as usize);
        let noise = c.vec(64);
        let mut earlier: Vec<Vec<u8>> = vec![];
        let ssid = pr.i.ssid;
        let t = drive(&mut *i, &mut *r, e + inner.len() + 2, &mut |kk, m| {
            if kk != e + at {
                earlier.push(m.to_vec());
                return m.to_vec();
            }
            let mut v = m.to_vec();
            original = v.clone();
            let n = v.len();
            if let Some(b) = bit {
                if n > 0 {
                    let b = b % (n * 8);
                    v[b / 8] ^= 1 << (b % 8);
                }
                kind = "every bit";
            } else {
                kind = match choice {
                    0 => {
                        v.truncate(1 + x % (n - 1));
                        "truncated"
                    }
                    1 => {
                        v.extend(&noise[..1 + x % 64]);
                        "extended"
                    }
                    2 => {
                        v.insert(x % n, y as u8);
                        "inserted byte"
                    }
                    3 => {
                        v.remove(x % n);
                        "removed byte"
                    }
                    4 => {
                        // drop from the front of the ciphertext, keep nonce and tag
                        let d = 1 + x % (n - 44).max(1);
                        v.drain(..d.min(n - 1));
                        "front dropped"
                    }
                    5 => {
                        v = earlier.iter().rev().find(|w| w.len() > 44).cloned().unwrap_or(noise.clone());
                        "an earlier message"
                    }
                    6 => {
                        // the right plaintext, perfectly sealed under a neighbouring position's key
                        let pos = if x % 2 == 0 { at + 1 } else { at.saturating_sub(1) };
                        let pos = if pos == at { at + 1 } else { pos };
                        v = seal(&Ratchet::at(&k, &ssid, pos), &noise[..12].try_into().unwrap(), &inner[at]);
                        "sealed under another position's key"
                    }
                    7 => {
                        let l = v.len();
                        for b in &mut v[l - 32..] {
                            *b = 0
                        }
                        "zero tag"
                    }
                    8 => {
                        let l = v.len();
                        v[l - 44..l - 32].copy_from_slice(&noise[..12]);
                        "other nonce"
                    }
                    9 => {
                        // tag over the ciphertext only, the nonce exchanged
                        let key = Ratchet::at(&k, &ssid, at);
                        let l = v.len();
                        let c = v[..l - 44].to_vec();
                        let tag = hmac(&key[32..64], &[&c]);
                        v = [&c[..], &noise[..12], &tag].concat();
                        "tag without the nonce"
                    }
                    10 => {
                        let key = Ratchet::at(&k, &ssid, at);
                        let l = v.len();
                        let tag = hmac(&key[..32], &[&v[..l - 32]]);
                        v[l - 32..].copy_from_slice(&tag);
                        "tag under the encryption key"
                    }
                    _ => {
                        let (a, b) = (x % (n * 8), y % (n * 8));
                        v[a / 8] ^= 1 << (a % 8);
                        if a != b {
                            v[b / 8] ^= 1 << (b % 8);
                        }
                        "two bits"
                    }
                };
            }
            earlier.push(m.to_vec());
            delivered = v.clone();
            v
        });
        c.eval();
        if delivered.is_empty() || delivered == original {
            c.count("unchanged after all");
            return;
        }
        let w = (at + 1) % 2;
        let ctx = || format!("{} at message {}: {} -> {}; {:?} {}", kind, at, hex(&original), hex(&delivered), t.rej, show_pair(&pr));
        mock::with(|s| {
            let ran = s.inner_got.iter().any(|g| mock::ix(g.0) == w && g.1 == at + 1);
            c.check(!ran, "latke: a changed message reaches the identity exchange", ctx);
            let sim = s.inner_sim.iter().any(|g| mock::ix(g.0) == w && g.1 == at + 1);
            if sim {
                c.count("changed messages refused");
            }
        });
        c.seen("kinds of change", kind.as_bytes());
        c.nontrivial(&delivered);
        c.sample(ctx);
    };
    groups.push(group("every bit", (9 + 44) * 8 * if th { 10 } else { 2 }, move |c| {
        let b = c.idx;
        attack(c, Some(b))
    }));
    groups.push(group("changed", if th { 60000 } else { 6000 }, move |c| attack(c, None)));
    // every length of a message, from one byte to many more than it has
    groups.push(group("every length", if th { 1200 } else { 240 }, |c| {
        let q = post();
        let pr = pair(c, &q);
        let l = 1 + c.idx % 120;
        let (mut s, _) = scripted(c, false);
        s.inner = vec![c.vec(20), c.vec(20), c.vec(20)];
        let e = even(s.pake_msgs.len());
        mock::set(s);
        let (mut i, mut r) = (mock::mock_latke(&pr.i), mock::mock_latke(&pr.r));
        let tail = c.vec(120);
        let mut len = 0;
        let t = drive(&mut *i, &mut *r, e + 5, &mut |k, m| {
            if k != e {
                return m.to_vec();
            }
            len = m.len();
            let mut v = m.to_vec();
            v.extend(&tail);
            v.truncate(l);
            v
        });
        c.eval();
        mock::with(|s| {
            let ran = s.inner_got.iter().any(|g| mock::ix(g.0) == 1 && g.1 == 1);
            c.check(ran == (l == len), "latke: a message of the wrong length reaches the identity exchange", || format!("{} of {} bytes; {:?} {}", l, len, t.rej, show_pair(&pr)));
        });
        c.check(!t.rejected(), "latke: aborts on a message of the wrong length", || format!("{} of {} bytes; {:?} {}", l, len, t.rej, show_pair(&pr)));
        c.count("lengths tried");
        c.nontrivial(&t.bytes());
    }));
    Plan {
        groups,
        rule: "one scripted LATKE session per case with one message changed: each bit of a short message, each length, structured changes incl. perfectly formed ciphertexts under other keys; the scripted exchange records whatever it is handed; distinct delivered messages count",
        need: vec![("plaintext lengths", 600), ("changed messages refused", 4000), ("kinds of change", 13), ("lengths tried", 120)],
        assumptions: vec!["HMAC-BLAKE2b is unforgeable", "a zero-length message carries the empty plaintext by design"],
    }
}

pub fn c12(th: bool) -> Plan {
    let mut groups = vec![];
    groups.push(group("scripted", if th { 40000 } else { 4000 }, |c| {
        let q = post();
        let pr = pair(c, &q);
        let (mut s, k) = scripted(c, false);
        s.inner_id = [any32(c), any32(c)];
        let what = c.below(5);
        let inner_same = what != 3;
        if !inner_same {
            s.inner_key[1] = flip32(c, &s.inner_key[0].clone());
        }
        let (inner, pm, ids, ik) = (s.inner.clone(), s.pake_msgs.clone(), s.inner_id, s.inner_key);
        let e = even(pm.len());
        mock::set(s);
        let (mut i, mut r) = (mock::mock_latke(&pr.i), mock::mock_latke(&pr.r));
        // which message to exchange for another the receiver cannot tell from it
        let slot = match what {
            0 => None,
            1 => Some(c.below(pm.len())),
            2 => Some(e + c.below(inner.len())),
            3 => None,
            _ => Some(c.below(e + inner.len())),
        };
        let (x, noise) = (c.u64() as usize, c.bytes32());
        let ssid = pr.i.ssid;
        let mut views: [Vec<u8>; 2] = [vec![], vec![]];
        let mut changed = "";
        let t = drive(&mut *i, &mut *r, e + inner.len() + 2, &mut |kk, m| {
            let mut v = m.to_vec();
            if slot == Some(kk) && !v.is_empty() {
                if kk < e {
                    let b = x % (v.len() * 8);
                    v[b / 8] ^= 1 << (b % 8);
                    changed = "PAKE message";
                } else {
                    // the same plaintext sealed again, the nonce one bit away or fresh
                    let n = kk - e;
                    let l = v.len();
                    let mut nonce: [u8; 12] = v[l - 44..l - 32].try_into().unwrap();
                    if x % 3 == 0 {
                        nonce = noise[..12].try_into().unwrap()
                    } else {
                        nonce[x / 8 % 12] ^= 1 << (x % 8)
                    }
                    v = seal(&Ratchet::at(&k, &ssid, n), &nonce, &inner[n]);
                    changed = "encrypted message";
                }
            }
            views[kk % 2].extend(m);
            views[(kk + 1) % 2].extend(&v);
            v
        });
        c.eval();
        let ctx = || format!("changed {:?} {} PAKE {:?} inner {:?} keys {} {} {}; {:?}", slot, changed, pm, inner.iter().map(|m| m.len()).collect::<Vec<_>>(), hex(&ik[0]), hex(&ik[1]), show_pair(&pr), t.rej);
        let (Some(a), Some(b)) = (accepted(&*i), accepted(&*r)) else {
            c.check(!changed.is_empty(), "latke: scripted session does not finish", ctx);
            c.count("not finished");
            return;
        };
        let same_view = views[0] == views[1];
        c.check((a.key == b.key) == (same_view && inner_same), if same_view && inner_same { "latke: keys differ although the conversations agree" } else { "latke: same key although the conversations differ" }, || {
            format!("keys {} {}; {}", hex(&a.key), hex(&b.key), ctx())
        });
        c.check(a.id == Some(ids[0]) && b.id == Some(ids[1]), "latke: identity is not the one the inner exchange authenticated", ctx);
        for (w, f) in [(0, &a), (1, &b)] {
            c.check(f.key != ik[w] && f.key != k && f.key != [0; 32], "latke: output key is an inner key", ctx);
            // and exactly the published function
            let prk = extract(b"latke-tr-hash", &[&views[w][..], &ik[w]].concat());
            c.check(f.key == expand32(&prk, &[b"latke-final"]), "latke: output key is not the specified function", ctx);
        }
        c.count(match (same_view, inner_same) {
            (true, true) => "agreeing conversations",
            (true, false) => "differing inner keys",
            _ => {
                if slot.unwrap() < e {
                    "differing PAKE messages"
                } else {
                    "differing encrypted messages"
                }
            }
        });
        c.nontrivial(&t.bytes());
        c.sample(ctx);
    }));
    // each byte position of each message, systematically
    groups.push(group("every position", if th { 4000 } else { 600 }, |c| {
        let q = post();
        let pr = pair(c, &q);
        let k = c.bytes32();
        let inner = vec![c.vec(1 + c.idx % 3), c.vec(2), c.vec(3)];
        let key = c.bytes32();
        let np = 2 + c.idx % 3;
        let e = even(np);
        let lens: Vec<usize> = (0..np).map(|j| 3 + j).collect();
        // positions: bytes of the PAKE messages, then the nonce bytes of the encrypted ones
        let mut places: Vec<(usize, usize)> = vec![];
        for (j, l) in lens.iter().enumerate() {
            places.extend((0..*l).map(|b| (j, b)))
        }
        for j in 0..3 {
            places.extend((0..12).map(|b| (e + j, b)))
        }
        let (slot, byte) = places[(c.idx / 3) % places.len()];
        let bit = c.below(8);
        let mut s = Script::blank();
        s.pake_msgs = lens;
        s.pake_key = Some([k; 2]);
        s.inner = inner.clone();
        s.inner_key = [key; 2];
        mock::set(s);
        let (mut i, mut r) = (mock::mock_latke(&pr.i), mock::mock_latke(&pr.r));
        let t = drive(&mut *i, &mut *r, e + 5, &mut |kk, m| {
            let mut v = m.to_vec();
            if kk == slot && kk < e {
                v[byte] ^= 1 << bit;
            } else if kk == slot {
                let l = v.len();
                let mut nonce: [u8; 12] = v[l - 44..l - 32].try_into().unwrap();
                nonce[byte] ^= 1 << bit;
                v = seal(&Ratchet::at(&k, &pr.i.ssid, kk - e), &nonce, &inner[kk - e]);
            }
            v
        });
        c.eval();
        let (a, b) = (accepted(&*i), accepted(&*r));
        c.check(a.is_none() || b.is_none() || a.as_ref().unwrap().key != b.as_ref().unwrap().key, "latke: same key although the conversations differ", || {
            format!("slot {} byte {} bit {}; {:?} {}", slot, byte, bit, t.rej, show_pair(&pr))
        });
        if a.is_some() && b.is_some() {
            c.count("differing views completed");
        }
        c.seen("positions", format!("{} {} {}", np, slot, byte).as_bytes());
        c.nontrivial(&t.bytes());
    }));
    // the complete stacks: the key is a function of the conversation as recorded
    for p in latkes() {
        let q = p.clone();
        groups.push(group(format!("stack {}", p.name), cases(&p, 200, th), move |c| {
            let pr = pair(c, &q);
            let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
            let t = faithful(&mut *i, &mut *r, q.msgs.len() + 2);
            c.eval();
            let (Some(a), Some(b)) = (accepted(&*i), accepted(&*r)) else {
                c.fail(format!("{} does not finish", q.name), show_pair(&pr));
                return;
            };
            c.check(a.key == b.key && a.id == Some(pr.r.id) && b.id == Some(pr.i.id), &format!("{}: outputs", q.name), || show_pair(&pr));
            c.seen("stacks", q.name.as_bytes());
            c.seen("keys", &a.key);
            c.nontrivial(&t.bytes());
        }));
    }
    Plan {
        groups,
        rule: "one session per case in which the two views of the conversation differ in one place the receiver cannot notice by itself (PAKE message of a recording PAKE, ciphertext sealed again, inner key), or not at all; distinct transcripts count",
        need: vec![
            ("agreeing conversations", 300),
            ("differing inner keys", 300),
            ("differing PAKE messages", 300),
            ("differing encrypted messages", 300),
            ("differing views completed", 300),
            ("positions", 100),
            ("stacks", 30),
        ],
        assumptions: vec!["HKDF-BLAKE2b is collision resistant; a shift of bytes across the boundary of two messages of one direction is not a difference of the exchanged bytes (all messages have fixed sizes)"],
    }
}
