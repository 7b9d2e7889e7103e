//! C17 and C18: the KEM against its contract and against the reference.
use crate::core::*;
use crate::entropy;
use crate::kem::*;
use crate::refs::saber as rs;
use crate::util::hex;

/// 32-byte windows of what the operation drew, aligned to draws of any size
fn chunks(log: &[u8]) -> Vec<[u8; 32]> {
    (0..log.len() / 32).map(|i| log[32 * i..32 * i + 32].try_into().unwrap()).collect()
}

pub fn c17(th: bool) -> Plan {
    let mut groups = vec![];
    for k in &KEMS {
        groups.push(group(format!("kem {}", k.name), if th { 40000 } else { 1200 }, move |c| {
            for round in 0..16 {
                let coded = round % 2 == 1;
                let (ss, ct, ss2, pk, sk) = if !coded {
                    (k.typed)()
                } else {
                    // every object goes through its encoding, some of them twice
                    let sk = (k.keygen)();
                    let r = (|| -> Result<_, String> {
                        let sk = if c.chance(1, 2) { (k.sk_round)(&sk)? } else { sk.clone() };
                        let pk = (k.pk_of)(&sk)?;
                        let pk = if c.chance(1, 2) { (k.pk_round)(&pk)? } else { pk };
                        let (ss, ct) = (k.encaps)(&pk)?;
                        let ct = if c.chance(1, 2) { (k.ct_round)(&ct)? } else { ct };
                        let ss2 = (k.decaps)(&ct, &sk)?;
                        Ok((ss, ct, ss2, pk, sk))
                    })();
                    match r {
                        Ok(x) => x,
                        Err(e) => {
                            c.fail("an honest operation fails", format!("{}: {} with secret key {}", k.name, e, hex(&sk)));
                            continue;
                        }
                    }
                };
                c.eval();
                c.count("honest decapsulations");
                c.nontrivial(&ss);
                c.check(ss == ss2, "decapsulation disagrees with encapsulation", || {
                    format!("{} (through encodings: {}): {} encapsulated, {} decapsulated; pk {} ct {} sk {}", k.name, coded, hex(&ss), hex(&ss2), hexall(&pk), hexall(&ct), hexall(&sk))
                });
                c.check(ss.len() == 32 && ss != [0; 32], "degenerate shared secret", || format!("{} {}", k.name, hex(&ss)));
                if round == 3 {
                    // many encapsulations to one key, each opened by it and by an unrelated one
                    let other = (k.keygen)();
                    for _ in 0..4 {
                        match (k.encaps)(&pk).and_then(|(s, ct)| Ok((s, (k.decaps)(&ct, &sk)?, (k.decaps)(&ct, &other)?))) {
                            Ok((a, b, o)) => {
                                c.count("honest decapsulations");
                                c.count("decapsulations with an unrelated key");
                                c.eval();
                                c.check(a == b, "decapsulation disagrees with encapsulation", || format!("{} sk {}", k.name, hexall(&sk)));
                                c.check(a != o, "an unrelated secret key obtains the shared secret", || format!("{} {} sk {} other {}", k.name, hex(&a), hexall(&sk), hexall(&other)));
                            }
                            Err(e) => c.fail("an honest operation fails", format!("{}: {}", k.name, e)),
                        }
                    }
                }
                if c.idx == 0 && round == 0 {
                    c.sample(|| format!("secret {} from ciphertext {}", hex(&ss), hex(&ct)));
                }
            }
        }));
        groups.push(group(format!("heavy noise {}", k.name), if th { 6000 } else { 200 }, move |c| {
            // honest keys and encapsulations whose randomness makes decapsulation as hard as it gets
            let p = k.p;
            let seeds: Vec<[u8; 32]> = (0..200).map(|_| c.bytes32()).collect();
            let heavy = *seeds.iter().max_by_key(|s| rs::weight(&rs::gen_secret(p, &s[..]))).unwrap();
            entropy::with(|e| e.feed = [&[c.idx as u8; 32][..], &heavy].concat());
            let sk = (k.keygen)();
            entropy::with(|e| e.feed.clear());
            let Ok(pk) = (k.pk_of)(&sk) else {
                c.fail("an honest operation fails", format!("{}: public key of {}", k.name, hexall(&sk)));
                return;
            };
            if pk.len() != p.pk_len() || sk.len() != p.sk_len() {
                c.fail("an honest operation fails", format!("{}: key of a wrong size", k.name));
                return;
            }
            let n = rs::Noise::new(p, &pk, &sk);
            let mut all: Vec<(i64, [u8; 32])> = (0..300).map(|_| c.bytes32()).map(|m| (rs::weight(&n.secret(&m)), m)).collect();
            all.sort();
            let mut top: Vec<(i32, [u8; 32])> = all[240..].iter().map(|(_, m)| (n.of(&n.secret(m)), *m)).collect();
            top.sort();
            for (noise, m) in top.iter().rev().take(6) {
                entropy::with(|e| e.feed = m.to_vec());
                let r = (k.encaps)(&pk).and_then(|(s, ct)| Ok(((k.decaps)(&ct, &sk)?, s, ct)));
                entropy::with(|e| e.feed.clear());
                c.eval();
                c.count("honest decapsulations");
                c.count("heavy encapsulations");
                c.seen("largest noises", &noise.to_le_bytes());
                match r {
                    Ok((d, s, ct)) => {
                        c.nontrivial(&s);
                        c.check(d == s, "decapsulation disagrees with encapsulation", || {
                            format!("{} at noise {}: {} encapsulated, {} decapsulated; sk {} ct {}", k.name, noise, hex(&s), hex(&d), hexall(&sk), hexall(&ct))
                        });
                    }
                    Err(e) => c.fail("an honest operation fails", format!("{}: {}", k.name, e)),
                }
            }
            if c.idx == 0 {
                c.sample(|| format!("{}: largest noise {}", k.name, top.last().unwrap().0));
            }
        }));
        groups.push(group(format!("plain {}", k.name), if th { 40000 } else { 1200 }, move |c| {
            for round in 0..8 {
                match guard(|| (k.plain)(round % 2 == 1)) {
                    Ok(x) => {
                        c.eval();
                        c.count("honest plain decapsulations");
                        c.nontrivial(&x.ct[..64]);
                        c.check(x.ss == x.ss2, "plain decapsulation disagrees with encapsulation", || {
                            format!("{}: {} encapsulated, {} decapsulated; pk {} ct {}", k.name, hex(&x.ss), hex(&x.ss2), hexall(&x.pk), hexall(&x.ct))
                        });
                        c.check(x.ss != x.other, "an unrelated secret key obtains the plain shared secret", || format!("{} {}", k.name, hex(&x.ss)));
                    }
                    Err(e) => c.fail("an honest operation fails", format!("{}: plain variant {}", k.name, e)),
                }
            }
        }));
        groups.push(group(format!("long-lived {}", k.name), if th { 400 } else { 24 }, move |c| {
            // one key, many concurrent senders' ciphertexts opened in another order
            let sk = (k.keygen)();
            let pk = (k.pk_of)(&sk).unwrap_or_default();
            let mut all: Vec<(Vec<u8>, Vec<u8>)> = (0..40).filter_map(|_| (k.encaps)(&pk).ok()).collect();
            c.check(all.len() == 40, "an honest operation fails", || format!("{}: encapsulation fails", k.name));
            for i in (1..all.len()).rev() {
                let j = c.below(i + 1);
                all.swap(i, j)
            }
            for (s, ct) in &all {
                for _ in 0..2 {
                    c.eval();
                    c.count("honest decapsulations");
                    let d = (k.decaps)(ct, &sk);
                    c.check(d.as_ref() == Ok(s), "decapsulation disagrees with encapsulation", || format!("{} {:?}; sk {} ct {}", k.name, d, hexall(&sk), hexall(ct)));
                }
            }
            let mut d: Vec<_> = all.iter().map(|x| &x.0).collect();
            d.sort();
            d.dedup();
            c.check(d.len() == all.len(), "two encapsulations share a secret", || format!("{} {} of {}", k.name, d.len(), all.len()));
        }));
    }
    Plan {
        groups,
        rule: "one honest encapsulation and decapsulation, by its shared secret (plain variant: by its ciphertext)",
        need: vec![("honest decapsulations", 20000), ("honest plain decapsulations", 20000), ("decapsulations with an unrelated key", 4000), ("heavy encapsulations", 2000)],
        assumptions: vec!["a failure rate far below one in the number of tries is only excluded by the comparison with the reference (C18)"],
    }
}

fn hexall(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Byte strings that stress packing and reduction
fn pattern(c: &mut Case, n: usize) -> Vec<u8> {
    match c.below(8) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => vec![[0x55, 0xaa, 0x80, 0x01, 0x7f, 0xfe][c.below(6)]; n],
        3 => {
            let mut v = vec![0; n];
            let k = c.below(n * 8);
            v[k / 8] = 1 << (k % 8);
            v
        }
        4 => {
            let mut v = vec![0xff; n];
            let k = c.below(n * 8);
            v[k / 8] ^= 1 << (k % 8);
            v
        }
        5 => {
            let p = c.below(64) + 1;
            let w = c.vec(p);
            (0..n).map(|i| w[i % p]).collect()
        }
        6 => {
            // mostly extreme bytes
            (0..n).map(|_| if c.chance(1, 2) { 0xff } else { 0 }).collect()
        }
        _ => c.vec(n),
    }
}

pub fn c18(th: bool) -> Plan {
    let mut groups = vec![];
    let m = if th { 30 } else { 1 };
    for k in &KEMS {
        let p = k.p;
        groups.push(group(format!("keys {}", k.name), 60 * m, move |c| {
            let a = entropy::mark();
            let sk = (k.keygen)();
            let log = chunks(&entropy::since(a));
            c.eval();
            c.nontrivial(&sk);
            if !c.check(sk.len() == p.sk_len(), "secret key of the wrong size", || format!("{} {}", k.name, sk.len())) {
                return;
            }
            let z = &sk[sk.len() - 32..];
            let pk = &sk[p.sk_cpa_len()..p.sk_cpa_len() + p.pk_len()];
            let seed = &pk[p.k * 320..];
            let ok = log.iter().any(|n| rs::keypair(p, seed, n, z).1 == sk);
            c.check(ok, "key generation differs from the specification", || {
                format!("{}: no seed drawn explains secret key {}; drawn {:?}", k.name, hexall(&sk), log.iter().map(|x| hex(x)).collect::<Vec<_>>())
            });
            c.check(log.iter().any(|x| x == z), "the rejection secret is not fresh randomness", || format!("{} z {} drawn {:?}", k.name, hex(z), log.iter().map(|x| hex(x)).collect::<Vec<_>>()));
            c.check((k.pk_of)(&sk).as_deref() == Ok(pk), "public key differs from the specification", || k.name.to_string());
            c.count("key pairs compared");
            c.sample(|| format!("public key {}", hex(pk)));
        }));
        groups.push(group(format!("encapsulation {}", k.name), 150 * m, move |c| {
            let pk = if c.chance(1, 2) {
                let (a, b) = (c.bytes32(), c.bytes32());
                rs::keypair_cpa(p, &a, &b).0
            } else {
                pattern(c, p.pk_len())
            };
            let a = entropy::mark();
            let r = (k.encaps)(&pk);
            let log = chunks(&entropy::since(a));
            c.eval();
            c.nontrivial(&pk);
            match r {
                Ok((ss, ct)) => {
                    c.count("encapsulations compared");
                    let ok = log.iter().any(|m| rs::encaps(p, &pk, m) == (ss.clone().try_into().unwrap(), ct.clone()));
                    c.check(ok, "encapsulation differs from the specification", || {
                        format!("{}: pk {} secret {} ct {} drawn {:?}", k.name, hexall(&pk), hex(&ss), hexall(&ct), log.iter().map(|x| hex(x)).collect::<Vec<_>>())
                    });
                }
                Err(e) => c.fail("encapsulation fails", format!("{}: {} for pk {}", k.name, e, hexall(&pk))),
            }
            let a = entropy::mark();
            match (k.plain_enc)(&pk) {
                Ok((ss, ct)) => {
                    let log = chunks(&entropy::since(a));
                    c.eval();
                    c.count("plain encapsulations compared");
                    let ok = log.iter().any(|r| rs::enc_cpa(p, &pk, &ss, r) == ct);
                    c.check(ok && log.iter().any(|x| x[..] == ss[..]), "plain encapsulation differs from the specification", || {
                        format!("{}: pk {} secret {} ct {} drawn {:?}", k.name, hexall(&pk), hex(&ss), hexall(&ct), log.iter().map(|x| hex(x)).collect::<Vec<_>>())
                    });
                }
                Err(e) => c.fail("encapsulation fails", format!("{}: plain, {} for pk {}", k.name, e, hexall(&pk))),
            }
        }));
        groups.push(group(format!("decapsulation {}", k.name), 150 * m, move |c| {
            let (a, b, z) = (c.bytes32(), c.bytes32(), c.bytes32());
            let (pk, sk) = rs::keypair(p, &a, &b, &z);
            let msg = c.bytes32();
            let (honest, ct) = rs::encaps(p, &pk, &msg);
            for j in 0..8 {
                let mut x = ct.clone();
                let how = match j {
                    0 => "honest",
                    1 => {
                        let n = c.below(x.len() * 8);
                        x[n / 8] ^= 1 << (n % 8);
                        "one bit"
                    }
                    2 => {
                        // the last bits: reconciliation data
                        let n = c.below((p.recon + 1) * 256) + p.k * 2560;
                        x[n / 8] ^= 1 << (n % 8);
                        "one reconciliation bit"
                    }
                    3 => {
                        let n = c.below(x.len());
                        x[n] = c.u64() as u8;
                        "one byte"
                    }
                    4 => {
                        x = pattern(c, x.len());
                        "pattern"
                    }
                    5 => {
                        // a valid ciphertext of the same message under another noise
                        let r = c.bytes32();
                        x = rs::enc_cpa(p, &pk, &msg, &r);
                        "same message, own noise"
                    }
                    6 => {
                        // correctly made for another key
                        let (a, b) = (c.bytes32(), c.bytes32());
                        let (pk2, _) = rs::keypair(p, &a, &b, &[0; 32]);
                        x = rs::encaps(p, &pk2, &msg).1;
                        "for another key"
                    }
                    _ => {
                        let n = c.below(x.len() - 1);
                        let (l, r) = x.split_at_mut(n);
                        l.last_mut().into_iter().chain(r.first_mut()).for_each(|b| *b = !*b);
                        "two bytes"
                    }
                };
                let (want, ok) = rs::decaps(p, &sk, &x);
                let got = (k.decaps)(&x, &sk);
                let again = (k.decaps)(&x, &sk);
                c.eval();
                c.count(if ok { "accepted ciphertexts compared" } else { "rejected ciphertexts compared" });
                c.nontrivial(&x);
                c.check(got == again, "decapsulation is not deterministic", || format!("{} {} ct {}", k.name, how, hexall(&x)));
                c.check(got.as_deref() == Ok(&want[..]), "decapsulation differs from the specification", || {
                    format!("{} {}: {:?}, specified {} (accepting: {}); sk {} ct {}", k.name, how, got.as_ref().map(|g| hex(g)), hex(&want), ok, hexall(&sk), hexall(&x))
                });
                if x != ct {
                    c.check(got.as_deref() != Ok(&honest[..]), "an altered ciphertext yields the honest secret", || format!("{} {} ct {}", k.name, how, hexall(&x)));
                }
            }
        }));
        groups.push(group(format!("all bits {}", k.name), if th { 8 } else { 1 }, move |c| {
            // every single bit of one ciphertext
            let (a, b, z) = (c.bytes32(), c.bytes32(), c.bytes32());
            let (pk, sk) = rs::keypair(p, &a, &b, &z);
            let msg = c.bytes32();
            let (honest, ct) = rs::encaps(p, &pk, &msg);
            let mut outs = std::collections::HashSet::new();
            for n in 0..ct.len() * 8 {
                let mut x = ct.clone();
                x[n / 8] ^= 1 << (n % 8);
                let got = (k.decaps)(&x, &sk).unwrap_or_default();
                c.eval();
                c.count("single bits of a ciphertext flipped");
                c.check(got != honest && got.len() == 32, "an altered ciphertext yields the honest secret", || format!("{} bit {} sk {} ct {}", k.name, n, hexall(&sk), hexall(&ct)));
                outs.insert(got.clone());
                if n % 16 == 0 {
                    let want = rs::decaps(p, &sk, &x).0;
                    c.check(got == want, "decapsulation differs from the specification", || format!("{} bit {} sk {} ct {}", k.name, n, hexall(&sk), hexall(&ct)));
                }
            }
            c.nontrivial(&ct);
            // the rejection value depends on the decrypted message and the secret only: flips of noise bits share it
            c.add("distinct rejection values", outs.len() as u64);
        }));
        groups.push(group(format!("odd keys {}", k.name), 60 * m, move |c| {
            // secret keys whose parts are patterns: the packing and the arithmetic must still follow the text
            let (a, b) = (c.bytes32(), c.bytes32());
            let (pk, s) = rs::keypair_cpa(p, &a, &b);
            let h = if c.chance(1, 2) { crate::refs::keccak::sha3_256(&pk).to_vec() } else { c.vec(32) };
            let z = pattern(c, 32);
            let pk = if c.chance(1, 3) { pattern(c, p.pk_len()) } else { pk };
            let sk = [&s[..], &pk, &h, &z].concat();
            let x = if c.chance(1, 2) {
                let m = c.bytes32();
                let kr = crate::refs::keccak::sha3_512(&[&h[..], &m].concat());
                rs::enc_cpa(p, &pk, &m, &kr[..32])
            } else {
                pattern(c, p.ct_len())
            };
            let (want, ok) = rs::decaps(p, &sk, &x);
            let got = (k.decaps)(&x, &sk);
            c.eval();
            c.count(if ok { "accepted ciphertexts compared" } else { "rejected ciphertexts compared" });
            c.nontrivial(&x);
            c.check(got.as_deref() == Ok(&want[..]), "decapsulation differs from the specification", || {
                format!("{}: {:?}, specified {} (accepting: {}); sk {} ct {}", k.name, got.as_ref().map(|g| hex(g)), hex(&want), ok, hexall(&sk), hexall(&x))
            });
        }));
    }
    Plan {
        groups,
        rule: "one key, encapsulation or decapsulation compared with the reference, by its input",
        need: vec![
            ("key pairs compared", 100),
            ("encapsulations compared", 300),
            ("plain encapsulations compared", 300),
            ("accepted ciphertexts compared", 300),
            ("rejected ciphertexts compared", 1500),
            ("single bits of a ciphertext flipped", 15000),
        ],
        assumptions: vec!["the reference follows the round-1 style reconciliation the repository ports; SHA-3 and SHAKE come from an own Keccak"],
    }
}
