//! C19: every byte encoding of the KEM and the signature scheme.
use crate::core::*;
use crate::entropy;
use crate::util::hex;

fn pattern(c: &mut Case, n: usize) -> Vec<u8> {
    match c.below(6) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        2 => {
            let mut v = vec![0; n];
            let k = c.below(n * 8);
            v[k / 8] = 1 << (k % 8);
            v
        }
        3 => (0..n).map(|i| i as u8).collect(),
        _ => c.vec(n),
    }
}

/// The lengths other than `n` that a decoder is offered: all small ones, all near ones, multiples and random ones
fn lengths(c: &mut Case, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..70).chain(n.saturating_sub(40)..n + 40).chain([n / 2, n * 2, n * 2 + 1, n + 64, n + 256, n + 4096, 65536]).collect();
    for _ in 0..40 {
        v.push(c.below(2 * n + 100))
    }
    v.retain(|x| *x != n);
    v.sort();
    v.dedup();
    v
}

/// What a decoder said: Ok(re-encoding), Err((name, actual, expected))
type Dec = Result<Result<Vec<u8>, (String, usize, usize)>, String>;

fn exact(c: &mut Case, what: &str, n: usize, dec: &dyn Fn(&[u8]) -> Dec) {
    for _ in 0..6 {
        let b = pattern(c, n);
        c.eval();
        c.count("encodings round-tripped");
        c.nontrivial(&b);
        let d = dec(&b);
        c.check(d.as_ref().ok().and_then(|d| d.as_ref().ok()) == Some(&b), "decoding and encoding does not give back the bytes", || {
            format!("{}: {} became {:?}", what, hexall(&b), d.as_ref().map(|d| d.as_ref().map(|x| hexall(x))))
        });
    }
}
fn refuses(c: &mut Case, what: &str, n: usize, dec: &dyn Fn(&[u8]) -> Dec) {
    for l in lengths(c, n) {
        let b = if c.chance(1, 8) { vec![0; l] } else { c.vec(l) };
        c.eval();
        c.count("wrong lengths offered");
        c.seen("wrong lengths", format!("{}{}", what, l).as_bytes());
        let ok = matches!(dec(&b), Ok(Err((name, a, e))) if a == l && e == n && !name.is_empty());
        let d = dec(&b);
        c.check(ok, "a wrong length is not refused with the right length error", || {
            format!("{}: length {} of {} gave {:?}", what, l, n, d.as_ref().map(|d| d.as_ref().map(|x| hex(x))))
        });
    }
}
fn hexall(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Runs with a given entropy stream
fn with_entropy<T>(seed: [u8; 32], f: impl FnOnce() -> T + Send) -> T
where
    T: Send,
{
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, move || {
                let _g = entropy::Guard::new(seed);
                f()
            })
            .unwrap()
            .join()
            .unwrap()
    })
}

fn sdec<T>(r: Result<Result<T, saber::Error>, String>, enc: impl Fn(T) -> Vec<u8>) -> Dec {
    match r {
        Ok(Ok(v)) => guard(|| enc(v)).map(Ok),
        Ok(Err(e)) => {
            // the display text must be printable too
            let _ = guard(|| e.to_string());
            match e {
                saber::Error::BadLength { name, actual, expected } => Ok(Err((name.to_string(), actual, expected))),
                e => Err(format!("{:?}", e)),
            }
        }
        Err(p) => Err(format!("panic: {}", p)),
    }
}
fn ddec<T>(r: Result<Result<T, pqcrypto_traits::Error>, String>, enc: impl Fn(T) -> Vec<u8>) -> Dec {
    match r {
        Ok(Ok(v)) => guard(|| enc(v)).map(Ok),
        Ok(Err(e)) => {
            let _ = guard(|| e.to_string());
            match e {
                pqcrypto_traits::Error::BadLength { name, actual, expected } => Ok(Err((name.to_string(), actual, expected))),
                e => Err(format!("{:?}", e)),
            }
        }
        Err(p) => Err(format!("panic: {}", p)),
    }
}

macro_rules! saber_groups {
    ($groups:expr, $m:ident, $p:expr, $reps:expr) => {{
        use saber::$m::*;
        let p = $p;
        let name = stringify!($m);
        $groups.push(group(format!("bytes {}", name), $reps, move |c| {
            macro_rules! ty {
                ($t:ident, $n:expr, $enc:expr) => {{
                    let what = format!("{}::{}", name, stringify!($t));
                    let n: usize = $n;
                    let d = |b: &[u8]| sdec(guard(|| $t::from_bytes(b)), $enc);
                    exact(c, &what, n, &d);
                    refuses(c, &what, n, &d);
                }};
            }
            ty!(PublicKey, p.pk_len(), |k: PublicKey| k.to_bytes().as_slice().to_vec());
            ty!(SecretKey, p.sk_len(), |k: SecretKey| k.to_bytes().as_slice().to_vec());
            ty!(Ciphertext, p.ct_len(), |k: Ciphertext| k.as_slice().to_vec());
            ty!(PublicKeyBytes, p.pk_len(), |k: PublicKeyBytes| k.into_bytes().to_vec());
            ty!(SecretKeyBytes, p.sk_len(), |k: SecretKeyBytes| k.into_bytes().to_vec());
            ty!(INDCPAPublicKeyBytes, p.pk_len(), |k: INDCPAPublicKeyBytes| k.as_bytes().to_vec());
            ty!(SharedSecret, 32, |k: SharedSecret| k.as_slice().to_vec());
            let what = format!("{}::INDCPAPublicKey", name);
            exact(c, &what, p.pk_len(), &|b| {
                guard(|| INDCPAPublicKey::from_bytes(b).to_bytes().as_slice().to_vec()).map(Ok)
            });
            // the byte containers convert in every direction
            let b = pattern(c, p.sk_len());
            let sb = SecretKeyBytes::from_bytes(&b).unwrap();
            let sk = SecretKey::from(&sb);
            let mut sb2 = sk.to_bytes();
            c.eval();
            c.check(sb2.as_bytes()[..] == b[..] && sb2.as_mut_slice() == &b[..] && sb2.clone().into_bytes()[..] == b[..], "converting through the byte container changes the key", || format!("{} SecretKeyBytes {}", name, hexall(&b)));
            let inner = SecretKeyBytes::from(*sb.as_bytes());
            c.check(inner.as_slice() == &b[..], "converting through the byte container changes the key", || format!("{} SecretKeyBytes from array", name));
            let pkb = PublicKeyBytes::from_bytes(&b[p.sk_cpa_len()..p.sk_cpa_len() + p.pk_len()]).unwrap();
            c.check(PublicKey::from(&pkb).to_bytes().as_slice() == pkb.as_slice(), "converting through the byte container changes the key", || format!("{} PublicKeyBytes", name));
            c.check(sk.public_key().to_bytes().as_slice() == pkb.as_slice(), "the public key inside a decoded secret key is not the encoded one", || format!("{} {}", name, hexall(&b)));
            let ib = INDCPAPublicKeyBytes::from_bytes(pkb.as_slice()).unwrap();
            let back: PublicKeyBytes = ib.clone().into();
            c.check(back.as_slice() == pkb.as_slice() && INDCPAPublicKey::from(&ib).to_bytes().as_slice() == pkb.as_slice(), "converting through the byte container changes the key", || format!("{} INDCPAPublicKeyBytes", name));
        }));
        $groups.push(group(format!("behaviour {}", name), $reps * 8, move |c| {
            // generated objects and their decoded copies behave alike
            let sk = keygen();
            let skb = sk.to_bytes().as_slice().to_vec();
            let sk2 = match SecretKey::from_bytes(&skb) {
                Ok(k) => k,
                Err(e) => {
                    c.fail("an encoded object is not decoded", format!("{} secret key: {:?}", name, e));
                    return;
                }
            };
            let pkb = sk.public_key().to_bytes().as_slice().to_vec();
            let pk2 = PublicKey::from_bytes(&pkb).unwrap();
            c.check(skb == sk2.to_bytes().as_slice(), "decoding and encoding does not give back the bytes", || format!("{} {}", name, hexall(&skb)));
            let seed = c.bytes32();
            let pk = sk.public_key();
            let a = with_entropy(seed, || { let (s, t) = encapsulate(pk); (s.as_slice().to_vec(), t.as_slice().to_vec()) });
            let b = with_entropy(seed, || { let (s, t) = encapsulate(&pk2); (s.as_slice().to_vec(), t.as_slice().to_vec()) });
            let d = with_entropy(seed, || { let (s, t) = encapsulate(sk2.public_key()); (s.as_slice().to_vec(), t.as_slice().to_vec()) });
            c.eval();
            c.count("decoded objects exercised");
            c.nontrivial(&skb);
            c.check(a == b && a == d, "a decoded public key behaves differently", || format!("{} pk {}", name, hexall(&pkb)));
            let ct = Ciphertext::from_bytes(&a.1).unwrap();
            c.check(ct.as_slice() == &a.1[..], "decoding and encoding does not give back the bytes", || format!("{} ciphertext", name));
            let s1 = decapsulate(&ct, &sk).as_slice().to_vec();
            let s2 = decapsulate(&ct, &sk2).as_slice().to_vec();
            c.check(s1 == a.0 && s2 == a.0, "a decoded secret key behaves differently", || format!("{} sk {} ct {}", name, hexall(&skb), hexall(&a.1)));
            let mut bad = a.1.clone();
            let k = c.below(bad.len() * 8);
            bad[k / 8] ^= 1 << (k % 8);
            let bad = Ciphertext::from_bytes(&bad).unwrap();
            let (r1, r2) = (decapsulate(&bad, &sk).as_slice().to_vec(), decapsulate(&bad, &sk2).as_slice().to_vec());
            c.check(r1 == r2, "a decoded secret key behaves differently", || format!("{} on a rejected ciphertext; sk {}", name, hexall(&skb)));
            let (ppk, psk) = keygen_ind_cpa();
            let ppk2 = INDCPAPublicKey::from_bytes(ppk.to_bytes().as_slice());
            let x = with_entropy(seed, || { let (s, t) = encapsulate_ind_cpa(&ppk); (s.as_slice().to_vec(), t.as_slice().to_vec()) });
            let y = with_entropy(seed, || { let (s, t) = encapsulate_ind_cpa(&ppk2); (s.as_slice().to_vec(), t.as_slice().to_vec()) });
            c.check(x == y, "a decoded public key behaves differently", || format!("{} plain", name));
            let t = Ciphertext::from_bytes(&x.1).unwrap();
            c.check(decapsulate_ind_cpa(&t, &psk).as_slice() == &x.0[..], "a decoded ciphertext behaves differently", || format!("{} plain", name));
            let ss = SharedSecret::from_bytes(&a.0).unwrap();
            c.check(ss.as_slice() == &a.0[..], "decoding and encoding does not give back the bytes", || format!("{} shared secret", name));
            c.sample(|| format!("{} secret key {}", name, hex(&skb)));
        }));
    }};
}

macro_rules! dil_groups {
    ($groups:expr, $m:ident, $p:expr, $reps:expr) => {{
        use pqcrypto_dilithium::$m::*;
        use pqcrypto_traits::sign::{DetachedSignature as _, PublicKey as _, SecretKey as _, SignedMessage as _};
        let p = $p;
        let name = stringify!($m);
        $groups.push(group(format!("bytes {}", name), $reps, move |c| {
            let pk = |b: &[u8]| ddec(guard(|| PublicKey::from_bytes(b)), |k: PublicKey| k.as_bytes().to_vec());
            let sk = |b: &[u8]| ddec(guard(|| SecretKey::from_bytes(b)), |k: SecretKey| k.as_bytes().to_vec());
            let sg = |b: &[u8]| ddec(guard(|| DetachedSignature::from_bytes(b)), |k: DetachedSignature| k.as_bytes().to_vec());
            let sm = |b: &[u8]| ddec(guard(|| SignedMessage::from_bytes(b)), |k: SignedMessage| k.as_bytes().to_vec());
            let w = |t: &str| format!("{}::{}", name, t);
            exact(c, &w("PublicKey"), p.pk_len(), &pk);
            refuses(c, &w("PublicKey"), p.pk_len(), &pk);
            exact(c, &w("SecretKey"), p.sk_len(), &sk);
            refuses(c, &w("SecretKey"), p.sk_len(), &sk);
            exact(c, &w("DetachedSignature"), p.sig_len(), &sg);
            // signatures: longer ones are refused, shorter ones kept as they are
            for l in lengths(c, p.sig_len()) {
                let b = c.vec(l);
                c.eval();
                c.count("wrong lengths offered");
                let d = sg(&b);
                let ok = if l > p.sig_len() {
                    matches!(&d, Ok(Err((_, a, e))) if *a == l && *e == p.sig_len())
                } else {
                    matches!(&d, Ok(Ok(x)) if *x == b)
                };
                c.check(ok, "a signature of another length is neither refused nor kept as it is", || format!("{} length {}: {:?}", name, l, d.map(|d| d.map(|x| x.len()))));
            }
            for l in [0, 1, p.sig_len() - 1, p.sig_len(), p.sig_len() + 1, p.sig_len() + 1000, c.below(20000)] {
                let b = c.vec(l);
                c.eval();
                let d = sm(&b);
                c.check(matches!(&d, Ok(Ok(x)) if *x == b), "decoding and encoding does not give back the bytes", || format!("{} signed message of length {}", name, l));
            }
            c.check(public_key_bytes() == p.pk_len() && secret_key_bytes() == p.sk_len() && signature_bytes() == p.sig_len(), "reported sizes are wrong", || {
                format!("{} {} {} {}", name, public_key_bytes(), secret_key_bytes(), signature_bytes())
            });
        }));
        $groups.push(group(format!("behaviour {}", name), $reps * 4, move |c| {
            let (pk, sk) = keypair();
            let (pk2, sk2) = match (PublicKey::from_bytes(pk.as_bytes()), SecretKey::from_bytes(sk.as_bytes())) {
                (Ok(a), Ok(b)) => (a, b),
                _ => {
                    c.fail("an encoded object is not decoded", format!("{} keys", name));
                    return;
                }
            };
            c.check(pk2.as_bytes() == pk.as_bytes() && sk2.as_bytes() == sk.as_bytes() && pk2 == pk && sk2 == sk, "decoding gives an unequal object", || format!("{} keys {}", name, hexall(pk.as_bytes())));
            let mut other = pk.as_bytes().to_vec();
            let k = c.below(other.len() * 8);
            other[k / 8] ^= 1 << (k % 8);
            c.check(PublicKey::from_bytes(&other).map(|o| o != pk).unwrap_or(false), "different keys compare equal", || format!("{} bit {}", name, k));
            let mut other = sk.as_bytes().to_vec();
            let k = c.below(other.len() * 8);
            other[k / 8] ^= 1 << (k % 8);
            c.check(SecretKey::from_bytes(&other).map(|o| o != sk).unwrap_or(false), "different keys compare equal", || format!("{} secret bit {}", name, k));
            let n = c.below(300);
            let m = c.vec(n);
            c.eval();
            c.count("decoded objects exercised");
            c.nontrivial(pk.as_bytes());
            let d = detached_sign(&m, &sk);
            let d2 = detached_sign(&m, &sk2);
            c.check(d.as_bytes() == d2.as_bytes(), "a decoded secret key behaves differently", || format!("{} {}", name, hexall(sk.as_bytes())));
            let s = sign(&m, &sk2);
            c.check(s.len() == s.as_bytes().len() && s.as_bytes() == sign(&m, &sk).as_bytes(), "a decoded secret key behaves differently", || format!("{} {}", name, hexall(sk.as_bytes())));
            let d3 = DetachedSignature::from_bytes(d.as_bytes()).unwrap();
            let s3 = SignedMessage::from_bytes(s.as_bytes()).unwrap();
            let v = |d: &DetachedSignature, pk: &PublicKey| verify_detached_signature(d, &m, pk).is_ok();
            c.check(v(&d, &pk) && v(&d3, &pk2) && v(&d3, &pk) && v(&d, &pk2), "a decoded signature or key behaves differently", || format!("{} pk {} sig {}", name, hexall(pk.as_bytes()), hexall(d.as_bytes())));
            c.check(open(&s3, &pk2).ok() == Some(m.clone()), "a decoded signed message behaves differently", || format!("{} pk {}", name, hexall(pk.as_bytes())));
            // shorter ones never verify
            for l in [0, 1, c.below(p.sig_len()), p.sig_len() - 1] {
                let t = DetachedSignature::from_bytes(&d.as_bytes()[..l.min(d.as_bytes().len())]);
                c.check(t.map(|t| !v(&t, &pk)).unwrap_or(true), "a shortened signature verifies", || format!("{} length {}", name, l));
                let t = SignedMessage::from_bytes(&s.as_bytes()[..l]).unwrap();
                c.check(open(&t, &pk).is_err(), "a shortened signed message opens", || format!("{} length {}", name, l));
            }
            // the serde encodings
            macro_rules! serde_trip {
                ($t:ty, $v:expr) => {{
                    c.count("serde round trips");
                    match serde_json::to_string($v).map_err(|e| e.to_string()).and_then(|j| serde_json::from_str::<$t>(&j).map_err(|e| e.to_string())) {
                        Ok(b) => {
                            c.check(b.as_bytes() == $v.as_bytes(), "the serde encoding does not give back the object", || format!("{} {}", name, stringify!($t)));
                        }
                        Err(e) => c.fail("the serde encoding does not give back the object", format!("{} {}: {}", name, stringify!($t), e)),
                    }
                }};
            }
            serde_trip!(PublicKey, &pk);
            serde_trip!(SecretKey, &sk);
            serde_trip!(DetachedSignature, &d);
            serde_trip!(DetachedSignature, &DetachedSignature::from_bytes(&d.as_bytes()[..7]).unwrap());
            serde_trip!(SignedMessage, &s);
        }));
    }};
}

pub fn c19(th: bool) -> Plan {
    let mut groups = vec![];
    let n = if th { 200 } else { 12 };
    saber_groups!(groups, lightsaber, &crate::refs::saber::LIGHT, n);
    {
        // the middle parameter set's module shares its name with the crate
        use saber::saber as middle;
        let _ = middle::keygen;
    }
    saber_groups!(groups, saber, &crate::refs::saber::SABER, n);
    saber_groups!(groups, firesaber, &crate::refs::saber::FIRE, n);
    dil_groups!(groups, dilithium2, &crate::refs::dilithium::D2, n);
    dil_groups!(groups, dilithium3, &crate::refs::dilithium::D3, n);
    dil_groups!(groups, dilithium5, &crate::refs::dilithium::D5, n);
    Plan {
        groups,
        rule: "one byte string or generated object encoded and decoded, by its bytes",
        need: vec![
            ("encodings round-tripped", 1000),
            ("wrong lengths offered", 30000),
            ("decoded objects exercised", 300),
            ("serde round trips", 300),
        ],
        assumptions: vec!["signed messages and short detached signatures are kept by their decoders as they are (stated in the property)"],
    }
}
