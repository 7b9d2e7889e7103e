//! C20 and C21: the signature scheme against its contract, the reference and itself.
use crate::core::*;
use crate::entropy;
use crate::kem::*;
use crate::refs::dilithium as rd;
use crate::util::hex;

fn hexall(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn keys(c: &mut Case, d: &Dil) -> (Vec<u8>, Vec<u8>) {
    if c.chance(1, 2) {
        c.count("random key pairs");
        (d.keypair)()
    } else {
        c.count("deterministic key pairs");
        let mut s = c.bytes32();
        match c.below(8) {
            0 => s = [0; 32],
            1 => s = [0xff; 32],
            2 => {
                s = [0; 32];
                s[c.below(32)] = 1 << c.below(8)
            }
            _ => {}
        }
        (d.keypair_det)(&s)
    }
}

/// Message lengths: all small ones, all around the hash block boundaries, and large ones
fn length(c: &mut Case, i: usize) -> usize {
    if i < 300 {
        return i;
    }
    match c.below(5) {
        // tr (64 bytes) and the message share blocks of 136
        0 => 136 * (1 + c.below(12)) - 64 + c.below(5) - 2,
        1 => 1 << (8 + c.below(9)),
        2 => (1 << (8 + c.below(9))) - 1,
        3 => c.below(5000),
        _ => c.below(120_000),
    }
}
fn message(c: &mut Case, n: usize) -> Vec<u8> {
    match c.below(5) {
        0 => vec![0; n],
        1 => vec![0xff; n],
        _ => c.vec(n),
    }
}

/// Opens and verifies something that must be refused
fn refused(c: &mut Case, d: &Dil, kind: &'static str, sig: &[u8], msg: &[u8], pk: &[u8]) {
    c.eval();
    c.count("refusals demanded");
    c.count(kind);
    let h = [sig, &[0xA5][..], msg, &[0x5A][..], pk].concat();
    c.nontrivial(&h);
    let v = (d.verify)(sig, msg, pk);
    c.check(matches!(&v, Err(e) if !e.starts_with("panic")), "a changed signature, message or key is not refused", || {
        format!("{} {}: verify gives {:?}; msg {} sig {} pk {}", d.name, kind, v, hexall(msg), hexall(sig), hexall(pk))
    });
    let sm = [sig, msg].concat();
    let o = (d.open)(&sm, pk);
    c.check(matches!(&o, Err(e) if !e.starts_with("panic")), "opening returns a message for a changed signature, message or key", || {
        format!("{} {}: open gives {:?}; sm {} pk {}", d.name, kind, o.as_ref().map(|m| hex(m)), hexall(&sm), hexall(pk))
    });
}

/// A message of many megabytes: all of it is signed and comes back
fn huge(c: &mut Case, d: &Dil, n: usize, attached: bool, pk: &[u8], sk: &[u8]) {
    c.eval();
    c.count("huge messages");
    let part = c.vec(4099);
    let mut m = Vec::with_capacity(n + 1);
    while m.len() + part.len() <= n {
        m.extend_from_slice(&part);
    }
    m.extend_from_slice(&part[..n - m.len()]);
    let Ok(sig) = (d.detached)(&m, sk) else {
        c.fail("signing fails", format!("{}: {} bytes", d.name, n));
        return;
    };
    c.nontrivial(&sig);
    c.seen("message lengths", &n.to_le_bytes());
    let v = (d.verify)(&sig, &m, pk);
    c.check(v.is_ok(), "an honest signature is not accepted or not the same attached", || format!("{}: {} bytes: {:?}", d.name, n, v));
    let wrap = |x: usize| if n > x { n - x } else { 0 };
    for at in [0, n / 2, n - 1, wrap(1 << 20), wrap(1 << 24), wrap(1 << 29), wrap(1 << 32)] {
        if !attached && at % 3 != 0 {
            continue;
        }
        m[at] ^= 4;
        c.count("refusals demanded");
        let v = (d.verify)(&sig, &m, pk);
        c.check(matches!(&v, Err(e) if !e.starts_with("panic")), "a changed signature, message or key is not refused", || format!("{}: byte {} of {}: {:?}", d.name, at, n, v));
        m[at] ^= 4;
    }
    for l in [n - 1, n % (1 << 20), n % (1 << 24), n % (1 << 29), n % (1 << 32)] {
        if l != n {
            c.count("refusals demanded");
            let v = (d.verify)(&sig, &m[..l], pk);
            c.check(matches!(&v, Err(e) if !e.starts_with("panic")), "a changed signature, message or key is not refused", || format!("{}: first {} of {} bytes: {:?}", d.name, l, n, v));
        }
    }
    if attached {
        match (d.sign)(&m, sk) {
            Ok(sm) => {
                c.check(sm.len() == n + sig.len() && sm[..sig.len()] == sig[..] && sm[sig.len()..] == m[..], "an honest signature is not accepted or not the same attached", || format!("{}: {} bytes: attached differs", d.name, n));
                let o = (d.open)(&sm, pk);
                c.check(o.as_ref() == Ok(&m), "an honest signature is not accepted or not the same attached", || format!("{}: opening {} bytes gives {:?}", d.name, n, o.as_ref().map(|x| x.len())));
            }
            Err(e) => c.fail("signing fails", format!("{}: {} bytes: {}", d.name, n, e)),
        }
    }
}

pub fn c20(th: bool) -> Plan {
    let mut groups = vec![];
    for d in &DILS {
        groups.push(group(format!("honest {}", d.name), if th { 40000 } else { 1500 }, move |c| {
            let (pk, sk) = keys(c, d);
            let ls = [length(c, c.idx), length(c, 300 + c.idx), length(c, 300)];
            for n in ls {
                let m = message(c, n);
                c.eval();
                c.count("honest signatures");
                let r = (|| -> Result<(), String> {
                    let sk = if c.chance(1, 2) { (d.sk_round)(&sk).map_err(|e| e.to_string())? } else { sk.clone() };
                    let pk = if c.chance(1, 2) { (d.pk_round)(&pk).map_err(|e| e.to_string())? } else { pk.clone() };
                    let sm = (d.sign)(&m, &sk)?;
                    let det = (d.detached)(&m, &sk)?;
                    c.nontrivial(&det);
                    if det.len() != d.p.sig_len() {
                        return Err(format!("the signature has {} bytes", det.len()));
                    }
                    if sm != [&det[..], &m].concat() {
                        return Err("attached and detached signatures differ".into());
                    }
                    (d.verify)(&det, &m, &pk).map_err(|e| format!("verify: {}", e))?;
                    let o = (d.open)(&sm, &pk).map_err(|e| format!("open: {}", e))?;
                    if o != m {
                        return Err(format!("open returns {} bytes {}", o.len(), hex(&o)));
                    }
                    // through the encodings of the signatures too
                    let det = (d.sig_round)(&det).map_err(|e| e.to_string())?;
                    (d.verify)(&det, &m, &pk).map_err(|e| format!("verify after encoding: {}", e))?;
                    if (d.open)(&(d.sm_round)(&sm).map_err(|e| e.to_string())?, &pk)? != m {
                        return Err("open after encoding".into());
                    }
                    // the bytes of a message do not matter, only their content
                    let sh = c.below(16);
                    let moved = [vec![0x77; sh], m.clone(), vec![0x66; 9]].concat();
                    (d.verify)(&det, &moved[sh..sh + m.len()], &pk).map_err(|e| format!("verify at another address: {}", e))
                })();
                if let Err(e) = r {
                    c.fail("an honest signature is not accepted or not the same attached", format!("{}: {}; message of {} bytes {} pk {} sk {}", d.name, e, m.len(), hex(&m), hexall(&pk), hexall(&sk)));
                }
                c.seen("message lengths", &n.to_le_bytes());
            }
            if c.idx == 0 {
                c.sample(|| format!("{} pk {}", d.name, hex(&pk)));
            }
        }));
        groups.push(group(format!("huge {}", d.name), if th { 4 } else { 3 }, move |c| {
            let (pk, sk) = keys(c, d);
            let n = [(1 << 20) + 1, (1 << 22) + c.below(5000), (1 << 24) + 3, (1 << 29) + 77][c.idx % if th { 4 } else { 3 }];
            huge(c, d, n, true, &pk, &sk);
        }));
        // every bit of a signature and of a public key, spread over the cases
        let chunks = 64;
        groups.push(group(format!("bits {}", d.name), chunks * if th { 40 } else { 1 }, move |c| {
            let part = c.idx % chunks;
            let (pk, sk) = keys(c, d);
            let n = [0, 1, 31, 72, 300][c.below(5)];
            let m = message(c, n);
            let Ok(sig) = (d.detached)(&m, &sk) else {
                c.fail("signing fails", d.name);
                return;
            };
            for b in (0..sig.len() * 8).filter(|b| b % chunks == part) {
                let mut s = sig.clone();
                s[b / 8] ^= 1 << (b % 8);
                refused(c, d, "signature bits flipped", &s, &m, &pk);
            }
            for b in (0..pk.len() * 8).filter(|b| b % chunks == part) {
                let mut k = pk.clone();
                k[b / 8] ^= 1 << (b % 8);
                refused(c, d, "public key bits flipped", &sig, &m, &k);
            }
            for b in (0..m.len() * 8).filter(|b| b % 16 == part % 16) {
                let mut x = m.clone();
                x[b / 8] ^= 1 << (b % 8);
                refused(c, d, "message bits flipped", &sig, &x, &pk);
            }
            c.check((d.verify)(&sig, &m, &pk).is_ok(), "an honest signature is not accepted or not the same attached", || format!("{} after refusals", d.name));
        }));
        groups.push(group(format!("changes {}", d.name), if th { 12000 } else { 300 }, move |c| {
            let (pk, sk) = keys(c, d);
            let n = length(c, c.idx * 7 % 320);
            let m = message(c, n);
            let Ok(sig) = (d.detached)(&m, &sk) else {
                c.fail("signing fails", d.name);
                return;
            };
            // other messages: shorter, longer, shifted, of another content at block boundaries
            let mut others = vec![];
            if n > 0 {
                others.push(m[..n - 1].to_vec());
                others.push(m[1..].to_vec());
                others.push(m[..c.below(n)].to_vec());
                for _ in 0..4 {
                    let mut x = m.clone();
                    x[c.below(n)] ^= 1 << c.below(8);
                    others.push(x);
                }
                let mut x = m.clone();
                *x.last_mut().unwrap() ^= 0x80;
                others.push(x);
            }
            for pad in [vec![0u8], vec![0x1f], vec![0x80], vec![0; 136], c.vec(3)] {
                others.push([&m[..], &pad].concat());
                others.push([&pad[..], &m].concat());
            }
            others.push([&m[..], &m[..], &[1]].concat());
            for x in others {
                if x != m {
                    refused(c, d, "messages replaced", &sig, &x, &pk);
                }
            }
            // other lengths of the detached signature
            let l = sig.len();
            for _ in 0..4 {
                let k = if c.chance(1, 2) { c.below(l) } else { l - 1 - c.below(100) };
                c.eval();
                c.count("signature lengths changed");
                let v = (d.verify)(&sig[..k], &m, &pk);
                c.check(v.is_err(), "a shortened signature verifies", || format!("{} {} bytes: sig {} pk {} msg {}", d.name, k, hexall(&sig), hexall(&pk), hexall(&m)));
            }
            let longer = [&sig[..], &[0]].concat();
            let v = (d.verify)(&longer, &m, &pk);
            c.check(v.is_err(), "a lengthened signature verifies", || d.name.into());
            let mut lead = vec![0];
            lead.extend(&sig[..l - 1]);
            refused(c, d, "signatures shifted", &lead, &m, &pk);
            // signed messages cut anywhere, also inside the signature
            let sm = [&sig[..], &m].concat();
            for _ in 0..8 {
                let k = c.below(sm.len());
                c.eval();
                c.count("signed messages cut");
                for cut in [&sm[..k], &sm[sm.len() - k..]] {
                    let o = (d.open)(cut, &pk);
                    c.check(matches!(&o, Err(e) if !e.starts_with("panic")), "a cut signed message opens", || format!("{} {} of {}: {:?}; sm {} pk {}", d.name, k, sm.len(), o.as_ref().map(|x| hex(x)), hexall(&sm), hexall(&pk)));
                }
            }
            // other keys, other schemes, other halves
            let (pk2, sk2) = keys(c, d);
            if pk2 != pk {
                refused(c, d, "other keys", &sig, &m, &pk2);
                let Ok(sig2) = (d.detached)(&m, &sk2) else { return };
                refused(c, d, "other keys", &sig2, &m, &pk);
                for cut in [d.p.ctilde, d.p.ctilde + d.p.z_len(), 1 + c.below(l - 1)] {
                    let mix = [&sig[..cut], &sig2[cut..]].concat();
                    if mix != sig && mix != sig2 {
                        refused(c, d, "signatures spliced", &mix, &m, &pk);
                    }
                }
                // rho of one key with t1 of the other
                refused(c, d, "other keys", &sig, &m, &[&pk[..32], &pk2[32..]].concat());
                refused(c, d, "other keys", &sig, &m, &[&pk2[..32], &pk[32..]].concat());
            }
            for fill in [0u8, 0xff, 1] {
                refused(c, d, "constant signatures", &vec![fill; l], &m, &pk);
                let mut s = sig.clone();
                let (a, b) = [(0, d.p.ctilde), (d.p.ctilde, d.p.ctilde + d.p.z_len()), (d.p.ctilde + d.p.z_len(), l)][c.below(3)];
                s[a..b].fill(fill);
                if s != sig {
                    refused(c, d, "signature parts constant", &s, &m, &pk);
                }
                refused(c, d, "constant keys", &sig, &m, &vec![fill; pk.len()]);
            }
            let r = c.vec(l);
            refused(c, d, "random signatures", &r, &m, &pk);
            // another message's signature by the same key
            let m2 = [&m[..], b"x"].concat();
            if let Ok(s2) = (d.detached)(&m2, &sk) {
                refused(c, d, "other messages' signatures", &s2, &m, &pk);
            }
        }));
        groups.push(group(format!("long-lived {}", d.name), if th { 200 } else { 8 }, move |c| {
            // one key signs many messages, verified in another order and repeatedly
            let (pk, sk) = keys(c, d);
            let mut all = vec![];
            for _ in 0..60 {
                let n = c.below(400);
                let m = c.vec(n);
                match (d.sign)(&m, &sk) {
                    Ok(s) => all.push((m, s)),
                    Err(e) => c.fail("signing fails", format!("{} {}", d.name, e)),
                }
            }
            for i in (1..all.len()).rev() {
                let j = c.below(i + 1);
                all.swap(i, j)
            }
            for i in 0..all.len() {
                let (m, s) = &all[i];
                c.eval();
                c.count("honest signatures");
                let o = (d.open)(s, &pk);
                c.check(o.as_ref() == Ok(m), "an honest signature is not accepted or not the same attached", || format!("{} {:?}", d.name, o.as_ref().map(|x| hex(x))));
                let other = &all[(i + 1) % all.len()];
                if other.0 != *m {
                    refused(c, d, "other messages' signatures", &other.1[..d.p.sig_len()], m, &pk);
                }
            }
        }));
    }
    if th {
        // beyond 32 bits, where only the detached forms fit into memory comfortably
        groups.push(group("giant", 1, move |c| {
            for d in &DILS {
                let (pk, sk) = keys(c, d);
                huge(c, d, (1 << 32) + 5, false, &pk, &sk);
            }
        }));
    }
    Plan {
        groups,
        rule: "one honest signature, or one changed (signature, message, key) triple that must be refused",
        need: vec![("honest signatures", 8000), ("huge messages", 9), ("refusals demanded", 100_000), ("signature bits flipped", 50_000), ("public key bits flipped", 30_000)],
        assumptions: vec!["accepting a changed signature by chance is taken to be impossible (2^-128 per try)"],
    }
}

/// Output of a native call with canaries around every buffer
fn call_sig(n: &Native, m: &[u8], sk: &[u8], cap: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![0xC3; cap + 64];
    let mut len = usize::MAX;
    let r = unsafe { (n.signature)(out.as_mut_ptr(), &mut len, m.as_ptr(), m.len(), sk.as_ptr()) };
    if r != 0 || len != cap || out[cap..].iter().any(|b| *b != 0xC3) {
        return Err(format!("{} returned {} with length {}", n.name, r, len));
    }
    out.truncate(cap);
    Ok(out)
}
fn call_sign(n: &Native, m: &[u8], sk: &[u8], cap: usize) -> Result<Vec<u8>, String> {
    let mut out = vec![0xC3; cap + m.len() + 64];
    let mut len = usize::MAX;
    let r = unsafe { (n.sign)(out.as_mut_ptr(), &mut len, m.as_ptr(), m.len(), sk.as_ptr()) };
    if r != 0 || len != cap + m.len() || out[len..].iter().any(|b| *b != 0xC3) {
        return Err(format!("{} returned {} with length {}", n.name, r, len));
    }
    out.truncate(len);
    Ok(out)
}
fn call_verify(n: &Native, sig: &[u8], m: &[u8], pk: &[u8]) -> bool {
    unsafe { (n.verify)(sig.as_ptr(), sig.len(), m.as_ptr(), m.len(), pk.as_ptr()) == 0 }
}
/// `Some(message)` when it opens
fn call_open(n: &Native, sm: &[u8], pk: &[u8]) -> Result<Option<Vec<u8>>, String> {
    let mut out = vec![0xC3; sm.len() + 64];
    let mut len = 12345usize;
    let r = unsafe { (n.open)(out.as_mut_ptr(), &mut len, sm.as_ptr(), sm.len(), pk.as_ptr()) };
    if r == 0 {
        if len > sm.len() {
            return Err(format!("{} opens {} bytes to {}", n.name, sm.len(), len));
        }
        out.truncate(len);
        Ok(Some(out))
    } else {
        Ok(None)
    }
}

fn natives(d: &'static Dil) -> Vec<&'static Native> {
    if have_avx2() {
        vec![&d.clean, &d.avx2]
    } else {
        vec![&d.clean]
    }
}

/// All implementations and the reference on one (signature, message, key)
fn verdict(c: &mut Case, d: &'static Dil, kind: &'static str, sig: &[u8], m: &[u8], pk: &[u8]) -> bool {
    c.eval();
    c.count("verdicts compared");
    c.count(kind);
    c.nontrivial(&[sig, m, pk].concat());
    let want = rd::verify(d.p, pk, m, sig);
    let sm = [sig, m].concat();
    let mut got = vec![("bindings", (d.verify)(sig, m, pk).is_ok()), ("bindings' open", (d.open)(&sm, pk).is_ok())];
    for n in natives(d) {
        got.push((n.name, call_verify(n, sig, m, pk)));
        match call_open(n, &sm, pk) {
            Ok(o) => {
                got.push(("open", o.is_some()));
                if let Some(o) = o {
                    c.check(o == m, "open returns another message", || format!("{} {} {}", d.name, n.name, hex(&o)));
                }
            }
            Err(e) => c.fail("open returns an impossible length", e),
        }
    }
    c.seen("verdicts", format!("{} {:?}", kind, want).as_bytes());
    c.count(match want {
        Ok(()) => "reference accepts",
        Err("hint") => "reference refuses: hint",
        Err("norm of z") => "reference refuses: norm of z",
        Err("commitment") => "reference refuses: commitment",
        Err(_) => "reference refuses: length",
    });
    for (who, ok) in &got {
        c.check(*ok == want.is_ok(), "an implementation's verdict is not the specification's", || {
            format!("{} {} {}: accepts: {}, specification {:?}; msg {} sig {} pk {}", d.name, kind, who, ok, want, hexall(m), hexall(sig), hexall(pk))
        });
    }
    want.is_ok()
}

/// Every implementation signs like the reference
fn signs(c: &mut Case, d: &'static Dil, sk: &[u8], m: &[u8], s: &rd::Signed) {
    c.eval();
    c.count("signatures compared");
    c.add("rejection: norm of z", s.refused[0] as u64);
    c.add("rejection: norm of w0 - c s2", s.refused[1] as u64);
    c.add("rejection: norm of c t0", s.refused[2] as u64);
    c.add("rejection: too many hints", s.refused[3] as u64);
    c.nontrivial(&s.sig);
    let sm = [&s.sig[..], m].concat();
    let mut got = vec![("bindings detached", (d.detached)(m, sk), false), ("bindings attached", (d.sign)(m, sk), true)];
    for n in natives(d) {
        got.push((n.name, call_sig(n, m, sk, d.p.sig_len()), false));
        got.push((n.name, call_sign(n, m, sk, d.p.sig_len()), true));
    }
    for (who, r, attached) in got {
        let want = if attached { &sm } else { &s.sig };
        c.check(r.as_ref() == Ok(want), "a signature is not the specification's", || {
            format!("{} {} attached {}: {:?} instead of {}; {} attempts, refused {:?}; msg {} sk {}", d.name, who, attached, r.as_ref().map(|x| hex(x)), hex(want), s.attempts, s.refused, hexall(m), hexall(sk))
        });
    }
}

fn keygens(c: &mut Case, d: &'static Dil, coins: &[u8; 32]) -> (Vec<u8>, Vec<u8>) {
    c.eval();
    c.count("key pairs compared");
    let want = rd::keygen(d.p, coins);
    c.nontrivial(&want.0);
    let a = guard(|| (d.keypair_det)(coins));
    c.check(a.as_ref() == Ok(&want), "deterministic key generation is not the specification's", || format!("{} bindings, coins {}: {:?}", d.name, hexall(coins), a.as_ref().map(|(p, s)| (hex(p), hex(s)))));
    let (mut pk, mut sk) = (vec![0xC3; d.p.pk_len() + 32], vec![0xC3; d.p.sk_len() + 32]);
    let r = unsafe { (d.det)(coins.as_ptr(), pk.as_mut_ptr(), sk.as_mut_ptr()) };
    let tail = pk.split_off(d.p.pk_len()).into_iter().chain(sk.split_off(d.p.sk_len())).all(|b| b == 0xC3);
    c.check(r == 0 && tail && (&pk, &sk) == (&want.0, &want.1), "deterministic key generation is not the specification's", || format!("{} native, coins {}: {} {} {}", d.name, hexall(coins), r, hex(&pk), hex(&sk)));
    want
}

/// Random secret polynomials at and near the bounds
fn extreme(c: &mut Case, n: usize, eta: i64) -> Vec<rd::Poly> {
    let kind = c.below(5);
    (0..n)
        .map(|_| {
            std::array::from_fn(|i| match kind {
                0 => eta,
                1 => -eta,
                2 => [eta, -eta][i % 2],
                3 => [eta, -eta][c.below(2)],
                _ => 0,
            })
        })
        .collect()
}

pub fn c21(th: bool) -> Plan {
    let mut groups = vec![];
    let x = move |q: usize, t: usize| if th { t } else { q };
    for d in &DILS {
        groups.push(group(format!("keys {}", d.name), x(400, 20000), move |c| {
            let mut coins = c.bytes32();
            match c.idx {
                0 => coins = [0; 32],
                1 => coins = [0xff; 32],
                _ => {}
            }
            let want = keygens(c, d, &coins);
            // a pure function of the coins
            let again = (d.keypair_det)(&coins);
            c.check(again == want, "deterministic key generation is not a function of its coins", || format!("{} {}", d.name, hexall(&coins)));
            // ordinary key generation from known random bytes
            for n in natives(d) {
                let m = entropy::mark();
                let (mut pk, mut sk) = (vec![0xC3; d.p.pk_len() + 32], vec![0xC3; d.p.sk_len() + 32]);
                let r = unsafe { (n.keypair)(pk.as_mut_ptr(), sk.as_mut_ptr()) };
                let drew = entropy::since(m);
                let tail = pk.split_off(d.p.pk_len()).into_iter().chain(sk.split_off(d.p.sk_len())).all(|b| b == 0xC3);
                c.eval();
                c.count("ordinary key pairs compared");
                if !c.check(r == 0 && tail && drew.len() == 32, "ordinary key generation fails or does not draw 32 bytes", || format!("{} {}: {} drew {}", d.name, n.name, r, drew.len())) {
                    continue;
                }
                let coins: [u8; 32] = drew.try_into().unwrap();
                let w = rd::keygen(d.p, &coins);
                c.check((&pk, &sk) == (&w.0, &w.1), "ordinary key generation is not the specification's", || format!("{} {} from {}", d.name, n.name, hexall(&coins)));
                c.check((d.keypair_det)(&coins) == w, "deterministic and ordinary key generation differ", || format!("{} {} from {}", d.name, n.name, hexall(&coins)));
            }
            let m = entropy::mark();
            let kp = (d.keypair)();
            let drew = entropy::since(m);
            if c.check(drew.len() == 32, "ordinary key generation fails or does not draw 32 bytes", || format!("{} bindings drew {}", d.name, drew.len())) {
                let w = rd::keygen(d.p, &drew.try_into().unwrap());
                c.check(kp == w, "ordinary key generation is not the specification's", || format!("{} bindings", d.name));
            }
            if c.idx == 0 {
                c.sample(|| format!("{} zero coins give pk {}", d.name, hex(&want.0)));
            }
        }));
        groups.push(group(format!("coins {}", d.name), x(12, 300), move |c| {
            // every coin bit matters, for both halves of the key pair
            let coins = if c.idx == 0 { [0; 32] } else { c.bytes32() };
            let base = (d.keypair_det)(&coins);
            for b in 0..256 {
                let mut x = coins;
                x[b / 8] ^= 1 << (b % 8);
                let k = (d.keypair_det)(&x);
                c.eval();
                c.count("coin bits flipped");
                let parts = [k.0[..32] != base.0[..32], k.0[32..] != base.0[32..], k.1[32..64] != base.1[32..64], k.1[64..] != base.1[64..]];
                c.check(parts.iter().all(|p| *p), "a coin bit does not change the keys", || format!("{} bit {} of {}: rho, t1, K, rest change: {:?}", d.name, b, hexall(&coins), parts));
                c.nontrivial(&k.0);
            }
            c.check((d.keypair_det)(&coins) == base, "deterministic key generation is not a function of its coins", || format!("{} {}", d.name, hexall(&coins)));
        }));
        groups.push(group(format!("sign {}", d.name), x(250, 12000), move |c| {
            let (pk, sk) = rd::keygen(d.p, &c.bytes32());
            for i in 0..2 {
                let n = if i == 0 { c.idx % 300 } else { length(c, 300).min(20000) };
                let m = message(c, n);
                let s = rd::sign(d.p, &sk, &m);
                signs(c, d, &sk, &m, &s);
                verdict(c, d, "honest", &s.sig, &m, &pk);
            }
        }));
        if d.p.eta == 4 {
            groups.push(group(format!("rare {}", d.name), x(16, 400), move |c| {
                // seeds whose sampling needs one block more than usual
                let mut best = (0, [0; 32]);
                for _ in 0..x(2500, 10000) {
                    let s = c.bytes32();
                    let n = rd::sampling_blocks(d.p, &s);
                    if n > best.0 {
                        best = (n, s)
                    }
                }
                if best.0 > 2 {
                    c.count("seeds needing extra sampling blocks");
                    keygens(c, d, &best.1);
                    for n in natives(d) {
                        // ordinary key generation draws exactly this seed
                        let (mut pk, mut sk) = (vec![0; d.p.pk_len()], vec![0; d.p.sk_len()]);
                        entropy::with(|e| e.feed = best.1.to_vec());
                        let r = unsafe { (n.keypair)(pk.as_mut_ptr(), sk.as_mut_ptr()) };
                        let w = rd::keygen(d.p, &best.1);
                        c.check(r == 0 && (&pk, &sk) == (&w.0, &w.1), "ordinary key generation is not the specification's", || format!("{} {} from {}", d.name, n.name, hexall(&best.1)));
                    }
                }
            }));
        }
        groups.push(group(format!("extreme keys {}", d.name), x(40, 2000), move |c| {
            let (rho, key) = ([c.bytes32(), [0; 32]][c.below(2)], c.bytes32());
            let (s1, s2) = (extreme(c, d.p.l, d.p.eta), extreme(c, d.p.k, d.p.eta));
            let (pk, sk) = rd::keygen_from(d.p, &rho, &key, &s1, &s2);
            let n = c.below(200);
            let m = message(c, n);
            if let Some(s) = rd::sign_with(d.p, &sk, &m, rd::Break::Nothing, 400) {
                c.count("signatures with extreme keys");
                signs(c, d, &sk, &m, &s);
                verdict(c, d, "extreme keys", &s.sig, &m, &pk);
            }
            // t0 at its bounds makes the rarer rejection rules fire
            let amp = match c.below(8) {
                k @ 0..=4 => [4096i64, 4095, 3000, 2500, 2000][k],
                _ => 3100 + c.below(900) as i64,
            };
            let t0: Vec<rd::Poly> = (0..d.p.k).map(|_| std::array::from_fn(|_| if c.chance(1, 2) { amp } else { 1 - amp })).collect();
            let odd = rd::with_t0(d.p, &sk, &t0);
            let most = if c.chance(1, 3) { 2000 } else { 120 };
            if let Some(s) = rd::sign_with(d.p, &odd, &m, rd::Break::Nothing, most) {
                c.count("signatures with extreme keys");
                if s.attempts > 64 {
                    c.count("signatures after more than 64 attempts");
                }
                if s.attempts > 256 {
                    c.count("signatures after more than 256 attempts");
                }
                signs(c, d, &odd, &m, &s);
                verdict(c, d, "extreme t0", &s.sig, &m, &pk);
            }
            // t0 aligned with the challenge of the first attempt that gets that far
            let zero = rd::with_t0(d.p, &sk, &vec![[0; 256]; d.p.k]);
            let Some(first) = rd::sign_with(d.p, &zero, &m, rd::Break::Nothing, 400) else { return };
            let ch = rd::challenge(d.p, &first.ctilde);
            let mut t0 = vec![[0; 256]; d.p.k];
            let at = c.below(256);
            let i = c.below(d.p.k);
            for (j, x) in ch.iter().enumerate() {
                // coefficient `at` of ch * t0 takes t0[at - j] times ch[j], negated when it wraps
                let k = (256 + at - j) % 256;
                let sign = if j > at { -x } else { *x };
                t0[i][k] = match sign {
                    0 => [4096, -4095][c.below(2)],
                    1 => 4096,
                    _ => -4095,
                };
            }
            let odd = rd::with_t0(d.p, &sk, &t0);
            if let Some(s) = rd::sign_with(d.p, &odd, &m, rd::Break::Nothing, 120) {
                c.count("signatures with extreme keys");
                signs(c, d, &odd, &m, &s);
            }
        }));
        groups.push(group(format!("bounds {}", d.name), x(40, 1500), move |c| {
            // signatures that break exactly one of the verifier's rules, or just obey it
            let (pk, sk) = rd::keygen(d.p, &c.bytes32());
            let m = c.vec(33);
            for (b, kind) in [
                (rd::Break::Z, "oversized z"),
                (rd::Break::ZExact, "z exactly at its bound"),
                (rd::Break::ZBelow, "z just below its bound"),
                (rd::Break::W0, "oversized low part"),
            ] {
                if let Some(s) = rd::sign_with(d.p, &sk, &m, b, x(300, 1500)) {
                    let ok = verdict(c, d, kind, &s.sig, &m, &pk);
                    let _ = ok;
                }
            }
        }));
        groups.push(group(format!("hints {}", d.name), x(60, 3000), move |c| {
            let p = d.p;
            let (pk, sk) = rd::keygen(p, &c.bytes32());
            let n = c.below(100);
            let m = c.vec(n);
            let s = rd::sign(p, &sk, &m);
            let at = p.ctilde + p.z_len();
            let total: usize = s.hint.iter().map(|v| v.len()).sum();
            let full: Vec<usize> = (0..p.k).filter(|i| s.hint[*i].len() >= 2).collect();
            // the same set of hints encoded in ways that only the encoding rules forbid
            if !full.is_empty() {
                let i = full[c.below(full.len())];
                let k = c.below(s.hint[i].len() - 1);
                let mut h = s.hint.clone();
                h[i].swap(k, k + 1);
                let x = rd::pack_sig(p, &s.ctilde, &s.z, &h);
                verdict(c, d, "hints out of order", &x, &m, &pk);
                if total < p.omega {
                    let mut h = s.hint.clone();
                    let v = h[i][k];
                    h[i].insert(k, v);
                    let x = rd::pack_sig(p, &s.ctilde, &s.z, &h);
                    verdict(c, d, "hints repeated", &x, &m, &pk);
                }
                let mut h = s.hint.clone();
                h[i].reverse();
                let x = rd::pack_sig(p, &s.ctilde, &s.z, &h);
                verdict(c, d, "hints out of order", &x, &m, &pk);
            }
            if total < p.omega {
                for pos in [total, p.omega - 1, total + c.below(p.omega - total)] {
                    let mut x = s.sig.clone();
                    x[at + pos] = 1 + c.below(255) as u8;
                    verdict(c, d, "hint padding not zero", &x, &m, &pk);
                }
            }
            for _ in 0..4 {
                let mut x = s.sig.clone();
                let i = c.below(p.k);
                let v = x[at + p.omega + i];
                x[at + p.omega + i] = match c.below(6) {
                    0 => v.wrapping_add(1),
                    1 => v.wrapping_sub(1),
                    2 => p.omega as u8 + 1,
                    3 => 255,
                    4 => 0,
                    _ => c.below(256) as u8,
                };
                verdict(c, d, "hint counts changed", &x, &m, &pk);
            }
            // counts that go down and come back: empty polynomials before others
            for i in 1..p.k {
                if s.hint[i].is_empty() {
                    let mut x = s.sig.clone();
                    x[at + p.omega + i] = 0;
                    verdict(c, d, "hint counts decreasing", &x, &m, &pk);
                }
            }
            // all counts beyond omega, all hints equal, no hints, too many hints
            for fill in [p.omega as u8 + 1, 255, 128] {
                let mut x = s.sig.clone();
                x[at + p.omega..].fill(fill);
                verdict(c, d, "hint counts too large", &x, &m, &pk);
            }
            let mut x = s.sig.clone();
            x[at..].fill(0);
            verdict(c, d, "no hints", &x, &m, &pk);
            // a hint dropped, added or moved
            for _ in 0..3 {
                let mut h = s.hint.clone();
                let i = c.below(p.k);
                if c.chance(1, 2) && !h[i].is_empty() {
                    let k = c.below(h[i].len());
                    h[i].remove(k);
                } else if total < p.omega {
                    let v = c.below(256);
                    if let Err(k) = h[i].binary_search(&v) {
                        h[i].insert(k, v)
                    }
                }
                let x = rd::pack_sig(p, &s.ctilde, &s.z, &h);
                verdict(c, d, "hints changed", &x, &m, &pk);
            }
        }));
        groups.push(group(format!("open keys {}", d.name), x(400, 12000), move |c| {
            // keys anyone can sign for: whole families of signatures that only one rule forbids
            let p = d.p;
            let pk = rd::open_key(p, &c.bytes32());
            let n = c.below(80);
            let m = c.vec(n);
            let bound = p.g1 - p.beta;
            let mut z = vec![[0i64; 256]; p.l];
            let size = [1, 2, 1 << 10, bound, bound, bound][c.below(6)];
            if size > 1 {
                for v in z.iter_mut().flatten() {
                    *v = c.below(2 * size as usize - 1) as i64 - (size - 1)
                }
            }
            for _ in 0..c.below(3) {
                // a single coefficient around the bound, or as large as its encoding allows
                let (i, j) = (c.below(p.l), c.below(256));
                let b = [bound - 1, bound - 1, bound, bound + 1, bound + p.beta / 2, p.g1 - 1, p.g1][c.below(7)];
                z[i][j] = if c.chance(1, 2) || b == p.g1 { b } else { -b };
            }
            for _ in 0..4 {
                // a well-formed hint: up to omega places, spread or all in one polynomial
                let (o, k) = (p.omega, p.k);
                let total = [0, 1, 2, c.below(o + 1), o - 1, o, o][c.below(7)];
                let one = c.chance(1, 4);
                let which = c.below(k);
                let mut sets = vec![std::collections::BTreeSet::new(); k];
                while sets.iter().map(|s| s.len()).sum::<usize>() < total {
                    let i = if one { which } else { c.below(k) };
                    sets[i].insert([0, 255, 1, 254, c.below(256), c.below(256)][c.below(6)] as u8);
                    sets[i].insert(c.below(256) as u8);
                    if sets.iter().map(|s| s.len()).sum::<usize>() > total {
                        sets[i].pop_first();
                    }
                }
                let mut b: Vec<u8> = sets.iter().flatten().copied().collect();
                let mut counts = vec![];
                let mut sum = 0;
                for s in &sets {
                    sum += s.len();
                    counts.push(sum as u8);
                }
                b.resize(o, 0);
                b.extend(&counts);
                let (at, used) = (o, total);
                let mut keep = false;
                let kind = match c.below(12) {
                    0..=2 => "open key: well formed",
                    3 if used >= 2 => {
                        let j = c.below(used - 1);
                        b.swap(j, j + 1);
                        "open key: order"
                    }
                    4 if used >= 2 => {
                        let j = c.below(used - 1);
                        b[j + 1] = b[j];
                        "open key: repeated"
                    }
                    5 if used < o => {
                        let j = [used, o - 1, used + c.below(o - used)][c.below(3)];
                        b[j] = 1 + c.below(255) as u8;
                        "open key: padding"
                    }
                    6 | 7 => {
                        // a count goes back, the last one too
                        let i = if c.chance(1, 3) { k - 1 } else { 1 + c.below(k - 1) };
                        let prev = b[at + i - 1] as usize;
                        if prev > 0 {
                            b[at + i] = if c.chance(1, 2) { 0 } else { c.below(prev) as u8 };
                        }
                        keep = c.chance(1, 2);
                        if !keep && i == k - 1 {
                            // only the places before count then
                            let end = b[at + i] as usize;
                            if c.chance(1, 2) {
                                b[end..o].fill(0);
                            }
                        }
                        "open key: counts going back"
                    }
                    8 | 9 => {
                        // counts beyond omega from some polynomial on
                        let i = if c.chance(1, 2) { k - 1 } else { c.below(k) };
                        let over = [o + 1, o + k, o + k + 1, 255, o + 1 + c.below(k)][c.below(5)];
                        b[at + i..].fill(over as u8);
                        if c.chance(1, 2) {
                            // ascending in the last list, so that only the bound forbids it
                            let start = if i == 0 { 0 } else { b[at + i - 1] as usize };
                            for j in start..o {
                                b[j] = (j - start) as u8
                            }
                        }
                        "open key: counts beyond omega"
                    }
                    10 => {
                        // no more places than omega, yet all counts the last one's
                        b[at..].fill(o as u8);
                        for j in 0..o {
                            b[j] = (j * 3) as u8
                        }
                        "open key: all in the first"
                    }
                    _ => {
                        for x in b.iter_mut() {
                            if c.chance(1, 8) {
                                *x = c.below(256) as u8
                            }
                        }
                        "open key: any bytes"
                    }
                };
                let s = rd::forge(p, &pk, &m, &z, &b, keep);
                if verdict(c, d, kind, &s, &m, &pk) {
                    // such a signature is as bound to its message, key and challenge as any other
                    c.count("open key: accepted");
                    let mut t = s.clone();
                    let i = c.below(p.ctilde);
                    t[i] ^= 1 << c.below(8);
                    verdict(c, d, "open key: challenge changed", &t, &m, &pk);
                    let other = [&m[..], &[0]].concat();
                    verdict(c, d, "open key: message changed", &s, &other, &pk);
                }
            }
        }));
        groups.push(group(format!("random verdicts {}", d.name), x(200, 8000), move |c| {
            let (pk, sk) = rd::keygen(d.p, &c.bytes32());
            let n = length(c, 300).min(3000);
            let m = message(c, n);
            let s = rd::sign(d.p, &sk, &m).sig;
            for _ in 0..3 {
                let mut x = s.clone();
                for _ in 0..1 + c.below(3) {
                    let i = c.below(x.len());
                    x[i] = if c.chance(1, 2) { x[i] ^ 1 << c.below(8) } else { c.below(256) as u8 }
                }
                verdict(c, d, "random changes", &x, &m, &pk);
            }
            // one coefficient moved by a small amount, the rest intact
            let mut z = s.clone();
            let i = d.p.ctilde + c.below(d.p.z_len());
            z[i] = z[i].wrapping_add(1);
            verdict(c, d, "one coefficient moved", &z, &m, &pk);
            let mut k = pk.clone();
            let i = c.below(k.len());
            k[i] ^= 1 << c.below(8);
            verdict(c, d, "key changed", &s, &m, &k);
            // the challenge's tail, which does not seed the challenge polynomial
            let mut x = s.clone();
            let i = d.p.ctilde - 1 - c.below(4);
            x[i] ^= 1 << c.below(8);
            verdict(c, d, "end of the challenge changed", &x, &m, &pk);
            let l = c.below(d.p.sig_len());
            for n in natives(d) {
                c.check(!call_verify(n, &s[..l], &m, &pk), "a signature of a wrong length verifies", || format!("{} {} {}", d.name, n.name, l));
                let long = [&s[..], &m[..], &[0; 8]].concat();
                c.check(!call_verify(n, &long, &m, &pk), "a signature of a wrong length verifies", || format!("{} {}", d.name, n.name));
                for l in [0, 1, d.p.sig_len() - 1] {
                    c.check(call_open(n, &s[..l], &pk) == Ok(None), "a signed message shorter than a signature opens", || format!("{} {} {}", d.name, n.name, l));
                }
            }
        }));
    }
    Plan {
        groups,
        rule: "one key pair, signature or verdict computed by every implementation and by the reference",
        need: vec![
            ("key pairs compared", 1000),
            ("ordinary key pairs compared", 1000),
            ("coin bits flipped", 256 * 30),
            ("signatures compared", 1400),
            ("verdicts compared", 5000),
            ("open key: accepted", 500),
            ("open key: counts going back", 500),
            ("open key: counts beyond omega", 500),
            ("rejection: norm of z", 1000),
            ("rejection: norm of w0 - c s2", 200),
            ("rejection: norm of c t0", 15),
            ("rejection: too many hints", 20),
            ("signatures after more than 64 attempts", 3),
            ("oversized z", 100),
            ("z exactly at its bound", 20),
            ("z just below its bound", 20),
            ("hints repeated", 100),
            ("hint padding not zero", 100),
            ("seeds needing extra sampling blocks", 1),
            ("reference accepts", 1000),
        ],
        assumptions: vec!["the aarch64 code cannot run on this machine; the portable and AVX2 code can"],
    }
}
