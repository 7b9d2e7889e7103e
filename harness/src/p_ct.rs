//! C24: comparisons of secrets and decapsulation do not branch on, or address by, secret data.
//! Runs under valgrind's memcheck with the secret bytes marked undefined: every conditional jump and
//! every address that depends on them is reported, and counted here.
use crate::core::*;
use crate::kem::*;
use crate::party::*;
use crate::refs::ibke::{Dev, RefIbke};
use crate::util::*;
use crate::vg;

/// Decisions the outcome itself needs: accept or reject, in a few places. One per byte is too many.
const DECISIONS: usize = 8;

#[derive(Clone)]
struct Site {
    name: String,
    /// A session pair up to the message with the MAC. Gives the receiver, the message with the
    /// mask applied to its MAC, and where the MAC is
    mk: std::sync::Arc<dyn Fn(&Pair, &[u8; 32]) -> Option<(Box<dyn Party>, Vec<u8>, usize)> + Send + Sync>,
    kind: Proto,
}

/// Feeds a pair until message `slot` and returns it with its receiver
fn until(mut i: Box<dyn Party>, mut r: Box<dyn Party>, slot: usize) -> Option<(Box<dyn Party>, Vec<u8>)> {
    let mut cur = vec![];
    for k in 0..=slot {
        let p = if k % 2 == 0 { &mut i } else { &mut r };
        match p.step(&cur) {
            Out::Msg(m) => cur = m,
            Out::Nothing => cur = vec![],
            Out::Reject(_) => return None,
        }
    }
    Some((if slot % 2 == 0 { r } else { i }, cur))
}

/// MAC in the last 32 bytes of message `slot`
fn tail(p: &Proto, slot: usize, what: &str) -> Site {
    mac_at(p, slot, what, None)
}
fn mac_at(p: &Proto, slot: usize, what: &str, pos: Option<usize>) -> Site {
    let q = p.clone();
    Site {
        name: format!("{} message {} ({})", p.name, slot, what),
        kind: p.clone(),
        mk: std::sync::Arc::new(move |pr, mask| {
            let (x, mut m) = until((q.mk)(&pr.i), (q.mk)(&pr.r), slot)?;
            let at = pos.or(m.len().checked_sub(32))?;
            for (b, k) in m[at..].iter_mut().zip(mask) {
                *b ^= k
            }
            Some((x, m, at))
        }),
    }
}
/// MAC inside the encrypted proof of SIGMA-R: the sender is the reference, told to spoil it
fn inner(p: &Proto, slot: usize) -> Site {
    let q = p.clone();
    Site {
        name: format!("{} message {} (inner MAC)", p.name, slot),
        kind: p.clone(),
        mk: std::sync::Arc::new(move |pr, mask| {
            let dev = Dev::MacXor(*mask);
            let (i, r): (Box<dyn Party>, Box<dyn Party>) = if slot % 2 == 0 {
                (Box::new(RefIbke::new(q.ibke, &pr.i, dev)), (q.mk)(&pr.r))
            } else {
                ((q.mk)(&pr.i), Box::new(RefIbke::new(q.ibke, &pr.r, dev)))
            };
            let (x, m) = until(i, r, slot)?;
            Some((x, m, crate::refs::ibke::sig_len(q.ibke)))
        }),
    }
}

fn sites() -> Vec<Site> {
    let all = protos();
    let by = |n: &str| all.iter().find(|p| p.name == n).unwrap_or_else(|| panic!("no protocol {}", n)).clone();
    let mut v = vec![];
    for p in &all {
        match (&p.kind, p.pake, p.ibke) {
            (Kind::Ibke, _, "hmqv") => {
                // ephemeral key, MAC, certificate
                v.push(mac_at(p, 1, "confirmation", Some(32)));
                v.push(tail(p, 2, "confirmation"));
            }
            (Kind::Pake, "kcspake2", _) | (Kind::Ibke, _, "fg") => {
                v.push(tail(p, 1, "confirmation"));
                v.push(tail(p, 2, "confirmation"));
            }
            (Kind::Ibke, _, i) if i.starts_with("sigma") => {
                v.push(tail(p, 2, "encryption"));
                v.push(tail(p, 3, "encryption"));
                v.push(inner(p, 2));
                v.push(inner(p, 3));
            }
            _ => {}
        }
    }
    for (n, first) in [("latke-post/hmqv/cpace", 0), ("latke-pre/fg/kcspake2", 0), ("latke-post/sigdh/cpace", 0), ("latke-post/sigma-ed25519/kcspake2", 0), ("chip/kcspake2", 0)] {
        let p = by(n);
        let _ = first;
        if p.kind == Kind::Chip {
            v.push(tail(&p, 3, "confirmation"));
            v.push(tail(&p, 4, "confirmation"));
            continue;
        }
        // the encrypted messages are the last ones
        let enc = p.msgs.len() - crate::party::ibke_sizes(p.ibke).len();
        for s in enc..p.msgs.len() {
            v.push(tail(&p, s, "channel"));
        }
    }
    v
}

fn masks(c: &mut Case) -> Vec<(String, [u8; 32])> {
    let mut v = vec![("none".to_string(), [0; 32])];
    let one = |i: usize, b: u8| {
        let mut m = [0; 32];
        m[i] = b;
        m
    };
    for i in [0, 1, 7, 15, 16, 31, c.below(32), c.below(32)] {
        v.push((format!("byte {}", i), one(i, 1 << c.below(8))));
    }
    v.push(("all".into(), [0xff; 32]));
    v.push(("first half".into(), std::array::from_fn(|i| if i < 16 { 0x5a } else { 0 })));
    v.push(("second half".into(), std::array::from_fn(|i| if i < 16 { 0 } else { 1 })));
    v.push(("random".into(), c.bytes32()));
    v
}

fn site(c: &mut Case, s: &Site, release: bool) {
    let pr = pair(c, &s.kind);
    let mut seen: Vec<(bool, usize, String)> = vec![];
    for (name, mask) in masks(c) {
        let Some((mut p, m, at)) = (s.mk)(&pr, &mask) else {
            c.fail("a session does not reach its confirmation", format!("{}: {}", s.name, show_pair(&pr)));
            return;
        };
        vg::undefined(&m[at..at + 32]);
        let e = vg::errors();
        let out = p.step(&m);
        let n = vg::errors() - e;
        vg::defined(&m);
        let rejected = matches!(out, Out::Reject(_)) || (s.kind.kind != Kind::Pake && s.kind.kind != Kind::Ibke && name != "none");
        c.eval();
        c.count("tainted comparisons");
        c.add("tainted decisions", n as u64);
        c.seen("sites", s.name.as_bytes());
        c.nontrivial(format!("{} {}", s.name, name).as_bytes());
        c.seen("decision counts", format!("{} {}", rejected, n).as_bytes());
        if matches!(out, Out::Reject(_)) {
            c.count("rejections");
        }
        if release {
            c.check(n <= DECISIONS, "a comparison decides byte by byte", || format!("{} with mask {}: {} tainted jumps or addresses", s.name, name, n));
        }
        if let Some((_, k, other)) = seen.iter().find(|x| x.0 == rejected && x.1 != n) {
            c.fail("what is executed depends on where a received MAC is wrong", format!(
                "{}: {} tainted jumps or addresses with mask {}, {} with mask {}", s.name, n, name, k, other
            ));
            return;
        }
        seen.push((rejected, n, name));
        std::hint::black_box(&out);
    }
    c.sample(|| format!("{}: {:?}", s.name, seen));
}

fn decaps(c: &mut Case, k: &'static Kem) {
    let sk = (k.keygen)();
    let (p, l) = (k.p, sk.len());
    let pk = (k.pk_of)(&sk).unwrap();
    let other = (k.pk_of)(&(k.keygen)()).unwrap();
    let mut cts = vec![];
    let (ss, ct) = (k.encaps)(&pk).unwrap();
    cts.push(("honest", ct.clone()));
    let mut b = ct.clone();
    b[c.below(ct.len())] ^= 1 << c.below(8);
    cts.push(("one bit", b));
    let mut b = ct.clone();
    b[0] ^= 1;
    cts.push(("first bit", b));
    let mut b = ct.clone();
    b[ct.len() - 1] ^= 0x80;
    cts.push(("last bit", b));
    cts.push(("another key's", (k.encaps)(&other).unwrap().1));
    cts.push(("zero", vec![0; ct.len()]));
    cts.push(("ones", vec![0xff; ct.len()]));
    let r = c.vec(ct.len());
    cts.push(("random", r));
    for (name, ct) in cts {
        let want = (k.decaps)(&ct, &sk);
        let sk2 = sk.clone();
        // everything secret: the vector s in front and z at the end
        vg::undefined(&sk2[..p.sk_cpa_len()]);
        vg::undefined(&sk2[l - 32..]);
        let e = vg::errors();
        let got = (k.decaps)(&ct, &sk2);
        let n = vg::errors() - e;
        vg::defined(&sk2);
        c.eval();
        c.count("tainted decapsulations");
        c.nontrivial(&ct);
        if let Ok(g) = &got {
            // the secret arrived: the result must depend on it
            if vg::vbits(g).iter().any(|b| *b != 0) {
                c.count("tainted shared secrets");
            }
            vg::defined(g);
        }
        c.check(n == 0, "decapsulation branches on or addresses by the secret key", || format!("{} ({} ciphertext): {} tainted jumps or addresses; sk {} ct {}", k.name, name, n, hex(&sk), hex(&ct)));
        if want != got {
            c.fail("tainting changes a result", k.name);
        }
        if name == "honest" && got.as_ref().ok() != Some(&ss) {
            c.count("odd decapsulations");
        }
    }
    c.sample(|| format!("{}: no tainted jump or address in 8 decapsulations", k.name));
}

/// That the instrument works: code that does depend on secrets must be seen
#[inline(never)]
fn leaky_eq(a: &[u8], b: &[u8]) -> bool {
    for i in 0..a.len() {
        if unsafe { std::ptr::read_volatile(&a[i]) != std::ptr::read_volatile(&b[i]) } {
            return false;
        }
    }
    true
}
#[inline(never)]
fn table(t: &[u8; 256], i: &u8) -> u8 {
    unsafe { std::ptr::read_volatile(&t[std::ptr::read_volatile(i) as usize]) }
}
fn instrument(c: &mut Case) {
    let a = c.vec(32);
    let mut counts = vec![];
    for i in [0usize, 15, 31] {
        let mut b = a.clone();
        b[i] ^= 1;
        vg::undefined(&b);
        let e = vg::errors();
        let r = leaky_eq(&a, &b);
        counts.push(vg::errors() - e);
        std::hint::black_box(r);
        vg::defined(&b);
    }
    let i = vec![c.below(256) as u8];
    let t = [7u8; 256];
    vg::undefined(&i);
    let e = vg::errors();
    let _ = std::hint::black_box(table(&t, &i[0]));
    let n = vg::errors() - e;
    c.eval();
    if counts[0] < counts[1] && counts[1] < counts[2] && n >= 1 {
        c.count("leaks seen in the self-test");
    }
    c.nontrivial(b"self-test");
    c.sample(|| format!("an early-exit comparison gives {:?} tainted jumps, a table lookup {}", counts, n));
}

pub fn c24(th: bool, variant: &str) -> Plan {
    let release = variant != "taint-plain";
    let mut groups = vec![];
    groups.push(group("self-test", 1, instrument));
    let n = if th { 40 } else { 2 };
    for s in sites() {
        groups.push(group(s.name.clone(), n, move |c| {
            if vg::running() {
                site(c, &s, release)
            }
        }));
    }
    for k in &KEMS {
        groups.push(group(format!("decapsulate {}", k.name), if th { 200 } else { 6 }, move |c| {
            if vg::running() {
                decaps(c, k)
            }
        }));
    }
    Plan {
        groups,
        rule: "one comparison of a received MAC, or one decapsulation, with the secret bytes tainted",
        need: vec![("leaks seen in the self-test", 1), ("tainted comparisons", 300), ("rejections", 200), ("tainted decapsulations", 60), ("tainted shared secrets", 60), ("sites", 20)],
        assumptions: vec![
            "taint is followed by valgrind's memcheck along executed instructions; instructions with operand-dependent latency are not considered",
            "the decision to accept or reject is itself public",
        ],
    }
}
