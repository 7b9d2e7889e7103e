//! C13 and C25: where the randomness of every value comes from, and what happens when it fails.
use crate::core::*;
use crate::entropy::{self, Fault, HRng};
use crate::kem::*;
use crate::mock::{self, Script};
use crate::party::*;
use crate::refs::stack::Ratchet;
use crate::refs::kdf;
use crate::util::*;
use latke::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::*};
use latke::{AsBytes, IdentityBasedKeyExchange};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::mpsc::{channel, Receiver, Sender};

/// Whose randomness a value must depend on
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Who {
    I,
    R,
    Both,
    UserI,
    UserR,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Src {
    RngI,
    RngR,
    OsI,
    OsR,
    UserI,
    UserR,
}
const SRCS: [Src; 6] = [Src::RngI, Src::RngR, Src::OsI, Src::OsR, Src::UserI, Src::UserR];
fn feeds(s: Src, w: Who) -> Option<usize> {
    // index of the requirement the source counts for. A key may depend on one side only (CAKE, SIGMA-R)
    match (s, w) {
        (Src::RngI | Src::OsI, Who::I | Who::Both) => Some(0),
        (Src::RngR | Src::OsR, Who::R | Who::Both) => Some(0),
        (Src::UserI, Who::UserI) | (Src::UserR, Who::UserR) => Some(0),
        _ => None,
    }
}

pub type Val = (String, Who, Vec<u8>);

#[derive(Clone)]
pub struct Os {
    pub seed: [u8; 32],
    pub flip: Option<usize>,
    pub fault: Fault,
    /// Step again, with a working source, after a step that was aborted
    pub retry: bool,
}

#[derive(Default)]
pub struct Side {
    pub sent: Vec<Vec<u8>>,
    pub fin: Option<Fin>,
    pub rej: Option<String>,
    pub rng_bits: usize,
    pub os_bits: usize,
    pub calls: usize,
    pub faults: usize,
    pub draws: Vec<[u8; 32]>,
}

#[derive(Clone)]
pub struct SessT {
    pub p: Proto,
    /// Key of the recorded PAKE, when there is one
    pub known: Option<[u8; 32]>,
    pub script: bool,
}

fn script(known: Option<[u8; 32]>, scripted: bool) -> Script {
    let mut s = Script::blank();
    s.pake_key = known.map(|k| [k; 2]);
    if scripted {
        s.inner = vec![vec![7; 40], vec![8; 50], vec![9; 60], vec![10; 70]];
    }
    s
}

fn side(t: &SessT, c: &Cfg, w: usize, os: Option<&Os>, rx: Receiver<Vec<u8>>, tx: Sender<Vec<u8>>) -> Side {
    let g = os.map(|o| {
        let g = entropy::Guard::new(o.seed);
        entropy::with(|ctl| {
            ctl.flip = o.flip;
            ctl.set_fault(o.fault.clone())
        });
        g
    });
    mock::set(script(t.known, t.script));
    let mut out = Side::default();
    let retry = os.map(|o| o.retry).unwrap_or(false);
    let heal = || entropy::with(|ctl| ctl.set_fault(Fault::None));
    let mk = t.p.mk;
    let mut p = match guard(|| mk(c)) {
        Ok(p) => Some(p),
        Err(e) => {
            out.rej = Some(e);
            if retry {
                heal();
                guard(|| mk(c)).ok()
            } else {
                None
            }
        }
    };
    if let Some(p) = p.as_mut() {
        let mut cur = vec![];
        let mut go = w == 0;
        for _ in 0..14 {
            if p.done() {
                break;
            }
            if !go {
                match rx.recv() {
                    Ok(m) => cur = m,
                    Err(_) => break,
                }
            }
            go = false;
            let mut o = p.step(&cur);
            if let Out::Reject(e) = &o {
                out.rej = Some(e.clone());
                if !retry {
                    break;
                }
                heal();
                o = p.step(&cur);
            }
            match o {
                Out::Msg(m) => {
                    out.sent.push(m.clone());
                    let _ = tx.send(m);
                }
                Out::Nothing => {
                    if !p.done() {
                        out.sent.push(vec![]);
                        let _ = tx.send(vec![]);
                    }
                }
                Out::Reject(e) => {
                    out.rej = Some(e);
                    break;
                }
            }
        }
        out.fin = accepted(&**p);
        out.rng_bits = p.rng().map(|r| r.log.len() * 8).unwrap_or(0);
    }
    out.draws = mock::with(|s| [s.pake_news.iter().map(|n| n.draw).collect::<Vec<_>>(), s.inner_draws.clone()].concat());
    if g.is_some() {
        entropy::with(|ctl| {
            out.os_bits = ctl.log.len() * 8;
            out.calls = ctl.calls;
            out.faults = ctl.faults;
        });
    }
    drop(p);
    out
}

fn big<'s, T: Send + 's>(s: &'s std::thread::Scope<'s, '_>, f: impl FnOnce() -> T + Send + 's) -> std::thread::ScopedJoinHandle<'s, T> {
    std::thread::Builder::new().stack_size(16 << 20).spawn_scoped(s, f).unwrap()
}

/// Runs the two parties on fresh threads of their own, so that each has its own source
pub fn session(t: &SessT, ci: &Cfg, cr: &Cfg, oi: Option<&Os>, or: Option<&Os>) -> [Side; 2] {
    let (ti, ri) = channel();
    let (tr, rr) = channel();
    std::thread::scope(|s| {
        let a = big(s, move || side(t, ci, 0, oi, rr, ti));
        let b = big(s, move || side(t, cr, 1, or, ri, tr));
        [a.join().unwrap(), b.join().unwrap()]
    })
}

fn cut(v: &mut Vec<Val>, name: String, w: Who, m: &[u8], from: usize, to: usize) {
    if m.len() >= to {
        v.push((name, w, m[from..to].to_vec()))
    }
}

/// The fields of a PAKE or identity exchange message that must be fresh
fn fields(v: &mut Vec<Val>, kind: &str, n: usize, m: &[u8]) {
    let me = if n % 2 == 0 { Who::I } else { Who::R };
    let user = if n % 2 == 0 { Who::UserI } else { Who::UserR };
    let mut f = |what: &str, w, a, b| cut(v, format!("{} message {} {}", kind, n + 1, what), w, m, a, b);
    match (kind, n) {
        ("cake", _) => f("ciphertext", me, 0, m.len()),
        ("cpace", 0) => {
            f("nonce", me, 0, 16);
            f("point", me, 16, 48)
        }
        ("cpace", 1) => f("point", me, 0, 32),
        ("kcspake2", 0 | 1) => f("share", me, 1, 33),
        ("fg", 0 | 1) => {
            f("X", user, 32, 64);
            f("R", me, 64, 96)
        }
        ("hmqv", 0) => {
            f("ephemeral", me, 0, 32);
            f("user key", user, 64, 96)
        }
        ("hmqv", 1) => {
            f("ephemeral", me, 0, 32);
            f("user key", user, 96, 128)
        }
        ("sigdh", _) => {
            f("ephemeral", me, 0, 32);
            f("user signature key", user, 128, 160);
            f("user DH key", user, 160, 192)
        }
        ("sigma-ed25519" | "sigma-dilithium2", 0) => {
            f("nonce", me, 0, 32);
            f("KEM key", me, 32, 672);
            f("KEM seed", me, 672, 704)
        }
        ("sigma-ed25519" | "sigma-dilithium2", 1) => {
            f("nonce", me, 0, 32);
            f("KEM ciphertext, secret part", me, 32, 672);
            f("KEM ciphertext", me, 32, 768)
        }
        ("sigma-ed25519" | "sigma-dilithium2", _) => {
            f("cipher nonce", me, m.len().saturating_sub(44), m.len().saturating_sub(32))
        }
        ("chip", 0 | 1) => {
            f("X", user, 0, 32);
            f("R", me, 32, 64)
        }
        _ => {}
    }
}

/// Runs many sessions one after another, each party in one thread throughout
fn sessions(t: &SessT, cs: &[(Cfg, Cfg)]) -> Vec<[Side; 2]> {
    let (mut a, mut b) = (vec![], vec![]);
    for _ in cs {
        let (ti, ri) = channel();
        let (tr, rr) = channel();
        a.push((ti, rr));
        b.push((tr, ri));
    }
    std::thread::scope(|s| {
        let x = big(s, move || cs.iter().zip(a).map(|(c, (t1, r1))| side(t, &c.0, 0, None, r1, t1)).collect::<Vec<_>>());
        let y = big(s, move || cs.iter().zip(b).map(|(c, (t1, r1))| side(t, &c.1, 1, None, r1, t1)).collect::<Vec<_>>());
        x.join().unwrap().into_iter().zip(y.join().unwrap()).map(|(x, y)| [x, y]).collect()
    })
}

pub fn values(t: &SessT, ssid: &[u8; 32], s: &[Side; 2]) -> Vec<Val> {
    let mut v = vec![];
    let n = s[0].sent.len() + s[1].sent.len();
    let msg = |k: usize| s[k % 2].sent.get(k / 2).cloned().unwrap_or_default();
    let pk = |p: &str| if t.known.is_some() { 2 } else { pake_sizes(p).len() };
    for k in 0..n {
        let m = msg(k);
        let me = if k % 2 == 0 { Who::I } else { Who::R };
        match t.p.kind {
            Kind::Pake => fields(&mut v, t.p.pake, k, &m),
            Kind::Ibke => fields(&mut v, t.p.ibke, k, &m),
            Kind::Chip => {
                if k < 2 {
                    fields(&mut v, "chip", k, &m)
                } else {
                    fields(&mut v, t.p.pake, k - 2, &m)
                }
            }
            _ => {
                let e = (pk(t.p.pake) + 1) / 2 * 2;
                if k < pk(t.p.pake) {
                    if t.known.is_none() {
                        fields(&mut v, t.p.pake, k, &m)
                    }
                } else if k >= e && m.len() >= OVERHEAD {
                    cut(&mut v, format!("encrypted message {} nonce", k - e + 1), me, &m, m.len() - 44, m.len() - 32);
                    if let Some(key) = &t.known {
                        if let Some(pt) = kdf::open(&Ratchet::at(key, ssid, k - e), &m) {
                            fields(&mut v, t.p.ibke, k - e, &pt)
                        }
                    }
                }
            }
        }
    }
    for w in 0..2 {
        for (j, d) in s[w].draws.iter().enumerate() {
            v.push((format!("randomness {} of the inner protocols, side {}", j, w), if w == 0 { Who::I } else { Who::R }, d.to_vec()))
        }
    }
    if let (Some(f), true) = (&s[0].fin, !t.script) {
        v.push(("session key".into(), Who::Both, f.key.to_vec()));
    }
    v
}

/// Operations of one side only
#[derive(Clone)]
pub struct FunT {
    pub name: String,
    pub f: std::sync::Arc<dyn Fn(&mut HRng) -> Vec<(String, Vec<u8>)> + Send + Sync>,
}

#[derive(Clone)]
pub enum Target {
    S(SessT),
    F(FunT),
}
impl Target {
    pub fn name(&self) -> String {
        match self {
            Target::S(s) => {
                format!("{}{}", s.p.name, if s.script { " over stand-ins" } else if s.known.is_some() { " opened" } else { "" })
            }
            Target::F(f) => f.name.clone(),
        }
    }
}

pub struct Obs {
    pub vals: Vec<Val>,
    pub bits: BTreeMap<Src, usize>,
    pub done: bool,
    pub rej: Vec<String>,
    pub calls: [usize; 2],
    pub faults: usize,
}

#[derive(Clone)]
pub struct World {
    pub pair: std::sync::Arc<Pair>,
    pub os: [Os; 2],
}

fn os(seed: [u8; 32]) -> Os {
    Os { seed, flip: None, fault: Fault::None, retry: false }
}

fn obs_of(st: &SessT, ssid: &[u8; 32], s: [Side; 2]) -> Obs {
    let vals = values(st, ssid, &s);
    let bits = [
        (Src::RngI, s[0].rng_bits),
        (Src::RngR, s[1].rng_bits),
        (Src::OsI, s[0].os_bits),
        (Src::OsR, s[1].os_bits),
        (Src::UserI, 512),
        (Src::UserR, 512),
    ];
    Obs {
        vals,
        bits: bits.into_iter().collect(),
        done: s[0].fin.is_some() && s[1].fin.is_some(),
        rej: s.iter().flat_map(|x| x.rej.clone()).collect(),
        calls: [s[0].calls, s[1].calls],
        faults: s[0].faults + s[1].faults,
    }
}

/// As `observe` with the real source, in the same threads one after another
fn observe_in_turn(t: &Target, ws: &[World]) -> Vec<Obs> {
    match t {
        Target::S(st) => {
            let cs: Vec<_> = ws.iter().map(|w| (w.pair.i.clone(), w.pair.r.clone())).collect();
            sessions(st, &cs).into_iter().zip(ws).map(|(s, w)| obs_of(st, &w.pair.i.ssid, s)).collect()
        }
        Target::F(f) => std::thread::scope(|s| {
            big(s, || {
                ws.iter()
                    .map(|w| {
                        let mut rng = w.pair.i.rng();
                        let res = guard(|| (f.f)(&mut rng));
                        Obs {
                            done: res.is_ok(),
                            rej: res.as_ref().err().cloned().into_iter().collect(),
                            vals: res.unwrap_or_default().into_iter().map(|(n, v)| (n, Who::I, v)).collect(),
                            bits: BTreeMap::new(),
                            calls: [0; 2],
                            faults: 0,
                        }
                    })
                    .collect()
            })
            .join()
            .unwrap()
        }),
    }
}

pub fn observe(t: &Target, w: &World, flip: Option<(Src, usize)>, real: bool) -> Obs {
    let (mut i, mut r) = (w.pair.i.clone(), w.pair.r.clone());
    let mut o = w.os.clone();
    if let Some((s, b)) = flip {
        match s {
            Src::RngI => i.flip = Some(b),
            Src::RngR => r.flip = Some(b),
            Src::OsI => o[0].flip = Some(b),
            Src::OsR => o[1].flip = Some(b),
            Src::UserI => i.user_flip = Some(b),
            Src::UserR => r.user_flip = Some(b),
        }
    }
    match t {
        Target::S(st) => {
            let s = session(st, &i, &r, (!real).then_some(&o[0]), (!real).then_some(&o[1]));
            obs_of(st, &i.ssid, s)
        }
        Target::F(f) => std::thread::scope(|s| {
            big(s, || {
                let _g = (!real).then(|| entropy::Guard::new(o[0].seed));
                if !real {
                    entropy::with(|c| {
                        c.flip = o[0].flip;
                        c.set_fault(o[0].fault.clone())
                    });
                }
                let mut rng = i.rng();
                let mut res = guard(|| (f.f)(&mut rng));
                let mut rej = vec![];
                if let Err(e) = &res {
                    rej.push(e.clone());
                    if o[0].retry && !real {
                        entropy::with(|c| c.set_fault(Fault::None));
                        res = guard(|| (f.f)(&mut rng));
                    }
                }
                let done = res.is_ok();
                let (os_bits, calls, faults) =
                    if real { (0, 0, 0) } else { entropy::with(|c| (c.log.len() * 8, c.calls, c.faults)) };
                Obs {
                    vals: res.unwrap_or_default().into_iter().map(|(n, v)| (n, Who::I, v)).collect(),
                    bits: [(Src::RngI, rng.log.len() * 8), (Src::OsI, os_bits)].into_iter().collect(),
                    done,
                    rej,
                    calls: [calls, 0],
                    faults,
                }
            })
            .join()
            .unwrap()
        }),
    }
}

fn upk<I: IdentityBasedKeyExchange>(n: &str, enc: fn(&I::UserPubkey, &I::MainPubkey) -> Vec<(String, Vec<u8>)>) -> Target
where
    I: 'static,
{
    Target::F(FunT {
        name: format!("{} key pairs", n),
        f: std::sync::Arc::new(move |rng| {
            let (u, _) = I::gen_user_keypair(&mut *rng);
            let (m, _) = I::gen_main_keypair(&mut *rng);
            enc(&u, &m)
        }),
    })
}
fn named(n: &str, b: &[u8]) -> (String, Vec<u8>) {
    (n.to_string(), b.to_vec())
}

pub fn fun_targets() -> Vec<Target> {
    let mut v = vec![];
    for k in &KEMS {
        let p = k.p;
        v.push(Target::F(FunT {
            name: format!("{} key generation", k.name),
            f: std::sync::Arc::new(move |_| {
                let sk = (k.keygen)();
                let c = p.sk_cpa_len();
                vec![
                    named("secret vector", &sk[..c]),
                    named("matrix seed", &sk[c + p.k * 320..c + p.pk_len()]),
                    named("public key", &sk[c..c + p.pk_len()]),
                    named("rejection secret", &sk[sk.len() - 32..]),
                ]
            }),
        }));
        // a fixed key pair of the reference, so that only the encapsulation draws
        let (pk, _) = crate::refs::saber::keypair(p, &[3; 32], &[4; 32], &[5; 32]);
        let pk2 = pk.clone();
        v.push(Target::F(FunT {
            name: format!("{} encapsulation", k.name),
            f: std::sync::Arc::new(move |_| {
                let (s, c) = (k.encaps)(&pk).unwrap();
                vec![named("shared secret", &s), named("ciphertext, secret part", &c[..p.k * 320]), named("ciphertext", &c)]
            }),
        }));
        v.push(Target::F(FunT {
            name: format!("{} plain encapsulation", k.name),
            f: std::sync::Arc::new(move |_| {
                let (s, c) = (k.plain_enc)(&pk2).unwrap();
                vec![named("shared secret", &s), named("ciphertext, secret part", &c[..p.k * 320]), named("ciphertext", &c)]
            }),
        }));
        v.push(Target::F(FunT {
            name: format!("{} plain key generation", k.name),
            f: std::sync::Arc::new(move |_| {
                let x = (k.plain)(false);
                vec![named("public vector", &x.pk[..p.k * 320]), named("matrix seed", &x.pk[p.k * 320..])]
            }),
        }));
    }
    v.push(upk::<FgIbkeC>("fg", |_, m| vec![named("authority key", m.as_bytes())]));
    v.push(upk::<IdHmqvC>("hmqv", |u, m| vec![named("user key", u.compress().as_bytes()), named("authority key", m.as_bytes())]));
    v.push(upk::<IdSigDh>("sigdh", |u, m| {
        vec![named("user signature key", u.0.as_bytes()), named("user DH key", u.1.as_bytes()), named("authority key", m.as_bytes())]
    }));
    v.push(upk::<IdSigmaREd25519>("sigma-ed25519", |u, m| vec![named("user key", u.as_bytes()), named("authority key", m.as_bytes())]));
    v.push(upk::<IdSigmaRDilithium2>("sigma-dilithium2", |u, m| vec![named("user key", u.as_bytes()), named("authority key", m.as_bytes())]));
    v
}

/// Dilithium's key generation draws in C: a failure there aborts the process, so it runs in a child
pub fn native_targets() -> Vec<Target> {
    DILS.iter()
        .map(|d| {
            Target::F(FunT {
                name: format!("{} key generation", d.name),
                f: std::sync::Arc::new(move |_| {
                    let (pk, sk) = (d.keypair)();
                    vec![
                        named("public key", &pk),
                        named("matrix seed", &sk[..32]),
                        named("signing seed", &sk[32..64]),
                        named("secret vectors", &sk[sk.len() - d.p.k * 416 - 96 * d.p.l..sk.len() - d.p.k * 416]),
                    ]
                }),
            })
        })
        .collect()
}

pub fn sess_targets(th: bool) -> Vec<Target> {
    let mut v = vec![];
    let s = |p: Proto| Target::S(SessT { p, known: None, script: false });
    for p in protos() {
        if p.kind == Kind::LatkePre && !th {
            continue;
        }
        if p.latke() && p.ibke == "sigma-dilithium2" && (!th || p.pake != "kcspake2") {
            continue;
        }
        v.push(s(p));
    }
    // LATKE and CHIP over a recorded PAKE with a known key, so that the inner messages can be opened
    let all = latkes();
    let mk: [(&str, fn(&Cfg) -> Box<dyn Party>); 5] = [
        ("fg", mock::latke_over::<FgIbkeC>),
        ("hmqv", mock::latke_over::<IdHmqvC>),
        ("sigdh", mock::latke_over::<IdSigDh>),
        ("sigma-ed25519", mock::latke_over::<IdSigmaREd25519>),
        ("sigma-dilithium2", mock::latke_over::<IdSigmaRDilithium2>),
    ];
    for (ibke, f) in mk {
        if ibke == "sigma-dilithium2" && !th {
            continue;
        }
        let mut p = all.iter().find(|p| p.ibke == ibke && p.kind == Kind::LatkePost).unwrap().clone();
        p.mk = f;
        p.name = format!("latke-post/{}", ibke);
        v.push(Target::S(SessT { p, known: Some([0x42; 32]), script: false }));
    }
    let mut p = all[1].clone();
    p.mk = mock::mock_latke;
    p.name = "latke-post".into();
    v.push(Target::S(SessT { p, known: Some([0x42; 32]), script: true }));
    let mut p = chips()[0].clone();
    p.mk = mock::chip_over;
    p.pake = "";
    p.name = "chip".into();
    v.push(Target::S(SessT { p, known: None, script: true }));
    v
}

/// A slot for the pair of configurations of non-session targets too
fn world(c: &mut Case, t: &Target) -> World {
    let p = match t {
        Target::S(s) => s.p.clone(),
        _ => pakes().remove(0),
    };
    let pair = std::sync::Arc::new(pair(c, &p));
    let (a, b) = (c.bytes32(), c.bytes32());
    World { pair, os: [os(a), os(b)] }
}

fn need(v: &[u8]) -> usize {
    (v.len() * 8).min(128)
}

/// Counts, for every value, the entropy bits it depends on, until `want` is reached for all of them
fn influence(
    c: &mut Case,
    t: &Target,
    w: &World,
    base: &Obs,
    want: &dyn Fn(usize, &[u8]) -> usize,
) -> Vec<[usize; 2]> {
    let n = base.vals.len();
    let mut have = vec![[0usize; 2]; n];
    let mut queue: Vec<(Src, Vec<usize>)> = vec![];
    for s in SRCS {
        let mut b: Vec<usize> = (0..*base.bits.get(&s).unwrap_or(&0)).collect();
        for i in (1..b.len()).rev() {
            let j = c.below(i + 1);
            b.swap(i, j)
        }
        queue.push((s, b));
    }
    let open = |have: &Vec<[usize; 2]>, s: Src| {
        (0..n).any(|k| {
            feeds(s, base.vals[k].1).map(|r| have[k][r] < want(k, &base.vals[k].2)).unwrap_or(false)
        })
    };
    loop {
        let mut any = false;
        for (s, b) in queue.iter_mut() {
            if !open(&have, *s) {
                continue;
            }
            let Some(bit) = b.pop() else { continue };
            any = true;
            let o = observe(t, w, Some((*s, bit)), false);
            c.eval();
            c.count("single entropy bits flipped");
            for k in 0..n {
                if let Some(r) = feeds(*s, base.vals[k].1) {
                    // a run that ends early does not show the value: no evidence either way, counted as influence
                    let same = o.vals.iter().find(|x| x.0 == base.vals[k].0).map(|x| x.2 == base.vals[k].2).unwrap_or(false);
                    if !same {
                        have[k][r] += 1
                    }
                }
            }
        }
        if !any {
            return have;
        }
    }
}

fn reqs(_: Who) -> usize {
    1
}

pub fn c13(th: bool) -> Plan {
    let mut groups = vec![];
    let mut targets = sess_targets(th);
    targets.extend(fun_targets());
    targets.extend(native_targets());
    for t in targets {
        let n = if th { 4 } else { 1 };
        let t2 = t.clone();
        groups.push(group(format!("bits {}", t.name()), n, move |c| {
            let w = world(c, &t2);
            let base = observe(&t2, &w, None, false);
            let again = observe(&t2, &w, None, false);
            c.add("evaluations", 2);
            if !base.done {
                c.fail("an honest run does not finish", format!("{} {:?} {}", t2.name(), base.rej, show_pair(&w.pair)));
                return;
            }
            c.check(base.vals == again.vals, "values depend on something other than inputs and supplied entropy", || {
                let d: Vec<_> = base.vals.iter().zip(&again.vals).filter(|(a, b)| a != b).map(|(a, _)| a.0.clone()).collect();
                format!("{}: {:?} differ between two runs with the same inputs and the same entropy; {}", t2.name(), d, show_pair(&w.pair))
            });
            let have = influence(c, &t2, &w, &base, &|_, v| need(v));
            for (k, v) in base.vals.iter().enumerate() {
                for r in 0..reqs(v.1) {
                    c.count("value requirements judged");
                    c.nontrivial(format!("{}|{}|{}|{}", t2.name(), v.0, r, c.idx).as_bytes());
                    c.check(have[k][r] >= need(&v.2), "a value depends on too little entropy", || {
                        format!(
                            "{}: {} ({} bytes) changes with only {} single bits of the {:?} entropy (side {}); {}",
                            t2.name(), v.0, v.2.len(), have[k][r], v.1, r, show_pair(&w.pair)
                        )
                    });
                }
            }
            c.sample(|| format!("{} values, entropy bits {:?}, influential (up to need) {:?}", base.vals.len(), base.bits, have));
        }));
        let t2 = t.clone();
        let sessions = match &t {
            Target::S(s) => (if th { 1500 } else { 200 }) / s.p.cost.max(1),
            _ => if th { 600 } else { 80 },
        }.max(16);
        groups.push(group(format!("parallel {}", t.name()), n, move |c| {
            // the real source of the operating system, all inputs identical, everything at once
            let w = world(c, &t2);
            let threads = 8;
            let user_same = c.idx % 2 == 1;
            let all: Vec<Obs> = std::thread::scope(|s| {
                let hs: Vec<_> = (0..threads)
                    .map(|k| {
                        let (w, t2) = (w.clone(), t2.clone());
                        s.spawn(move || {
                            let ws: Vec<World> = (0..sessions / threads)
                                .map(|_| {
                                    let mut seeds = [0u8; 32];
                                    rand::RngCore::fill_bytes(&mut rand::rngs::OsRng, &mut seeds);
                                    let f = |k: usize| u64::from_le_bytes(seeds[k * 8..][..8].try_into().unwrap());
                                    let mut p = Pair { i: w.pair.i.clone(), r: w.pair.r.clone() };
                                    p.i.rng_seed = f(0);
                                    p.r.rng_seed = f(1);
                                    if !user_same {
                                        p.i.user_seed = f(2);
                                        p.r.user_seed = f(3);
                                    }
                                    World { pair: std::sync::Arc::new(p), os: w.os.clone() }
                                })
                                .collect();
                            // half of them start a thread for every session, half keep theirs
                            if k % 2 == 0 {
                                ws.iter().map(|w| observe(&t2, w, None, true)).collect::<Vec<_>>()
                            } else {
                                observe_in_turn(&t2, &ws)
                            }
                        })
                    })
                    .collect();
                hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
            });
            let mut seen: HashMap<Vec<u8>, String> = HashMap::new();
            let mut dup = BTreeSet::new();
            for o in &all {
                c.eval();
                c.check(o.done, "an honest run does not finish", || format!("{} {:?} {}", t2.name(), o.rej, show_pair(&w.pair)));
                for (n, who, v) in &o.vals {
                    if user_same && matches!(who, Who::UserI | Who::UserR) {
                        continue;
                    }
                    c.count("fresh values compared");
                    if let Some(o) = seen.insert(v.clone(), n.clone()) {
                        // fields that contain one another by definition
                        if o != *n || true {
                            dup.insert((o, n.clone()));
                        }
                    }
                }
            }
            c.nontrivial(format!("p{}{}", t2.name(), c.idx).as_bytes());
            c.check(dup.is_empty(), "two sessions repeat a value", || {
                format!("{}: {} parallel runs with identical inputs repeat {:?}; {}", t2.name(), all.len(), dup, show_pair(&w.pair))
            });
        }));
    }
    Plan {
        groups,
        rule: "one (operation or stack, value, contributing side) whose dependence on single entropy bits was measured, or one set of parallel runs with identical inputs",
        need: vec![("single entropy bits flipped", 5000), ("value requirements judged", 150), ("fresh values compared", 10000)],
        assumptions: vec![
            "a value depends on an entropy bit when flipping only that bit changes it; range reductions that keep every bit influential are not seen",
            "single-bit influence is counted up to min(128, size of the value)",
        ],
    }
}

fn differ(c: &mut Case, t: &Target, what: &str, a: &Obs, b: &Obs) {
    for v in &a.vals {
        if let Some(u) = b.vals.iter().find(|u| u.0 == v.0) {
            c.check(u.2 != v.2, "the same value under different entropy after a failure", || {
                format!("{}: {} {} = {} twice", t.name(), what, v.0, hex(&v.2))
            });
        }
    }
}

const ERRNOS: [i32; 7] = [libc::EIO, libc::EPERM, libc::ENOSYS, libc::EINVAL, libc::EFAULT, libc::ENODEV, libc::EBADF];

fn same(a: &Obs, b: &Obs) -> bool {
    a.vals == b.vals && a.done == b.done
}

/// Values whose requirement is not user-side: those the operating system's source may feed
fn os_fed(v: &Val) -> bool {
    matches!(v.1, Who::I | Who::R | Who::Both)
}

pub fn c25(th: bool) -> Plan {
    let mut groups = vec![];
    let mut targets: Vec<Target> = sess_targets(th)
        .into_iter()
        .filter(|t| match t {
            // those that draw from the operating system
            Target::S(s) => {
                !s.script
                    && (["cake", "cpace"].contains(&s.p.pake) || ["sigdh", "sigma-ed25519", "sigma-dilithium2"].contains(&s.p.ibke))
                    && s.known.is_none()
            }
            _ => true,
        })
        .collect();
    targets.extend(fun_targets().into_iter().filter(|t| t.name().contains("saber")));
    for t in targets.iter().cloned().chain(native_targets()) {
        let n = if th { 60 } else { 6 };
        let native = t.name().starts_with("dilithium");
        let cost = if let Target::S(s) = &t { s.p.cost } else { 1 };
        let t2 = t.clone();
        groups.push(group(format!("interrupted {}", t.name()), n, move |c| {
            let w = world(c, &t2);
            let base = observe(&t2, &w, None, false);
            if !base.done {
                c.fail("an honest run does not finish", format!("{} {:?} {}", t2.name(), base.rej, show_pair(&w.pair)));
                return;
            }
            for k in 0..(24 / cost).max(6) {
                let f = match k {
                    0 => Fault::Short(1),
                    1 => Fault::Short(7),
                    2 => Fault::Short(31),
                    3 => Fault::Eintr(1),
                    4 => Fault::Eintr(2),
                    5 => Fault::Short(16),
                    _ => Fault::Flaky(c.u64()),
                };
                let mut w2 = w.clone();
                w2.os[0].fault = f.clone();
                w2.os[1].fault = f.clone();
                let o = observe(&t2, &w2, None, false);
                c.eval();
                c.add("interruptions and short reads injected", o.faults as u64);
                c.nontrivial(format!("{}{:?}{}", t2.name(), f, c.idx).as_bytes());
                c.check(same(&o, &base), "an interrupted or short read changes the result", || {
                    let d: Vec<_> = base
                        .vals
                        .iter()
                        .filter(|v| o.vals.iter().find(|u| u.0 == v.0).map(|u| u.2 != v.2).unwrap_or(true))
                        .map(|v| v.0.clone())
                        .collect();
                    format!("{} under {:?}: finished {} ({:?}), differing values {:?}; {}", t2.name(), f, o.done, o.rej, d, show_pair(&w.pair))
                });
            }
            c.sample(|| format!("{:?} calls for {:?} bits", base.calls, base.bits));
        }));
        let t2 = t.clone();
        groups.push(group(format!("failing {}", t.name()), n, move |c| {
            let w = world(c, &t2);
            let base = observe(&t2, &w, None, false);
            let calls = base.calls[0].max(base.calls[1]).max(1);
            let of_os = fed_by_os(c, &t2, &w, &base);
            for k in 0..calls + 1 {
                for kind in 0..3 {
                    if kind == 1 && !c.chance(1, 2) {
                        continue;
                    }
                    let e = ERRNOS[c.below(ERRNOS.len())];
                    let f = if kind == 0 { Fault::FailFrom(k, e) } else { Fault::FailOnce(k, e) };
                    let retry = kind == 2;
                    let mut wa = w.clone();
                    for j in 0..2 {
                        wa.os[j].fault = f.clone();
                        wa.os[j].retry = retry;
                    }
                    let mut wb = wa.clone();
                    wb.os = [Os { seed: c.bytes32(), ..wa.os[0].clone() }, Os { seed: c.bytes32(), ..wa.os[1].clone() }];
                    let run = |w: &World| if native { child(&t2, w, false) } else { Some(observe(&t2, w, None, false)) };
                    let (Some(a), Some(b)) = (run(&wa), run(&wb)) else {
                        c.count("aborts after a failure");
                        c.add("failures injected", 2);
                        c.eval();
                        c.nontrivial(format!("{}{:?}{}", t2.name(), f, retry).as_bytes());
                        continue;
                    };
                    c.add("evaluations", 2);
                    c.add("failures injected", (a.faults + b.faults) as u64);
                    c.nontrivial(format!("{}{:?}{}", t2.name(), f, retry).as_bytes());
                    if !a.rej.is_empty() {
                        c.count("aborts after a failure")
                    }
                    // whatever was sent or output although something failed must be as fresh as always
                    let fed = |o: &Obs| Obs {
                        vals: o.vals.iter().filter(|v| os_fed(v)).filter(|v| {
                            // values that the operating system's source does not feed do not count
                            of_os.contains(&v.0)
                        }).cloned().collect(),
                        bits: o.bits.clone(), done: o.done, rej: o.rej.clone(), calls: o.calls, faults: o.faults,
                    };
                    differ(c, &t2, &format!("under {:?} retry {}:", f, retry), &fed(&a), &fed(&b));
                    if a.faults > 0 && !native && c.chance(1, if retry { 3 } else { 2 }) {
                        partial(c, &t2, &w, &wa, &base, &fed(&a), &f);
                    }
                }
            }
            c.sample(|| format!("{} calls each failed once and for good", calls));
        }));
        let t2 = t.clone();
        groups.push(group(format!("cold {}", t.name()), if th { 4 } else { 1 }, move |c| {
            // the very first use of the source in a fresh process
            let w = world(c, &t2);
            let base = observe(&t2, &w, None, false);
            let of_os = fed_by_os(c, &t2, &w, &base);
            for (devices, f) in [
                (false, Fault::FailFrom(0, libc::ENOSYS)),
                (false, Fault::FailFrom(0, libc::EPERM)),
                (false, Fault::FailOnce(0, libc::EIO)),
                (false, Fault::FailOnce(1, libc::ENOSYS)),
                (true, Fault::FailFrom(0, libc::ENOSYS)),
                (true, Fault::FailFrom(0, libc::EPERM)),
            ] {
                let mut wa = w.clone();
                for j in 0..2 {
                    wa.os[j].fault = f.clone();
                }
                let mut wb = wa.clone();
                wb.os[0].seed = c.bytes32();
                wb.os[1].seed = c.bytes32();
                let (a, b) = (child(&t2, &wa, devices), child(&t2, &wb, devices));
                c.add("evaluations", 2);
                c.add("fresh processes run", 2);
                c.nontrivial(format!("{}{:?}{}", t2.name(), f, devices).as_bytes());
                match (a, b) {
                    (Some(a), Some(b)) => {
                        if a.done && devices {
                            c.count("finished from the fallback device")
                        }
                        let keep = |o: Obs| Obs { vals: o.vals.into_iter().filter(|v| os_fed(v) && of_os.contains(&v.0)).collect(), ..o };
                        differ(c, &t2, &format!("first use under {:?}:", f), &keep(a), &keep(b));
                    }
                    _ => c.count("aborts after a failure"),
                }
            }
        }));
    }
    groups.extend(crate::p_rb::groups(th));
    Plan {
        groups,
        rule: "one (operation or stack, fault of the operating system's random source, call at which it strikes)",
        need: vec![
            ("interruptions and short reads injected", 2000),
            ("failures injected", 500),
            ("values fed by the operating system", 100),
            ("aborts after a failure", 200),
            ("fresh processes run", 200),
            ("calls of the bundled C source", 5000),
            ("system calls that failed", 3),
        ],
        assumptions: vec![
            "the operating system's source is reached through getrandom or /dev/urandom",
            "an abort is a panic or the end of the process",
        ],
    }
}

/// The values that the operating system's source feeds when nothing fails: they change with it (the others come from the
/// caller's generator, whichever this tree draws from)
fn fed_by_os(c: &mut Case, t: &Target, w: &World, base: &Obs) -> BTreeSet<String> {
    let mut w2 = w.clone();
    w2.os = [Os { seed: c.bytes32(), ..w.os[0].clone() }, Os { seed: c.bytes32(), ..w.os[1].clone() }];
    let o = observe(t, &w2, None, false);
    let r: BTreeSet<String> = base.vals.iter().filter(|v| o.vals.iter().any(|u| u.0 == v.0 && u.2 != v.2)).map(|v| v.0.clone()).collect();
    c.add("values fed by the operating system", r.len() as u64);
    r
}

/// Values that appear although a call failed must depend on as many bits as without the failure
fn partial(c: &mut Case, t: &Target, w: &World, wa: &World, base: &Obs, got: &Obs, f: &Fault) {
    let probe: Vec<&Val> = got.vals.iter().collect();
    if probe.is_empty() || base.vals.is_empty() {
        return;
    }
    // a sample of bits of each source: influence with and without the failure
    let mut lost: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (j, s) in [(0, Src::OsI), (1, Src::OsR)] {
        let n = *got.bits.get(&s).unwrap_or(&0);
        let m = *base.bits.get(&s).unwrap_or(&0);
        let _ = j;
        for _ in 0..24 {
            let (a, b) = (c.below(n.max(1)), c.below(m.max(1)));
            if n > 0 {
                let o = observe(t, wa, Some((s, a)), false);
                c.eval();
                for v in &probe {
                    let e = lost.entry(v.0.clone()).or_default();
                    if o.vals.iter().find(|u| u.0 == v.0).map(|u| u.2 != v.2).unwrap_or(true) {
                        e.0 += 1
                    }
                }
            }
            if m > 0 {
                let o = observe(t, w, Some((s, b)), false);
                for v in &base.vals {
                    if let Some(e) = lost.get_mut(&v.0) {
                        if o.vals.iter().find(|u| u.0 == v.0).map(|u| u.2 != v.2).unwrap_or(true) {
                            e.1 += 1
                        }
                    }
                }
            }
        }
    }
    c.count("values after a failure measured against the faultless run");
    for (n, (a, b)) in lost {
        c.check(!(a == 0 && b >= 12), "a value lost its entropy after a failure", || {
            format!("{} under {:?}: {} changes with {} of the sampled entropy bits, {} without the failure; {}", t.name(), f, n, a, b, show_pair(&w.pair))
        });
    }
}

/// Runs a target in a fresh process. None: the process ended abnormally (an abort)
fn child(t: &Target, w: &World, devices: bool) -> Option<Obs> {
    let spec = |o: &Os| format!("{}/{}/{}", hexs(&o.seed), fault_text(&o.fault), o.retry as u8);
    let cfg = |c: &Cfg| {
        format!("{}/{}/{}/{}/{}/{}", hexs(&c.ssid), hexs(&c.secret), hexs(&c.id), c.peer.map(|p| hexs(&p)).unwrap_or_default(), c.user_seed, c.rng_seed)
    };
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    cmd.env("HARNESS_NO_CRASH_HANDLER", "1")
        .arg("--worker-entropy")
        .stdin(std::process::Stdio::piped())
        .stdout(std::process::Stdio::piped())
        .stderr(std::process::Stdio::null());
    let mut ch = cmd.spawn().expect("worker");
    let text = format!(
        "{}\n{}\n{}\n{}\n{}\n{}\n",
        t.name(), cfg(&w.pair.i), cfg(&w.pair.r), spec(&w.os[0]), spec(&w.os[1]), devices as u8
    );
    std::io::Write::write_all(&mut ch.stdin.take().unwrap(), text.as_bytes()).unwrap();
    let out = ch.wait_with_output().expect("worker");
    if !out.status.success() {
        return None;
    }
    let s = String::from_utf8_lossy(&out.stdout);
    let mut o = Obs { vals: vec![], bits: BTreeMap::new(), done: false, rej: vec![], calls: [0; 2], faults: 0 };
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("VAL ") {
            let (who, r) = r.split_once(' ').unwrap();
            let (v, n) = r.split_once(' ').unwrap();
            let who = match who {
                "I" => Who::I,
                "R" => Who::R,
                "Both" => Who::Both,
                _ => Who::UserI,
            };
            o.vals.push((n.to_string(), who, unhex(v)))
        } else if let Some(r) = l.strip_prefix("END ") {
            let mut it = r.split(' ');
            o.done = it.next() == Some("true");
            o.faults = it.next().and_then(|x| x.parse().ok()).unwrap_or(0);
            o.rej = vec![it.next().unwrap_or("").to_string()].into_iter().filter(|x| x != "ok").collect();
        }
    }
    Some(o)
}

fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn fault_text(f: &Fault) -> String {
    match f {
        Fault::None => "none".into(),
        Fault::FailOnce(k, e) => format!("once,{},{}", k, e),
        Fault::FailFrom(k, e) => format!("from,{},{}", k, e),
        Fault::Short(n) => format!("short,{}", n),
        Fault::Flaky(s) => format!("flaky,{}", s),
        Fault::Eintr(k) => format!("eintr,{}", k),
    }
}
fn parse_fault(s: &str) -> Fault {
    let v: Vec<&str> = s.split(',').collect();
    let n = |k: usize| v[k].parse::<u64>().unwrap();
    match v[0] {
        "once" => Fault::FailOnce(n(1) as usize, n(2) as i32),
        "from" => Fault::FailFrom(n(1) as usize, n(2) as i32),
        "short" => Fault::Short(n(1) as usize),
        "flaky" => Fault::Flaky(n(1)),
        "eintr" => Fault::Eintr(n(1) as usize),
        _ => Fault::None,
    }
}

pub fn worker() -> i32 {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let l: Vec<&str> = s.lines().collect();
    let a32 = |h: &str| -> [u8; 32] { unhex(h).try_into().unwrap() };
    let cfg = |t: &str, role| {
        let v: Vec<&str> = t.split('/').collect();
        Cfg {
            role,
            ssid: a32(v[0]),
            secret: unhex(v[1]),
            id: a32(v[2]),
            peer: (!v[3].is_empty()).then(|| a32(v[3])),
            user_seed: v[4].parse().unwrap(),
            rng_seed: v[5].parse().unwrap(),
            flip: None,
            user_flip: None,
        }
    };
    let os = |t: &str| {
        let v: Vec<&str> = t.split('/').collect();
        Os { seed: a32(v[0]), flip: None, fault: parse_fault(v[1]), retry: v[2] == "1" }
    };
    entropy::DEVICES.store(l[5] == "1", std::sync::atomic::Ordering::Relaxed);
    let w = World {
        pair: std::sync::Arc::new(Pair { i: cfg(l[1], role(0)), r: cfg(l[2], role(1)) }),
        os: [os(l[3]), os(l[4])],
    };
    let all = sess_targets(true).into_iter().chain(fun_targets()).chain(native_targets());
    let t = all.into_iter().find(|t| t.name() == l[0]).expect("target");
    install_panic_hook();
    let o = observe(&t, &w, None, false);
    let mut out = String::new();
    for (n, who, v) in &o.vals {
        out += &format!("VAL {:?} {} {}\n", who, hexs(v), n);
    }
    out += &format!("END {} {} {}\n", o.done, o.faults, if o.rej.is_empty() { "ok" } else { "aborted" });
    print!("{}", out);
    0
}
