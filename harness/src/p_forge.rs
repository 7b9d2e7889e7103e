//! C06, C07: peers that follow the protocols perfectly except for one thing, and thieves of
//! password files.
use crate::alloc;
use crate::core::*;
use crate::entropy::HRng;
use crate::party::*;
use crate::refs::{ibke::*, kdf, stack::*};
use crate::util::*;
use latke::chip::Chip;
use latke::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519}};
use latke::pake::{cake::Cake, cpace::Cpace, kc_spake2::KcSpake2};
use curve25519_dalek::RistrettoPoint;
use latke::{IdentityBasedKeyExchange, PartyRole};
use rand_core::SeedableRng;
use sha2::Digest;
use std::collections::HashSet;

/// Runs a real party in role `real` against another
fn session(real: usize, me: &mut dyn Party, other: &mut dyn Party) -> Trace {
    if real == 0 {
        faithful(me, other, 16)
    } else {
        faithful(other, me, 16)
    }
}

/// Before some of the attacks, on the same thread: an honest session of the party under test, and the
/// forger at work where it is welcome (`at`: another authority) or in another session
fn before(c: &mut Case, q: &Proto, real: usize, rc: &Cfg, oc: &Cfg, at: &[u8], evil: &mut dyn FnMut() -> Option<Box<dyn Party>>) {
    if !c.chance(1, 4) {
        return;
    }
    c.count("attacks after honest sessions");
    for k in [0, 1, 2] {
        if c.chance(1, 4) {
            continue;
        }
        let mut rc = rc.clone();
        match k {
            0 => {
                session(real, &mut *(q.mk)(&rc), &mut *(q.mk)(oc));
            }
            _ => {
                if k == 1 {
                    rc.secret = [&oc.secret[..], at].concat();
                } else {
                    rc.rng_seed ^= 1;
                }
                if let Ok(Some(mut e)) = guard(|| evil()) {
                    session(real, &mut *(q.mk)(&rc), &mut *e);
                }
            }
        }
    }
}

/// Close to `a`, and not `b`
fn other_than(c: &mut Case, a: &[u8; 32], b: &[u8; 32]) -> [u8; 32] {
    loop {
        let x = near32(c, a);
        if x != *b {
            return x;
        }
    }
}

/// What is wrong with the material that a session of the code under test starts with
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Inside {
    /// nothing: the control
    Keep,
    /// private key of nobody, with its own certificate
    OtherKey,
    /// the certificate of somebody else
    Stolen,
    /// the certificate of the party it talks to
    Mirror,
    /// certificate issued for its identity and another key
    CertOfOtherKey,
    /// certified by another authority, under its own, another's or the peer's identity
    OtherAuthority,
    OtherAuthorityThird,
    OtherAuthorityMirror,
    /// ... with the genuine private key of a genuine user besides
    OtherAuthorityKeyOfPeer,
}
const INSIDES: [Inside; 9] = [
    Inside::Keep,
    Inside::OtherKey,
    Inside::Stolen,
    Inside::Mirror,
    Inside::CertOfOtherKey,
    Inside::OtherAuthority,
    Inside::OtherAuthorityThird,
    Inside::OtherAuthorityMirror,
    Inside::OtherAuthorityKeyOfPeer,
];

/// The code under test as the forger: does whatever it does as an honest party, with material that
/// is not its own
fn insider<I: IdentityBasedKeyExchange>(how: Inside, rc: &Cfg, oc: &Cfg, third: [u8; 32], seed: u64) -> IbkeParty<I> {
    let mut r = HRng::new(seed);
    let (mpk, msk) = authority::<I>(&oc.secret);
    let mut name = oc.secret.clone();
    name.extend(b"*");
    let (_, other) = authority::<I>(&name);
    let mut user = |msk: &I::MainPrivkey, id: &[u8; 32]| {
        let (upk, usk) = I::gen_user_keypair(&mut r);
        (I::extract(&mut r, msk, id, &upk), upk, usk)
    };
    let (cert, upk, usk) = user(&msk, &oc.id);
    let (cert, usk) = match how {
        Inside::Keep => (cert, usk),
        Inside::OtherKey => (cert, user(&msk, &oc.id).2),
        Inside::Stolen => (user(&msk, &third).0, usk),
        Inside::Mirror | Inside::OtherAuthorityKeyOfPeer => {
            // as the party under test got its own
            let mut u = rc.user_rng();
            let (pk, sk) = I::gen_user_keypair(&mut u);
            if how == Inside::Mirror {
                (I::extract(&mut u, &msk, &rc.id, &pk), usk)
            } else {
                (I::extract(&mut u, &other, &oc.id, &pk), sk)
            }
        }
        Inside::CertOfOtherKey => (user(&msk, &oc.id).0, usk),
        Inside::OtherAuthority => (I::extract(HRng::new(seed ^ 1), &other, &oc.id, &upk), usk),
        Inside::OtherAuthorityThird => (I::extract(HRng::new(seed ^ 1), &other, &third, &upk), usk),
        Inside::OtherAuthorityMirror => (I::extract(HRng::new(seed ^ 1), &other, &rc.id, &upk), usk),
    };
    let mut rng = oc.rng();
    let s = I::new_session(&mut rng, oc.ssid, mpk, cert, usk, oc.role);
    IbkeParty::from_session(s, rng)
}
fn insider_of(kind: &str, how: Inside, rc: &Cfg, oc: &Cfg, third: [u8; 32], seed: u64) -> Box<dyn Party> {
    match kind {
        "fg" => Box::new(insider::<FgIbkeC>(how, rc, oc, third, seed)),
        "hmqv" => Box::new(insider::<IdHmqvC>(how, rc, oc, third, seed)),
        "sigdh" => Box::new(insider::<IdSigDh>(how, rc, oc, third, seed)),
        "sigma-ed25519" => Box::new(insider::<IdSigmaREd25519>(how, rc, oc, third, seed)),
        _ => Box::new(insider::<IdSigmaRDilithium2>(how, rc, oc, third, seed)),
    }
}

pub fn c06(th: bool) -> Plan {
    let mut groups = vec![];
    for p in ibkes() {
        for real in 0..2usize {
            for how in INSIDES {
                // the certificate of FG is its owner's whole private key
                if p.ibke == "fg" && matches!(how, Inside::OtherKey | Inside::Stolen | Inside::Mirror | Inside::CertOfOtherKey) {
                    continue;
                }
                let q = p.clone();
                let who = if real == 0 { "initiator" } else { "responder" };
                groups.push(group(format!("{} {} meets its own kind with {:?}", p.name, who, how), cases(&p, 60, th), move |c| {
                    let pr = pair(c, &q);
                    let (rc, oc) = if real == 0 { (&pr.i, &pr.r) } else { (&pr.r, &pr.i) };
                    let third = other_than(c, &oc.id, &rc.id);
                    before(c, &q, real, rc, oc, b"*", &mut || Some(insider_of(q.ibke, how, rc, oc, third, rc.rng_seed ^ 0x1125)));
                    let Ok(mut evil) = guard(|| insider_of(q.ibke, how, rc, oc, third, rc.rng_seed ^ 0x1125)) else {
                        return c.count("material refused");
                    };
                    let mut me = (q.mk)(rc);
                    let t = session(real, &mut *me, &mut *evil);
                    c.eval();
                    let acc = accepted(&*me);
                    c.seen("deviations", format!("{} {} {:?}", q.name, real, how).as_bytes());
                    if how == Inside::Keep {
                        if acc.map(|f| f.id == Some(oc.id)).unwrap_or(false) {
                            c.count("insider controls accepted");
                        }
                        return;
                    }
                    c.check(acc.is_none(), &format!("{} {} accepts a session of the same code with {:?}", q.name, who, how), || {
                        format!("third {} rejections {:?} {}", hex(&third), t.rej, show_pair(&pr))
                    });
                    if t.rej[real].is_some() {
                        c.count("deviating peers rejected");
                        c.nontrivial(&t.bytes());
                    } else {
                        c.count("insiders that stopped before");
                    }
                }));
            }
        }
    }
    for p in ibkes() {
        for real in 0..2usize {
            let mut ds = devs(p.ibke, real == 1);
            ds.push(Dev::Honest);
            for d in ds {
                let q = p.clone();
                let many = matches!(d, Dev::CertBodyBit | Dev::SigBodyBit | Dev::MacBit | Dev::CertFlipped);
                let n = cases(&p, if many { 700 } else { 160 }, th);
                let who = if real == 0 { "initiator" } else { "responder" };
                groups.push(group(format!("{} {} meets {:?}", p.name, who, d), n, move |c| {
                    let pr = pair(c, &q);
                    let (rc, oc) = if real == 0 { (&pr.i, &pr.r) } else { (&pr.r, &pr.i) };
                    before(c, &q, real, rc, oc, b"*", &mut || Some(Box::new(RefIbke::new(q.ibke, oc, d))));
                    let mut me = (q.mk)(rc);
                    let mut evil = RefIbke::new(q.ibke, oc, d);
                    let t = session(real, &mut *me, &mut evil);
                    c.eval();
                    c.add("messages", t.evs.len() as u64);
                    let acc = accepted(&*me);
                    c.seen("deviations", format!("{} {} {:?}", q.name, real, d).as_bytes());
                    let ctx = || format!("{} {} against a peer deviating by {:?}: {} rejections {:?}", q.name, who, d, show_pair(&pr), t.rej);
                    if d == Dev::Honest {
                        if acc.as_ref().map(|f| f.id == Some(oc.id)).unwrap_or(false) {
                            c.count("honest controls accepted");
                        }
                        if let Some(f) = acc {
                            c.check(f.id == Some(oc.id), &format!("{} reports an identity other than the certified one", q.name), ctx);
                        }
                        return;
                    }
                    c.check(acc.is_none(), &format!("{} {} accepts a peer with {:?}", q.name, who, d), ctx);
                    if t.rej[real].is_some() {
                        c.count("deviating peers rejected");
                        c.nontrivial(&t.bytes());
                    } else {
                        c.count("deviating sessions that stopped before");
                    }
                    c.sample(|| format!("{} {} vs {:?}: {:?}", q.name, who, d, t.rej[real]));
                }));
            }
        }
    }
    // forgers with certificates the authority under test really issued, to somebody or for something else
    for p in ibkes() {
        if p.ibke == "fg" {
            continue;
        }
        for real in 0..2usize {
            for how in RELABELS {
                let q = p.clone();
                let who = if real == 0 { "initiator" } else { "responder" };
                groups.push(group(format!("{} {} meets an issued certificate {:?}", p.name, who, how), cases(&p, 160, th), move |c| {
                    let pr = pair(c, &q);
                    let (rc, oc) = if real == 0 { (&pr.i, &pr.r) } else { (&pr.r, &pr.i) };
                    let by = Issuer::Name(&oc.secret);
                    let third = other_than(c, &oc.id, &rc.id);
                    let (s1, s2) = (c.u64(), c.u64());
                    let (Some(own), Some(victim), Some(target)) = (issued(q.ibke, &by, oc.id, s1), issued(q.ibke, &by, third, s2), issued(q.ibke, &by, rc.id, rc.user_seed)) else {
                        return c.count("certificates that could not be read");
                    };
                    let mut r = HRng::new(c.u64());
                    let user = relabel(q.ibke, how, &own, &victim, &target, &mut r);
                    let shown = user.id;
                    let mpk = Auth::named(q.ibke, &oc.secret).mpk();
                    let mut mk = || {
                        let mut evil = RefIbke::with(q.ibke, real == 1, oc.ssid, mpk.clone(), user.clone(), Dev::Honest, oc.rng());
                        evil.lenient = true;
                        evil
                    };
                    before(c, &q, real, rc, oc, b"*", &mut || Some(Box::new(mk())));
                    let mut evil = mk();
                    let mut me = (q.mk)(rc);
                    let t = session(real, &mut *me, &mut evil);
                    c.eval();
                    let acc = accepted(&*me);
                    c.seen("issued certificates", format!("{} {} {:?}", q.name, real, how).as_bytes());
                    if how == Relabel::Keep {
                        if acc.map(|f| f.id == Some(shown)).unwrap_or(false) {
                            c.count("issued controls accepted");
                        }
                        return;
                    }
                    c.check(acc.is_none(), &format!("{} {} accepts a certificate issued for something else ({:?})", q.name, who, how), || {
                        format!("shows {} own {} victim {} rejections {:?} {}", hex(&shown), hex(&own.id), hex(&victim.id), t.rej, show_pair(&pr))
                    });
                    if t.rej[real].is_some() {
                        c.count("deviating peers rejected");
                        c.nontrivial(&t.bytes());
                    }
                }));
            }
        }
    }
    // the same for FG, whose certificates are private
    for real in 0..2usize {
        for how in FG_TRICKS {
            let q = ibkes().remove(0);
            assert!(q.ibke == "fg");
            let who = if real == 0 { "initiator" } else { "responder" };
            groups.push(group(format!("fg {} meets an issued certificate {}", who, how), cases(&q, 160, th), move |c| {
                let pr = pair(c, &q);
                let (rc, oc) = if real == 0 { (&pr.i, &pr.r) } else { (&pr.r, &pr.i) };
                let by = Issuer::Name(&oc.secret);
                let third = other_than(c, &oc.id, &rc.id);
                let (s1, s2) = (c.u64(), c.u64());
                let (Some((own, _)), Some((_, h3)), Some((target, _))) =
                    (issued_fg(&by, oc.id, s1), issued_fg(&by, third, s2), issued_fg(&by, rc.id, rc.user_seed))
                else {
                    return c.count("certificates that could not be read");
                };
                let mut r = HRng::new(c.u64());
                let auth = Auth::named("fg", &oc.secret);
                let Auth::Fg(msk) = &auth else { return };
                let d = wide(&mut r);
                let mut user = own.clone();
                match how {
                    "as issued" => {}
                    "for another identity" => user.id = third,
                    "with a shifted key" => {
                        user.x += RistrettoPoint::mul_base(&d);
                        user.xhat += d;
                    }
                    "with a multiple of it" => {
                        user.x *= d;
                        user.xhat *= d;
                    }
                    "negated" => {
                        user.x = -user.x;
                        user.xhat = -user.xhat;
                    }
                    _ => {
                        // made up to fit the hash of another key of that identity
                        user.id = third;
                        user.xhat = d;
                        user.x = RistrettoPoint::mul_base(&d) - RistrettoPoint::mul_base(msk) * h3;
                    }
                }
                let shown = user.id;
                let mut mk = || {
                    let mut evil = RefIbke::with("fg", real == 1, oc.ssid, auth.mpk(), user.clone(), Dev::Honest, oc.rng());
                    evil.lenient = true;
                    evil.peer_static = Some(RistrettoPoint::mul_base(&target.xhat));
                    evil
                };
                before(c, &q, real, rc, oc, b"*", &mut || Some(Box::new(mk())));
                let mut evil = mk();
                let mut me = (q.mk)(rc);
                let t = session(real, &mut *me, &mut evil);
                c.eval();
                let acc = accepted(&*me);
                c.seen("issued certificates", format!("fg {} {:?}", real, how).as_bytes());
                if how == "as issued" {
                    if acc.map(|f| f.id == Some(shown)).unwrap_or(false) {
                        c.count("issued FG controls accepted");
                    }
                    return;
                }
                c.check(acc.is_none(), &format!("fg {} accepts an issued certificate {}", who, how), || {
                    format!("shows {} own {} rejections {:?} {}", hex(&shown), hex(&own.id), t.rej, show_pair(&pr))
                });
                if t.rej[real].is_some() {
                    c.count("deviating peers rejected");
                    c.nontrivial(&t.bytes());
                }
            }));
        }
    }
    // a genuine user whose identity is replaced wherever it shows
    for p in ibkes() {
        for real in 0..2usize {
            let q = p.clone();
            let who = if real == 0 { "initiator" } else { "responder" };
            groups.push(group(format!("{} {} meets a relabelled peer", p.name, who), cases(&p, 160, th), move |c| {
                let pr = pair(c, &q);
                let from = if real == 0 { pr.r.id } else { pr.i.id };
                let to = near32(c, &from);
                crate::sessions::earlier(c, &q, &pr);
                let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
                let mut changed = 0;
                let t = drive(&mut *i, &mut *r, 16, &mut |slot, m| {
                    // messages of the peer of the party under test
                    let mut m = m.to_vec();
                    if slot % 2 != real {
                        for k in 0..m.len().saturating_sub(31) {
                            if m[k..k + 32] == from {
                                m[k..k + 32].copy_from_slice(&to);
                                changed += 1;
                            }
                        }
                    }
                    m
                });
                c.eval();
                if changed == 0 {
                    return c.count("identity not visible");
                }
                let acc = accepted(if real == 0 { &*i } else { &*r });
                c.check(acc.is_none(), &format!("{} {} accepts a peer under an identity it was not certified for", q.name, who), || {
                    format!("certified {} shown {} {}", hex(&from), hex(&to), show_pair(&pr))
                });
                c.count("relabelled peers");
                c.nontrivial(&t.bytes());
            }));
        }
    }
    // users of two authorities that are otherwise the same
    for p in ibkes() {
        let q = p.clone();
        groups.push(group(format!("{} wrong authority", p.name), cases(&p, 300, th), move |c| {
            let pr = pair(c, &q);
            let mut other = pr.r.clone();
            other.secret.push(1);
            crate::sessions::earlier(c, &q, &Pair { i: pr.i.clone(), r: other.clone() });
            let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&other));
            let t = faithful(&mut *i, &mut *r, 16);
            c.eval();
            c.check(accepted(&*i).is_none() || accepted(&*r).is_none(), &format!("{} both accept across authorities", q.name), || show_pair(&pr));
            let (a, b) = (accepted(&*i), accepted(&*r));
            c.check(a.is_none() && b.is_none(), &format!("{} accepts a certificate of another authority", q.name), || format!("initiator {} responder {} {}", a.is_some(), b.is_some(), show_pair(&pr)));
            c.count("cross-authority sessions");
            c.nontrivial(&t.bytes());
        }));
    }
    Plan {
        groups,
        rule: "one session of a party under test with a reference peer that deviates in exactly one way (kind of deviation × exchange × role, with one-bit deviations at random positions); non-trivial: the party rejected",
        need: vec![("honest controls accepted", 20), ("issued controls accepted", 20), ("insider controls accepted", 20), ("issued certificates", 40), ("relabelled peers", 100), ("deviations", 120), ("deviating peers rejected", 1000), ("attacks after honest sessions", 300)],
        assumptions: vec![
            "the adversary does not break the discrete logarithm, the signatures or the hash functions",
            "the reference peers are those C15 finds to interoperate",
        ],
    }
}

const FG_TRICKS: [&str; 6] = ["as issued", "for another identity", "with a shifted key", "with a multiple of it", "negated", "made to fit"];

const LATKE_DEVS: [Dev; 12] = [
    Dev::Honest,
    Dev::CertSelf,
    Dev::CertOtherAuthority,
    Dev::CertOtherId,
    Dev::CertOtherKey,
    Dev::CertStolen,
    Dev::CertOnlyId,
    Dev::CertOnlyKey,
    Dev::CertSwapped,
    Dev::CertZero,
    Dev::CertFlipped,
    Dev::CertBodyBit,
];

/// All 8-byte-aligned 16-byte windows with enough content to be key material, at any byte offset
fn windows(b: &[u8]) -> HashSet<[u8; 16]> {
    b.windows(16)
        .filter(|w| {
            let mut x = w.to_vec();
            x.sort();
            x.dedup();
            x.len() >= 10
        })
        .map(|w| w.try_into().unwrap())
        .collect()
}

/// The file with everything public blanked out
fn without(f: &[u8], public: &HashSet<[u8; 16]>) -> Vec<u8> {
    let mut out = f.to_vec();
    // padding may hold addresses of code, stack and heap
    for (i, w) in f.windows(8).enumerate() {
        if w[6] == 0 && w[7] == 0 && matches!(w[5], 0x55..=0x57 | 0x7e | 0x7f) {
            out[i..i + 8].fill(0)
        }
    }
    for (i, w) in f.windows(16).enumerate() {
        if public.contains(w) {
            out[i..i + 16].fill(0)
        }
    }
    out
}

fn file_check<I: IdentityBasedKeyExchange>(c: &mut Case, kind: &'static str) {
    let mut pw = password(c);
    pw.truncate(3000);
    let (a, b) = two_ids(c);
    let seed = || kdf::h256(&[&pw]);
    let mpk_img = alloc::clean_image(&I::gen_main_keypair(rand_chacha::ChaCha12Rng::from_seed(seed())).0);
    let auth = Auth::of_password(kind, &pw);
    let mut rngs = vec![];
    let mut files = vec![];
    for id in [a, a, b] {
        let s = c.u64();
        let mut r = HRng::new(s);
        let f = latke::latke::Latke::<I, Cpace>::gen_pwfile(&mut r, &pw, &id);
        let img = alloc::clean_image(&f);
        rngs.push(r.log);
        files.push(img);
    }
    c.eval();
    let ctx = || format!("{} password {} ids {} {}", kind, hex(&pw), hex(&a), hex(&b));
    // public or shared by design: the authority's key and the identities
    let mut public = windows(&mpk_img);
    public.extend(windows(&auth.mpk()));
    public.extend(windows(&[&a[..], &b].concat()));
    for f in &mut files {
        // whole, however little there is in it
        for id in [&a, &b] {
            while let Some(n) = f.windows(32).position(|w| w == id) {
                if *id == [0; 32] {
                    break;
                }
                f[n..n + 32].fill(0);
            }
        }
    }
    let files: Vec<Vec<u8>> = files.iter().map(|f| without(f, &public)).collect();
    // nothing secret of the authority
    let mut secret: Vec<(&str, Vec<u8>)> = vec![("seed of the authority", seed().to_vec())];
    if pw.len() >= 16 {
        secret.push(("password", pw.clone()))
    }
    match &auth {
        Auth::Fg(s) => secret.push(("main private key", s.to_bytes().to_vec())),
        Auth::Ed(k) => {
            secret.push(("main private key", k.to_bytes().to_vec()));
            secret.push(("expanded main private key", sha2::Sha512::digest(k.to_bytes()).to_vec()));
            secret.push(("main private scalar", k.to_scalar_bytes().to_vec()));
        }
        Auth::Dil(_, s) => secret.push(("main private key", s.clone())),
    }
    for (i, f) in files.iter().enumerate() {
        let w = windows(f);
        c.add("file bytes", f.len() as u64);
        for (what, s) in &secret {
            let hit = windows(s).into_iter().find(|x| w.contains(x) && !public.contains(x));
            c.check(hit.is_none(), &format!("{}: password file contains the {}", kind, what), || format!("file {} window {} {}", i, hex(&hit.unwrap()), ctx()));
        }
    }
    for (i, j) in [(0, 1), (0, 2), (1, 2)] {
        let (x, y) = (windows(&files[i]), windows(&files[j]));
        let hit = x.iter().find(|v| y.contains(*v) && !public.contains(*v));
        c.check(hit.is_none(), &format!("{}: two password files share key material", kind), || {
            format!("files {} {} share {} {}", i, j, hex(hit.unwrap()), ctx())
        });
        c.count("file pairs compared");
    }
    // fresh user keys really drew randomness
    c.check(rngs.iter().all(|r| r.len() >= 32), &format!("{}: user keys without randomness", kind), ctx);
    c.nontrivial(&files[0]);
    c.sample(|| format!("{}: files of {} bytes, {} content windows, {} public", ctx(), files[0].len(), windows(&files[0]).len(), public.len()));
}

pub fn c07(th: bool) -> Plan {
    let mut groups = vec![];
    for p in latkes() {
        for real in 0..2usize {
            let q = p.clone();
            let who = if real == 0 { "initiator" } else { "responder" };
            groups.push(group(format!("{} {} meets a thief", p.name, who), cases(&p, 1300, th), move |c| {
                // A's file is stolen; the honest party is B (or A itself, elsewhere), expecting A or C
                let (a, b) = two_ids(c);
                let third = if c.chance(1, 3) { other_than(c, &a, &b) } else { c.bytes32() };
                let honest = if c.chance(1, 8) { a } else { b };
                let pw = password(c);
                let ssid = any32(c);
                let pr = pair_all(c, &q, pw, honest, honest, ssid);
                let mut rc = if real == 0 { pr.i.clone() } else { pr.r.clone() };
                let mut tc = if real == 0 { pr.r.clone() } else { pr.i.clone() };
                let devs: Vec<Dev> = LATKE_DEVS.iter().copied().filter(|d| q.ibke != "fg" || crate::refs::ibke::devs("fg", true).contains(d) || *d == Dev::Honest).collect();
                let mut d = devs[if c.chance(1, 3) { 0 } else { c.below(devs.len()) }];
                // the identity the thief's certificate shows: its own, unless it deviates
                let shown = if d == Dev::Honest { a } else { third };
                let expected = match c.below(3) {
                    0 => a,
                    1 => third,
                    _ => b,
                };
                let claim = if c.chance(1, 4) { a } else { expected };
                if q.wants_peer() {
                    rc.peer = Some(expected);
                    tc.peer = Some(honest);
                }
                let mut u = HRng::new(tc.user_seed);
                let mut f = RefPwfile::new(q.ibke, &rc.secret, a, &mut u);
                if d != Dev::Honest {
                    // forged identity part; the authority's key stays unknown to the thief, whatever
                    // the reference uses to build the deviation
                    f.user = User::new(q.ibke, &Auth::of_password(q.ibke, &rc.secret), shown, d, &mut u);
                }
                f.lenient = true;
                let mut shown = shown;
                let mut how = Relabel::Keep;
                if q.ibke != "fg" && c.chance(1, 3) {
                    // the certificate in the file as the code under test issued it, relabelled
                    how = RELABELS[c.below(RELABELS.len())];
                    let by = Issuer::Password(&rc.secret);
                    let (s1, s2) = (c.u64(), c.u64());
                    if let (Some(own), Some(victim), Some(target)) = (issued(q.ibke, &by, a, s1), issued(q.ibke, &by, third, s2), issued(q.ibke, &by, honest, rc.user_seed)) {
                        f.user = relabel(q.ibke, how, &own, &victim, &target, &mut HRng::new(s1 ^ s2));
                        shown = f.user.id;
                        d = Dev::Honest;
                        c.count("issued certificates");
                    } else {
                        how = Relabel::Keep;
                    }
                }
                // before some thefts: the owner of the file and the honest party, or the thief elsewhere
                if c.chance(1, 4) {
                    c.count("attacks after honest sessions");
                    let (mut hc, mut ow) = (rc.clone(), tc.clone());
                    ow.id = if c.chance(1, 2) { expected } else { a };
                    if q.wants_peer() {
                        hc.peer = Some(ow.id);
                    }
                    session(real, &mut *(q.mk)(&hc), &mut *(q.mk)(&ow));
                    if q.wants_peer() && c.chance(1, 2) {
                        hc.peer = Some(a);
                        session(real, &mut *(q.mk)(&hc), &mut RefLatke::with_pwfile(q.pake, q.ibke, &tc, f.clone(), claim, d));
                    }
                }
                let mut me = (q.mk)(&rc);
                let mut thief = RefLatke::with_pwfile(q.pake, q.ibke, &tc, f, claim, d);
                let t = session(real, &mut *me, &mut thief);
                c.eval();
                let acc = accepted(&*me);
                let ctx = || {
                    format!(
                        "{} {}: stolen file of {}, claims {}, shows {} with {:?} {:?}, honest party {} expects {}; ssid {} password {} rejections {:?}",
                        q.name, who, hex(&a), hex(&claim), hex(&shown), d, how, hex(&honest), if q.wants_peer() { hex(&expected) } else { "anyone".into() }, hex(&rc.ssid), hex(&rc.secret), t.rej
                    )
                };
                c.seen("thefts", format!("{}{}{:?}{}{}{}", q.name, real, d, claim == a, expected == a, honest == a).as_bytes());
                match acc {
                    None => c.count("thief rejected"),
                    Some(f) => {
                        let legit = d == Dev::Honest && how == Relabel::Keep && f.id == Some(a) && (!q.wants_peer() || expected == a);
                        c.check(legit, &format!("{} {} completes with a thief as somebody else", q.name, who), || format!("reports {:?}; {}", f.id.map(|x| hex(&x)), ctx()));
                        if legit {
                            c.count("thief accepted as the owner of the file");
                            let same = thief.fin().map(|x| x.key) == Some(f.key);
                            c.add("keys shared as the owner", same as u64);
                        }
                    }
                }
                c.nontrivial(&t.bytes());
                c.sample(ctx);
            }));
        }
    }
    for p in chips() {
        for real in 0..2usize {
            let q = p.clone();
            let who = if real == 0 { "initiator" } else { "responder" };
            groups.push(group(format!("{} {} meets a thief", p.name, who), cases(&p, 2500, th), move |c| {
                let (a, b) = two_ids(c);
                let third = if c.chance(1, 2) { other_than(c, &a, &b) } else { c.bytes32() };
                let honest = if c.chance(1, 8) { a } else { b };
                let pw = password(c);
                let ssid = any32(c);
                let pr = pair_all(c, &q, pw, honest, honest, ssid);
                let mut rc = if real == 0 { pr.i.clone() } else { pr.r.clone() };
                let mut tc = if real == 0 { pr.r.clone() } else { pr.i.clone() };
                let ds = [ChipDev::Honest, ChipDev::Shift, ChipDev::Fresh, ChipDev::Rogue, ChipDev::Identity, ChipDev::NegX];
                let d = ds[if c.chance(1, 3) { 0 } else { c.below(ds.len()) }];
                let expected = match c.below(3) {
                    0 => a,
                    1 => third,
                    _ => b,
                };
                rc.peer = Some(expected);
                tc.peer = Some(honest);
                tc.id = a;
                let claim = if c.chance(1, 2) { a } else { expected };
                let f = ChipFile::new(&rc.secret, &a, &mut HRng::new(tc.user_seed));
                if c.chance(1, 4) {
                    c.count("attacks after honest sessions");
                    let (mut hc, mut ow) = (rc.clone(), tc.clone());
                    for id in [expected, a] {
                        ow.id = id;
                        hc.peer = Some(id);
                        session(real, &mut *(q.mk)(&hc), &mut *(q.mk)(&ow));
                    }
                }
                let mut me = (q.mk)(&rc);
                // the reference, also with what the code under test put into its files, or the code
                // under test itself
                let (s1, s2) = (c.u64(), c.u64());
                let known = (issued_chip(&rc.secret, a, s1), issued_chip(&rc.secret, expected, s2), issued_chip(&rc.secret, rc.id, rc.user_seed));
                let mut forged = false;
                let (mut thief, d): (Box<dyn Party>, ChipDev) = match (c.below(3), known) {
                    (0, _) => ((q.mk)(&tc), ChipDev::Honest),
                    (1, (Some((mut f, _)), Some((_, h)), Some((target, _)))) => {
                        c.count("files read");
                        if c.chance(1, 2) {
                            // made up to fit the hash of another key of the identity expected
                            forged = true;
                            f.xhat = wide(&mut HRng::new(s1 ^ s2));
                            f.x = RistrettoPoint::mul_base(&f.xhat) - f.y * h;
                        }
                        let mut t = RefChip::with(q.pake, &tc, f, claim, ChipDev::Honest);
                        t.peer_static = Some(RistrettoPoint::mul_base(&target.xhat));
                        (Box::new(t), ChipDev::Honest)
                    }
                    _ => (Box::new(RefChip::with(q.pake, &tc, f, claim, d)), d),
                };
                let t = session(real, &mut *me, &mut *thief);
                c.eval();
                let ctx = || {
                    format!(
                        "{} {}: stolen file of {}, {:?}, honest party {} expects {}; ssid {} password {} rejections {:?}",
                        q.name, who, hex(&a), d, hex(&honest), hex(&expected), hex(&rc.ssid), hex(&rc.secret), t.rej
                    )
                };
                let legit = expected == a && d == ChipDev::Honest && !forged;
                let (x, y) = (me.fin(), thief.fin());
                c.seen("thefts", format!("{}{}{:?}{}{}", q.name, real, d, expected == a, honest == a).as_bytes());
                let shared = x.is_some() && x.as_ref().map(|f| f.key) == y.as_ref().map(|f| f.key);
                if legit {
                    c.add("keys shared as the owner", shared as u64);
                } else {
                    c.check(!shared, &format!("{} {} shares a key with a thief as somebody else", q.name, who), ctx);
                    if q.pake == "kcspake2" {
                        c.check(x.is_none(), &format!("{} {} completes with a thief as somebody else", q.name, who), ctx);
                    }
                    c.count("thief rejected or without the key");
                }
                c.nontrivial(&t.bytes());
                c.sample(ctx);
            }));
        }
    }
    let n = if th { 1200 } else { 100 };
    groups.push(group("file fg", n, |c| file_check::<FgIbkeC>(c, "fg")));
    groups.push(group("file hmqv", n, |c| file_check::<IdHmqvC>(c, "hmqv")));
    groups.push(group("file sigdh", n, |c| file_check::<IdSigDh>(c, "sigdh")));
    // not for sigma-ed25519: its keys live in enums sized for Dilithium, whose unused bytes hold
    // whatever was on the stack, which no scan can tell from content. The code of the file is the
    // same for all exchanges, the freshness of its user keys is C13's.
    groups.push(group("file sigma-dilithium2", n / 4, |c| file_check::<IdSigmaRDilithium2>(c, "sigma-dilithium2")));
    groups.push(group("file chip", n, |c| {
        let pw = password(c);
        let (a, b) = two_ids(c);
        let y = chip_y(&pw);
        let mut xs: Vec<Vec<u8>> = vec![];
        for id in [a, a, b] {
            let s = c.u64();
            let (f, img) = alloc::image(|| Chip::<KcSpake2>::gen_pwfile(HRng::new(s), pw.clone(), id));
            let w = windows(&img);
            c.check(!windows(&y.to_bytes()).iter().any(|v| w.contains(v)), "chip: password file contains the main private key", || hex(&pw));
            let own = windows(&pw);
            c.check(!own.iter().any(|v| w.contains(v)), "chip: password file contains the password", || hex(&pw));
            c.add("file bytes", img.len() as u64);
            let mut sess = Chip::<Cake>::new_session(HRng::new(1), [0; 32], f, PartyRole::Initiator, b);
            let m = sess.run(HRng::new(2), &[]).ok().flatten().unwrap_or_default();
            xs.push(m.get(..32).unwrap_or(&[]).to_vec());
        }
        c.eval();
        c.check(xs[0] != xs[1] && xs[0] != xs[2] && xs[1] != xs[2], "chip: two password files share their user key", || format!("{} {} {}", hex(&pw), hex(&a), hex(&b)));
        c.count("file pairs compared");
        c.nontrivial(&xs.concat());
    }));
    Plan {
        groups,
        rule: "one session of an honest party with a reference thief per case (stack × role × expected identity × claimed identity × way of forging the identity part), and the memory of three password files per case compared window by window; non-trivial: distinct transcripts and files",
        need: vec![("thefts", 400), ("issued certificates", 300), ("thief rejected", 100), ("keys shared as the owner", 100), ("file pairs compared", 300), ("thief rejected or without the key", 100), ("attacks after honest sessions", 300)],
        assumptions: vec![
            "the thief does not break the discrete logarithm, the signatures or the hash functions, and does not guess the password",
            "a password file consists of the value returned by gen_pwfile and of the heap allocations it left alive",
        ],
    }
}
