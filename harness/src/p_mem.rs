//! C22: native code and its wrappers stay inside their buffers. Run three times: at full speed with
//! inaccessible pages around every buffer, under AddressSanitizer and UndefinedBehaviorSanitizer, and
//! under valgrind's memcheck.
use crate::core::*;
use crate::gbuf::*;
use crate::kem::*;
use crate::vg;

fn place(c: &mut Case) -> Place {
    match c.below(8) {
        0..=3 => Place::End,
        4 => Place::Start,
        5 => Place::After(1 + c.below(63)),
        _ => Place::Before(1 + c.below(63)),
    }
}
fn natives(d: &'static Dil) -> Vec<&'static Native> {
    if have_avx2() {
        vec![&d.clean, &d.avx2]
    } else {
        vec![&d.clean]
    }
}
fn mlen(c: &mut Case) -> usize {
    match c.below(6) {
        0 => c.below(20),
        1 => 136 * (1 + c.below(8)) - 64 + c.below(3) - 1,
        2 => 4096 * (1 + c.below(3)) + c.below(3) - 1,
        3 => c.below(300),
        4 => 32 * c.below(12),
        _ => c.below(5000),
    }
}

/// A signature that reaches deep into the verifier or has broken parts
fn hostile_sig(c: &mut Case, d: &Dil, honest: &[u8]) -> (Vec<u8>, &'static str) {
    let mut s = honest.to_vec();
    let p = d.p;
    let h = p.ctilde + p.z_len();
    let l = s.len();
    let kind = match c.below(12) {
        10 | 11 => {
            // strictly ascending from the first place through the counts: only their bound stops a reader
            let n = l - h;
            let (mut up, from) = (0, if c.chance(1, 2) { p.omega } else { c.below(n) });
            for i in 0..n {
                if i >= from && i + up < 255 && (i == n - 1 || c.chance(1, 3)) {
                    up = [up + 1, up + c.below(256 - i - up), 255 - i][if i == n - 1 { 2 } else { c.below(3) }].min(255 - (n - 1));
                }
                s[h + i] = (i + up) as u8
            }
            if c.chance(1, 2) {
                s[l - 1] = 255
            }
            "ascending hints and counts"
        }
        0 => {
            c.rng_fill(&mut s);
            "random"
        }
        1 => {
            c.rng_fill(&mut s[h..]);
            "random hints"
        }
        2 => {
            // hint counts that do not grow, or grow beyond their room
            for i in l - p.k..l {
                s[i] = c.u64() as u8
            }
            "random hint counts"
        }
        3 => {
            for b in &mut s[l - p.k..] {
                *b = 0xff
            }
            "largest hint counts"
        }
        4 => {
            s[l - 1] = [p.omega as u8, p.omega as u8 + 1, 255, 0][c.below(4)];
            "last hint count"
        }
        5 => {
            let i = h + c.below(p.omega);
            s[i] = c.u64() as u8;
            "hint index"
        }
        6 => {
            for b in &mut s[p.ctilde..h] {
                *b = 0xff
            }
            "largest z"
        }
        7 => {
            for b in &mut s[h..] {
                *b = 0xff
            }
            "largest hints"
        }
        8 => {
            let i = c.below(l);
            s[i] ^= 1 << c.below(8);
            "one bit"
        }
        _ => {
            let f = c.u64() as u8;
            s.fill(f);
            "constant"
        }
    };
    (s, kind)
}

impl Case {
    fn rng_fill(&mut self, b: &mut [u8]) {
        rand_core::RngCore::fill_bytes(&mut self.rng, b)
    }
}

/// Judges what happened around one native call
fn around(c: &mut Case, what: &str, out: &[(&str, &GBuf)], errors: usize) {
    c.eval();
    c.count("native calls watched");
    for (n, b) in out {
        c.check(b.intact(), "a native call writes beside its output buffer", || format!("{}: {}", what, n));
        if vg::running() {
            c.check(vg::is_defined(b.bytes()), "a native call leaves part of its output uninitialised", || format!("{}: {}", what, n));
        }
    }
    let e = vg::errors();
    c.check(e == errors, "the memory checker reports an error in a native call", || format!("{}: {} errors", what, e - errors));
}

fn undefined_out(len: usize, p: Place) -> GBuf {
    let g = GBuf::new(len, p);
    if vg::running() {
        vg::undefined(g.bytes());
    }
    g
}

/// Different residue on the stack for the next call
#[inline(never)]
fn paint(v: u8) {
    let mut a = [0u8; 200_000];
    for b in a.iter_mut() {
        unsafe { (b as *mut u8).write_volatile(v) }
    }
    std::hint::black_box(&a);
}

fn native(c: &mut Case, d: &'static Dil, n: &'static Native) {
    let (pkl, skl, sl) = (d.sizes)();
    let tag = |op: &str, m: usize, p: &[Place]| format!("{} {} {} message of {} bytes {:?}", d.name, n.name, op, m, p);
    // keys
    let (pp, ps) = (place(c), place(c));
    let (pk, sk) = (undefined_out(pkl, pp), undefined_out(skl, ps));
    let e = vg::errors();
    let r = unsafe { (n.keypair)(pk.ptr, sk.ptr) };
    around(c, &tag("keypair", 0, &[pp, ps]), &[("pk", &pk), ("sk", &sk)], e);
    c.check(r == 0, "a native call fails", || tag("keypair", 0, &[pp, ps]));
    let coins = c.vec(32);
    let pc = place(c);
    let (dpk, dsk) = (undefined_out(pkl, pp), undefined_out(skl, ps));
    let cb = GBuf::input(&coins, pc);
    let e = vg::errors();
    unsafe { (d.det)(cb.ptr, dpk.ptr, dsk.ptr) };
    around(c, &tag("keypair_det", 0, &[pp, ps, pc]), &[("pk", &dpk), ("sk", &dsk)], e);
    let want = (d.keypair_det)(coins[..].try_into().unwrap());
    c.check(dpk.bytes() == want.0 && dsk.bytes() == want.1, "a result depends on where its buffers are", || tag("keypair_det", 0, &[pp, ps, pc]));
    let (pkb, skb) = if c.chance(1, 2) { want } else { (pk.bytes().to_vec(), sk.bytes().to_vec()) };

    let ml = mlen(c);
    let m = c.vec(ml);
    c.seen("message lengths", &ml.to_le_bytes());
    // signing, twice with other surroundings
    let mut sig1: Option<Vec<u8>> = None;
    for round in 0..2u8 {
        let (a, b, o) = (place(c), place(c), place(c));
        let (gm, gk) = (GBuf::input(&m, a), GBuf::input(&skb, b));
        let out = undefined_out(sl, o);
        let mut len = usize::MAX;
        paint(round.wrapping_mul(0x5b) ^ 0x11);
        let e = vg::errors();
        let r = unsafe { (n.signature)(out.ptr, &mut len, gm.ptr, ml, gk.ptr) };
        let what = tag("signature", ml, &[o, a, b]);
        c.seen("placements", format!("{:?}{:?}{:?}", o, a, b).as_bytes());
        around(c, &what, &[("sig", &out)], e);
        c.check(r == 0 && len == sl, "a native call fails", || what.clone());
        let det = out.bytes().to_vec();
        if let Some(s) = &sig1 {
            c.check(*s == det, "a result depends on where its buffers are", || what.clone());
        }
        let o2 = place(c);
        let out = undefined_out(sl + ml, o2);
        let mut len = usize::MAX;
        let e = vg::errors();
        let r = unsafe { (n.sign)(out.ptr, &mut len, gm.ptr, ml, gk.ptr) };
        let what = tag("sign", ml, &[o2, a, b]);
        around(c, &what, &[("sm", &out)], e);
        c.check(r == 0 && len == sl + ml, "a native call fails", || what.clone());
        c.check(out.bytes() == [&det[..], &m].concat(), "a result depends on where its buffers are", || what.clone());
        sig1 = Some(det);
    }
    let sig = sig1.unwrap();
    c.nontrivial(&sig);

    // an arbitrary secret key is only bytes to these functions
    if c.chance(1, 4) {
        let mut k = skb.clone();
        // the small coefficients, keeping rho, K and tr
        let (f, t) = (128, skl - d.p.k * 416);
        for _ in 0..1 + c.below(40) {
            let i = f + c.below(t - f);
            k[i] = c.u64() as u8;
        }
        let b = place(c);
        let gk = GBuf::input(&k, b);
        let gm = GBuf::input(&m, Place::End);
        let out = undefined_out(sl, Place::End);
        let mut len = usize::MAX;
        let e = vg::errors();
        unsafe { (n.signature)(out.ptr, &mut len, gm.ptr, ml, gk.ptr) };
        c.count("signatures under odd keys");
        around(c, &tag("signature by an odd key", ml, &[b]), &[("sig", &out)], e);
    }

    // verification and opening, honest and hostile
    for t in 0..6 {
        let (s, kind) = if t == 0 { (sig.clone(), "honest") } else { hostile_sig(c, d, &sig) };
        let k = match c.below(6) {
            0 if t > 0 => c.vec(pkl),
            1 if t > 0 => vec![c.u64() as u8; pkl],
            _ => pkb.clone(),
        };
        let right = s == sig && k == pkb;
        // lengths other than the right one
        let cut = match c.below(5) {
            0 if t > 0 => c.below(sl),
            1 if t > 0 => [0, 1, sl - 1, 31, 32, 33][c.below(6)],
            _ => sl,
        };
        let s = s[..cut].to_vec();
        let right = right && cut == sl;
        let (a, b, o) = (place(c), place(c), place(c));
        let (gs, gm, gk) = (GBuf::input(&s, a), GBuf::input(&m, b), GBuf::input(&k, o));
        paint(t as u8);
        let e = vg::errors();
        let r = unsafe { (n.verify)(gs.ptr, cut, gm.ptr, ml, gk.ptr) };
        let what = format!("{} ({}, {} bytes)", tag("verify", ml, &[a, b, o]), kind, cut);
        around(c, &what, &[], e);
        c.count("verifications");
        c.seen("hostile kinds", kind.as_bytes());
        c.check((r == 0) == right && (r == 0 || r == -1), "a result depends on where its buffers are", || format!("{} returns {}", what, r));
        // signed messages, cut anywhere
        let mut sm = [&s[..], &m].concat();
        if c.chance(1, 3) && t > 0 {
            sm.truncate(c.below(sl + 1));
        }
        let ol = sm.len();
        let right = right && ol == sl + ml;
        let po = place(c);
        let gsm = GBuf::input(&sm, a);
        let out = undefined_out(ol, po);
        let mut len = 12345usize;
        let e = vg::errors();
        let r = unsafe { (n.open)(out.ptr, &mut len, gsm.ptr, ol, gk.ptr) };
        let what = format!("{} ({}, {} bytes)", tag("open", ml, &[po, a, o]), kind, ol);
        c.eval();
        c.count("native calls watched");
        c.count("openings");
        c.check(out.intact(), "a native call writes beside its output buffer", || what.clone());
        let e2 = vg::errors();
        c.check(e == e2, "the memory checker reports an error in a native call", || what.clone());
        // the caller is given exactly so many bytes, all of them written
        let given = if r == 0 { len } else { ol };
        if !c.check(given <= ol, "opening gives out more than it was given", || format!("{}: {}", what, len)) {
            continue;
        }
        if vg::running() {
            c.check(vg::is_defined(&out.bytes()[..given]), "a native call leaves part of its output uninitialised", || what.clone());
        }
        if right {
            c.count("honest openings");
            c.check(r == 0 && len == ml && out.bytes()[..ml] == m[..], "a result depends on where its buffers are", || what.clone());
        } else {
            c.count("failed openings");
            c.check(r == -1, "a result depends on where its buffers are", || format!("{} returns {}", what, r));
            c.check(out.bytes().iter().all(|b| *b == 0), "a failed opening leaves something in the output", || what.clone());
        }
        // in place, as documented
        let buf = undefined_out(ol, po);
        unsafe { std::ptr::copy_nonoverlapping(sm.as_ptr(), buf.ptr, ol) };
        let mut len = 12345usize;
        let e = vg::errors();
        let r = unsafe { (n.open)(buf.ptr, &mut len, buf.ptr, ol, gk.ptr) };
        around(c, &format!("in place: {}", what), &[("m", &buf)], e);
        if right {
            c.check(r == 0 && len == ml && buf.bytes()[..ml] == m[..], "a result depends on where its buffers are", || format!("in place: {}", what));
        } else {
            c.check(r == -1 && buf.bytes().iter().all(|b| *b == 0), "a failed opening leaves something in the output", || format!("in place: {}", what));
        }
    }
}

/// The public Rust interface, with every heap block of the calls at an inaccessible page
fn wrappers(c: &mut Case, d: &'static Dil, mode: u8) {
    let e = vg::errors();
    let (pk, sk) = guarded(mode, || (d.keypair)());
    let ml = mlen(c);
    let m = c.vec(ml);
    let gm = GBuf::input(&m, place(c));
    let served = heap_served();
    let sm = guarded(mode, || (d.sign)(gm.bytes(), &sk));
    let det = guarded(mode, || (d.detached)(gm.bytes(), &sk));
    let (Ok(sm), Ok(det)) = (sm, det) else {
        c.fail("a call fails", d.name);
        return;
    };
    c.add("guarded heap blocks", (heap_served() - served) as u64);
    c.nontrivial(&det);
    let judge = |c: &mut Case, what: &str| {
        c.eval();
        c.count("wrapper calls watched");
        let now = vg::errors();
        c.check(now == e, "the memory checker reports an error in a call", || format!("{} {}", d.name, what));
    };
    judge(c, "sign");
    if vg::running() {
        c.check(vg::is_defined(&sm) && vg::is_defined(&det) && vg::is_defined(&sk) && vg::is_defined(&pk), "a call returns uninitialised bytes", || d.name.into());
    }
    for t in 0..6 {
        let (mut s, kind) = if t == 0 { (det.clone(), "honest") } else { hostile_sig(c, d, &det) };
        let k = if t > 2 && c.chance(1, 2) { c.vec(pk.len()) } else { pk.clone() };
        if t > 0 && c.chance(1, 3) {
            let n = c.below(s.len() + 1);
            s.truncate(n)
        }
        let v = guarded(mode, || (d.verify)(&s, gm.bytes(), &k));
        judge(c, "verify");
        let mut x = [&s[..], &m].concat();
        if t > 0 && c.chance(1, 3) {
            let n = c.below(x.len() + 1);
            x.truncate(n)
        }
        let o = guarded(mode, || (d.open)(&x, &k));
        judge(c, "open");
        c.seen("hostile kinds", kind.as_bytes());
        if s == det && k == pk {
            c.check(v.is_ok(), "a result depends on where its buffers are", || format!("{} verify", d.name));
        }
        if let Ok(o) = o {
            c.count("honest openings");
            if vg::running() {
                c.check(vg::is_defined(&o), "a call returns uninitialised bytes", || d.name.into());
            }
            c.check(o == m, "a result depends on where its buffers are", || format!("{} open", d.name));
        } else {
            c.check(!(x == sm && k == pk), "a result depends on where its buffers are", || format!("{} open", d.name));
        }
    }
    // byte encodings of any length
    for _ in 0..20 {
        let n = match c.below(3) {
            0 => c.below(80),
            1 => [pk.len(), sk.len(), det.len()][c.below(3)] + c.below(5) - 2,
            _ => c.below(6000),
        };
        let b = c.vec(n);
        let g = GBuf::input(&b, place(c));
        guarded(mode, || {
            let _ = (d.pk_round)(g.bytes());
            let _ = (d.sk_round)(g.bytes());
            let _ = (d.sig_round)(g.bytes());
            let _ = (d.sm_round)(g.bytes());
        });
        judge(c, "decoding");
    }
}

/// Runs another property's workload for what the sanitizers and guard pages say about it; its own
/// verdicts are not this property's
fn borrowed(prefix: &str, g: Group, n: usize, mode: u8) -> Group {
    let f = g.f;
    group(format!("{} {}", prefix, g.name), n, move |c| {
        let e = vg::errors();
        let served = heap_served();
        let m = if mode == 0 { 0 } else { 1 + (c.idx % 2) as u8 };
        let _ = guarded(m, || guard(|| f(c)));
        c.drop_verdicts();
        c.eval();
        c.add("guarded heap blocks", (heap_served() - served) as u64);
        c.count("workloads watched");
        let now = vg::errors();
        c.check(now == e, "the memory checker reports an error in the stack", || format!("{} errors", now - e));
    })
}

pub fn c22(th: bool, variant: &str) -> Plan {
    let mut groups = vec![];
    let (release, memcheck) = (variant == "release", variant == "memcheck");
    if release {
        heap_init();
    }
    // how much of everything: the checkers slow everything down
    let f = |n: usize| -> usize {
        let n = if th { n * 20 } else { n };
        if memcheck { n / 24 + 1 } else if release { n } else { n / 3 + 1 }
    };
    for d in &DILS {
        for n in natives(d) {
            groups.push(group(format!("native {} {}", d.name, n.name), f(400), move |c| native(c, d, n)));
        }
        groups.push(group(format!("wrappers {}", d.name), f(300), move |c| wrappers(c, d, 1 + (c.idx % 2) as u8)));
        // every small message length and every alignment once
        groups.push(group(format!("lengths {}", d.name), f(160), move |c| {
            let (pk, sk) = (d.keypair_det)(&c.bytes32());
            let sl = (d.sizes)().2;
            for n in natives(d) {
                for l in [c.idx, c.idx + 160, c.idx + 320] {
                    let m = c.vec(l);
                    let (gm, gk) = (GBuf::input(&m, Place::End), GBuf::input(&sk, Place::Before(c.idx % 64)));
                    let out = undefined_out(sl, Place::Before(c.idx % 33));
                    let mut len = 0;
                    let e = vg::errors();
                    unsafe { (n.signature)(out.ptr, &mut len, gm.ptr, l, gk.ptr) };
                    let what = format!("{} {} signature of {} bytes", d.name, n.name, l);
                    around(c, &what, &[("sig", &out)], e);
                    c.seen("message lengths", &l.to_le_bytes());
                    let gs = GBuf::input(out.bytes(), Place::End);
                    let gp = GBuf::input(&pk, Place::End);
                    let e = vg::errors();
                    let r = unsafe { (n.verify)(gs.ptr, sl, gm.ptr, l, gp.ptr) };
                    around(c, &what, &[], e);
                    c.check(r == 0, "a result depends on where its buffers are", || what.clone());
                    c.nontrivial(out.bytes());
                }
            }
        }));
    }
    // the whole stack on arbitrary bytes
    let per = |n: usize, g: &Group| f(n).min(g.n.max(1));
    for g in crate::attack::c04(th).groups {
        if g.name.starts_with("changes") && !(memcheck && !g.name.contains("hmqv") && g.n < 60) {
            let n = per(if memcheck { 24 } else { 12 }, &g);
            groups.push(borrowed("stack", g, n, if release { 1 } else { 0 }));
        }
    }
    for g in crate::p_codec::c19(th).groups {
        let n = per(8, &g);
        groups.push(borrowed("codec", g, n, if release { 1 } else { 0 }));
    }
    for g in crate::p_chan::c11(th).groups {
        let n = per(30, &g);
        groups.push(borrowed("channel", g, n, if release { 1 } else { 0 }));
    }
    for g in crate::p_dil::c20(th).groups.into_iter().chain(crate::p_dil::c21(th).groups) {
        let n = per(if memcheck { 24 } else { 16 }, &g);
        groups.push(borrowed("signature", g, n, 0));
    }
    for g in crate::p_saber::c17(th).groups {
        let n = per(12, &g);
        groups.push(borrowed("kem", g, n, if release { 1 } else { 0 }));
    }
    Plan {
        groups,
        rule: "one call, or one workload of calls, with its buffers between inaccessible pages or under a sanitizer",
        need: vec![("native calls watched", 500), ("failed openings", 100), ("wrapper calls watched", 300), ("workloads watched", 20), ("message lengths", 20)],
        assumptions: vec![
            "the aarch64 code cannot be executed on this machine and is not covered",
            "memory errors inside hand-written assembly are seen by the guard pages and memcheck, not by the compiler's sanitizers",
        ],
    }
}
