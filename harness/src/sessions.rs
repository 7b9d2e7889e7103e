//! C01-C03: outcomes of whole sessions between two honest parties over a faithful channel.
use crate::core::*;
use crate::party::*;
use crate::util::*;
use latke::PartyRole;

/// What an honest, matched run must look like
pub fn judge_honest(c: &mut Case, p: &Proto, q: &Pair, i: &dyn Party, r: &dyn Party, t: &Trace) -> bool {
    let w = || format!("{}: {} trace sizes {:?}", p.name, show_pair(q), t.sizes());
    let mut ok = true;
    for k in 0..2 {
        if let Some(e) = &t.rej[k] {
            ok &= c.check(false, &format!("{} honest run rejected", p.name), || format!("{} party {} step {}: {}", w(), k, t.evs.len(), e));
        }
    }
    if !ok {
        return false;
    }
    let want = p.msgs.len();
    // the last event is the receiver of the last message finishing silently
    ok &= c.check(
        !t.stuck && t.evs.len() == want + 1 && t.evs[want].sent.is_none(),
        &format!("{} wrong number of messages", p.name),
        || format!("{} expected {} messages", w(), want),
    );
    ok &= c.check(i.done() && r.done(), &format!("{} did not finish", p.name), w);
    let (fi, fr) = (accepted(i), accepted(r));
    match (fi, fr) {
        (Some(a), Some(b)) => {
            ok &= c.check(a.key == b.key, &format!("{} keys differ", p.name), || {
                format!("{} keys {} {}", w(), hex(&a.key), hex(&b.key))
            });
            ok &= c.check(a.key != [0; 32], &format!("{} zero key", p.name), w);
            if p.has_ids() {
                ok &= c.check(a.id == Some(q.r.id) && b.id == Some(q.i.id), &format!("{} wrong identity", p.name), || {
                    format!("{} initiator sees {:?} responder sees {:?}", w(), a.id, b.id)
                });
            }
            c.nontrivial(&[&a.key[..], &t.bytes()].concat());
            c.seen("session keys", &a.key);
        }
        _ => ok &= c.check(false, &format!("{} no key", p.name), w),
    }
    c.add("messages", t.evs.len() as u64);
    ok
}

pub fn c01(th: bool) -> Plan {
    let mut groups = vec![];
    for p in protos() {
        let n = cases(&p, 600, th).max(20);
        let q = p.clone();
        groups.push(group(format!("honest {}", p.name), n, move |c| {
            let pr = if c.idx % 8 == 7 {
                // also one identity talking to itself, and all-equal values
                let a = any32(c);
                let s = if c.chance(1, 2) { a } else { any32(c) };
                let pw = password(c);
                pair_all(c, &q, pw, a, a, s)
            } else {
                pair(c, &q)
            };
            let (mut i, mut r) = if c.chance(1, 2) {
                let i = (q.mk)(&pr.i);
                (i, (q.mk)(&pr.r))
            } else {
                let r = (q.mk)(&pr.r);
                ((q.mk)(&pr.i), r)
            };
            let t = faithful(&mut *i, &mut *r, q.msgs.len() + 3);
            c.eval();
            c.seen("protocols", q.name.as_bytes());
            c.seen("passwords", &pr.i.secret);
            judge_honest(c, &q, &pr, &*i, &*r, &t);
            c.sample(|| format!("{} {} -> sizes {:?} key {:?}", q.name, show_pair(&pr), t.sizes(), accepted(&*i).map(|f| hex(&f.key))));
        }));
        // the same two users again, with the roles exchanged, and many sessions interleaved
        let q = p.clone();
        groups.push(group(format!("swapped {}", p.name), cases(&p, 100, th).max(8), move |c| {
            let pr = pair(c, &q);
            let mut sess = vec![];
            for k in 0..4 {
                let (mut a, mut b) = (pr.i.clone(), pr.r.clone());
                a.ssid = near32(c, &pr.i.ssid);
                b.ssid = a.ssid;
                a.rng_seed = c.u64();
                b.rng_seed = c.u64();
                if k % 2 == 1 {
                    std::mem::swap(&mut a, &mut b);
                    a.role = PartyRole::Initiator;
                    b.role = PartyRole::Responder;
                }
                let pq = Pair { i: a, r: b };
                let (i, r) = ((q.mk)(&pq.i), (q.mk)(&pq.r));
                sess.push((pq, i, r, Trace::default(), Vec::<u8>::new(), 0usize, false));
            }
            // random interleaving, one step at a time
            let mut live: Vec<usize> = (0..sess.len()).collect();
            while !live.is_empty() {
                let li = c.below(live.len());
                let s = &mut sess[live[li]];
                let k = s.5;
                let w: &mut dyn Party = if k % 2 == 0 { &mut *s.1 } else { &mut *s.2 };
                if w.done() || k > q.msgs.len() + 2 {
                    live.remove(li);
                    continue;
                }
                let cur = std::mem::take(&mut s.4);
                match w.step(&cur) {
                    Out::Msg(m) => {
                        s.4 = m.clone();
                        s.3.evs.push(Ev { from: k % 2, delivered: m.clone(), sent: Some(m) });
                    }
                    Out::Nothing => s.3.evs.push(Ev { from: k % 2, delivered: vec![], sent: None }),
                    Out::Reject(e) => {
                        s.3.rej[k % 2] = Some(e);
                        live.remove(li);
                        continue;
                    }
                }
                s.5 += 1;
            }
            for s in &sess {
                c.eval();
                c.count("interleaved sessions");
                judge_honest(c, &q, &s.0, &*s.1, &*s.2, &s.3);
            }
        }));
    }
    Plan {
        groups,
        rule: "one full session per case between two honest parties (all 3 PAKEs, 5 identity-based exchanges, 3 CHIP and 30 LATKE stacks), passwords, identities and session ids from categories (empty, boundary lengths, binary, very long, equal and near-equal identities); plus groups of 4 sessions of the same users with alternating roles, randomly interleaved. A case counts as non-trivial when both ends produced a key; distinct by key and transcript.",
        need: vec![("protocols", 41), ("nontrivial", 400), ("passwords", 100), ("interleaved sessions", 80)],
        assumptions: vec![],
    }
}

/// A second password that differs from the first; returns the kind of difference
pub fn other_password(c: &mut Case, a: &[u8]) -> (Vec<u8>, &'static str) {
    loop {
        let k = if c.idx < 20 { c.idx } else { c.below(20) };
        let mut b = a.to_vec();
        let kind = match k {
            0 if !b.is_empty() => {
                let n = c.below(b.len() * 8);
                b[n / 8] ^= 1 << (n % 8);
                "one bit"
            }
            1 if !b.is_empty() => {
                let n = b.len() - 1;
                b[n] ^= 1;
                "last byte"
            }
            2 => {
                b.push(0);
                "trailing NUL"
            }
            3 => {
                b.push(b' ');
                "trailing space"
            }
            4 => {
                b.push(b'\n');
                "trailing newline"
            }
            5 => {
                b.insert(0, b' ');
                "leading space"
            }
            6 if !b.is_empty() => {
                b.pop();
                "truncated by one"
            }
            7 => {
                b = b.iter().map(|x| if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect();
                "case"
            }
            8 => {
                let n = c.below(b.len() + 1);
                b.truncate(n);
                "prefix"
            }
            9 => {
                b.clear();
                "empty"
            }
            10 => {
                // agree on a long prefix, differ after a boundary
                let n = [16, 32, 55, 63, 64, 71, 72, 127, 128, 136, 255, 256, 512, 1024, 4096, 65535][c.below(16)];
                if a.len() <= n {
                    b.resize(n, b'x');
                    let mut b2 = b.clone();
                    b2.extend_from_slice(b"y");
                    b = b2;
                } else {
                    let m = n + c.below(a.len() - n);
                    b[m] ^= 0x20;
                }
                "after a boundary"
            }
            11 => {
                b.extend_from_slice(a);
                "doubled"
            }
            12 => {
                b.reverse();
                "reversed"
            }
            13 => {
                b.insert(0, 0);
                "leading NUL"
            }
            14 if !b.is_empty() => {
                b[0] ^= 0x80;
                "top bit of the first byte"
            }
            15 => {
                let mut s = vec![];
                for x in a {
                    s.extend(format!("{:02x}", x).bytes())
                }
                b = s;
                "hex of the other"
            }
            16 if b.len() > 1 => {
                let n = c.below(b.len());
                b.remove(n);
                "one byte missing"
            }
            17 if b.len() > 1 => {
                let (x, y) = (c.below(b.len()), c.below(b.len()));
                b.swap(x, y);
                "two bytes exchanged"
            }
            18 => {
                use blake2::{Blake2b, Digest, digest::consts::U32};
                b = Blake2b::<U32>::digest(a).to_vec();
                "hash of the other"
            }
            _ => {
                let n = c.below(64);
                b = c.vec(n);
                "unrelated"
            }
        };
        if b != a {
            return (b, kind);
        }
        // the chosen mutation did nothing: try another
        let n = 1 + c.below(80);
        let mut v = a.to_vec();
        v.push(n as u8);
        if c.chance(1, 2) {
            return (v, "trailing byte");
        }
        if !a.is_empty() {
            let mut v = a.to_vec();
            let n = c.below(v.len() * 8);
            v[n / 8] ^= 1 << (n % 8);
            return (v, "one bit");
        }
    }
}

/// Two passwords that differ, and how
pub fn password_pair(c: &mut Case) -> (Vec<u8>, Vec<u8>, &'static str) {
    if c.chance(1, 3) {
        let (x, y, kind) = CONFUSABLE[c.below(CONFUSABLE.len())];
        let (mut x, mut y) = (x.to_vec(), y.to_vec());
        // the same within a longer password
        if c.chance(1, 4) {
            let n = c.below(40);
            let fill: Vec<u8> = (0..n).map(|_| b'a' + c.below(26) as u8).collect();
            x = [&fill[..], &x].concat();
            y = [&fill[..], &y].concat();
        }
        return if c.chance(1, 2) { (x, y, kind) } else { (y, x, kind) };
    }
    if c.chance(1, 12) {
        // lengths of zeros only, and differences far out
        let n = [31usize, 32, 63, 64, 96, 127, 128, 255, 4096, 65536, 1 << 20][c.below(11)];
        return match c.below(3) {
            0 => (vec![0; n], vec![0; n + 1], "number of zeros"),
            1 => (vec![0; n], vec![0; 2 * n], "number of zeros"),
            _ => {
                let mut a = c.vec(n);
                let mut b = a.clone();
                a.push(1);
                b.push(2);
                (a, b, "far out")
            }
        };
    }
    let a = base_password(c);
    let (b, kind) = other_password(c, &a);
    (a, b, kind)
}

/// Passwords for C02, so that also long ones are common
fn base_password(c: &mut Case) -> Vec<u8> {
    match c.below(5) {
        0 => {
            let n = [0, 1, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 300, 1000, 5000][c.below(18)];
            c.vec(n)
        }
        1 => b"Correct Horse Battery Staple".to_vec(),
        2 => {
            let n = 1 + c.below(30);
            (0..n).map(|_| 0x80 | c.below(128) as u8).collect()
        }
        _ => password(c),
    }
}

/// Two parties that must not end up sharing a key. `must_reject`: at least one must never complete.
pub fn judge_mismatch(c: &mut Case, p: &Proto, what: &str, must_reject: bool, i: &dyn Party, r: &dyn Party, w: impl Fn() -> String) {
    let (fi, fr) = (accepted(i), accepted(r));
    if let (Some(a), Some(b)) = (&fi, &fr) {
        c.count("both completed");
        c.check(a.key != b.key, &format!("{} shared key despite {}", p.name, what), || format!("{} key {}", w(), hex(&a.key)));
        c.check(!must_reject, &format!("{} both completed despite {}", p.name, what), &w);
    } else {
        c.count("at least one did not complete");
    }
}

/// Before some of the sessions that must fail: honest ones of either party, with somebody who agrees
/// with it, on the same thread and with the same users and secrets
pub fn earlier(c: &mut Case, p: &Proto, pr: &Pair) {
    if !c.chance(1, 4) {
        return;
    }
    c.count("preceded by honest sessions");
    let mut worlds = [false, true];
    if c.chance(1, 2) {
        worlds.reverse()
    }
    for left in worlds {
        let mut w = pr.clone();
        let (a, b) = if left { (&pr.i, &mut w.r) } else { (&pr.r, &mut w.i) };
        b.secret = a.secret.clone();
        b.ssid = a.ssid;
        b.role = if a.initiator() { PartyRole::Responder } else { PartyRole::Initiator };
        if p.wants_peer() {
            if let (true, Some(x)) = (c.chance(1, 2), a.peer) {
                b.id = x
            }
            b.peer = Some(a.id);
            let id = b.id;
            if left {
                w.i.peer = Some(id)
            } else {
                w.r.peer = Some(id)
            }
        }
        let (mut i, mut r) = ((p.mk)(&w.i), (p.mk)(&w.r));
        if w.i.initiator() {
            faithful(&mut *i, &mut *r, p.msgs.len() + 3);
        } else {
            faithful(&mut *r, &mut *i, p.msgs.len() + 3);
        }
    }
}

pub fn c02(th: bool) -> Plan {
    let mut groups = vec![];
    let mut v = pakes();
    v.extend(chips());
    v.extend(latkes());
    for p in v {
        let n = cases(&p, 2000, th).max(40);
        groups.push(group(format!("passwords {}", p.name), n, move |c| {
            let (a, b, kind) = password_pair(c);
            let mut pr = pair_with(c, &p, a.clone());
            if c.chance(1, 2) {
                pr.r.secret = b.clone();
            } else {
                pr.i.secret = b.clone();
            }
            earlier(c, &p, &pr);
            let (mut i, mut r) = ((p.mk)(&pr.i), (p.mk)(&pr.r));
            let t = faithful(&mut *i, &mut *r, p.msgs.len() + 3);
            c.eval();
            c.seen("kinds of difference", kind.as_bytes());
            c.nontrivial(&[&a[..], &[0xff], &b[..], p.name.as_bytes()].concat());
            judge_mismatch(c, &p, &format!("different passwords ({})", kind), p.confirms, &*i, &*r, || {
                format!("{} {} trace {:?} rejections {:?}", p.name, show_pair(&pr), t.sizes(), t.rej)
            });
            c.sample(|| format!("{} {}: {} vs {}: trace {:?} rejections {:?}", p.name, kind, hex(&pr.i.secret), hex(&pr.r.secret), t.sizes(), t.rej));
        }));
    }
    // every other value of one byte: any folding of byte values (of the password or of an encoding of it) shows
    let mut v = pakes();
    v.extend(chips());
    v.extend(latkes().into_iter().filter(|p| p.ibke == "fg" || p.ibke == "hmqv"));
    for p in v {
        let n = if p.kind == Kind::Pake { 16 } else { (8 / p.cost).max(1) };
        groups.push(group(format!("every byte value {}", p.name), n * if th { 10 } else { 1 }, move |c| {
            let n = 1 + c.below(40);
            let a: Vec<u8> = if c.chance(1, 2) { c.vec(n) } else { (0..n).map(|_| b"ABCDabcdXYZxyz0189 "[c.below(19)]).collect() };
            let at = c.below(n);
            for x in 0..=255u8 {
                let mut other = a.clone();
                other[at] = x;
                if other == a {
                    continue;
                }
                let mut pr = pair_with(c, &p, a.clone());
                pr.r.secret = other.clone();
                let (mut i, mut r) = ((p.mk)(&pr.i), (p.mk)(&pr.r));
                let t = faithful(&mut *i, &mut *r, p.msgs.len() + 3);
                c.eval();
                c.count("byte values tried");
                c.nontrivial(&[&a[..], &[0xff], &other[..], p.name.as_bytes()].concat());
                judge_mismatch(c, &p, "different passwords (one byte)", p.confirms, &*i, &*r, || {
                    format!("{} {} trace {:?} rejections {:?}", p.name, show_pair(&pr), t.sizes(), t.rej)
                });
            }
        }));
    }
    Plan {
        groups,
        rule: "one full session per case between two parties whose passwords differ by one of 21 kinds of mutation (one bit, case, NUL/space/newline, prefix, boundary, empty, order, re-encodings), over all PAKE, CHIP and LATKE stacks, and one session for every other value of one byte of a password; the monitor compares the keys both ends output. Every case is non-trivial (passwords differ); distinct by protocol and password pair.",
        need: vec![("kinds of difference", 50), ("nontrivial", 700), ("both completed", 50), ("at least one did not complete", 300), ("byte values tried", 3000), ("preceded by honest sessions", 200)],
        assumptions: vec![],
    }
}

/// Two parties of the same role, fed with each other's messages. Responders get a first message from
/// a third, honest party.
fn same_role(p: &Proto, a: &mut dyn Party, b: &mut dyn Party, third: Option<&mut dyn Party>) {
    let (mut ma, mut mb) = match third {
        None => (vec![], vec![]),
        Some(t) => match t.step(&[]) {
            Out::Msg(m) => (m.clone(), m),
            _ => (vec![], vec![]),
        },
    };
    let mut alive = [true, true];
    for _ in 0..p.msgs.len() + 2 {
        let mut outs: [Option<Vec<u8>>; 2] = [None, None];
        for k in 0..2 {
            let (w, m): (&mut dyn Party, &Vec<u8>) = if k == 0 { (a, &ma) } else { (b, &mb) };
            if !alive[k] {
                continue;
            }
            if w.done() {
                alive[k] = false;
                continue;
            }
            match w.step(m) {
                Out::Msg(o) => outs[k] = Some(o),
                Out::Nothing => outs[k] = Some(vec![]),
                Out::Reject(_) => alive[k] = false,
            }
        }
        ma = outs[1].take().unwrap_or_default();
        mb = outs[0].take().unwrap_or_default();
        if !alive[0] && !alive[1] {
            break;
        }
    }
}

pub fn c03(th: bool) -> Plan {
    let mut groups = vec![];
    for p in protos() {
        // session ids
        let q = p.clone();
        groups.push(group(format!("ssid {}", p.name), cases(&p, 600, th).max(12), move |c| {
            let mut pr = pair(c, &q);
            let other = if c.chance(3, 4) { near32(c, &pr.i.ssid) } else { any32(c) };
            if other == pr.i.ssid {
                return;
            }
            pr.r.ssid = other;
            earlier(c, &q, &pr);
            let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
            let t = faithful(&mut *i, &mut *r, q.msgs.len() + 3);
            c.eval();
            c.count("ssid disagreements");
            let must = q.confirms && q.name != "fg";
            c.nontrivial(&[&pr.i.ssid[..], &pr.r.ssid, q.name.as_bytes()].concat());
            judge_mismatch(c, &q, "different session ids", must, &*i, &*r, || format!("{} {} {:?} {:?}", q.name, show_pair(&pr), t.sizes(), t.rej));
            c.sample(|| format!("{} ssid {} vs {} {:?} {:?}", q.name, hex(&pr.i.ssid), hex(&pr.r.ssid), t.sizes(), t.rej));
        }));
        // roles
        let q = p.clone();
        groups.push(group(format!("roles {}", p.name), cases(&p, 300, th).max(8), move |c| {
            let mut pr = pair(c, &q);
            let both = if c.idx % 2 == 0 { PartyRole::Initiator } else { PartyRole::Responder };
            pr.i.role = both;
            pr.r.role = both;
            earlier(c, &q, &pr);
            let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
            if both == PartyRole::Responder {
                let mut th = pair_all(c, &q, pr.i.secret.clone(), pr.i.id, pr.r.id, pr.i.ssid).i;
                th.id = if c.chance(1, 2) { pr.i.id } else { pr.r.id };
                let mut t3 = (q.mk)(&th);
                same_role(&q, &mut *i, &mut *r, Some(&mut *t3));
            } else {
                same_role(&q, &mut *i, &mut *r, None);
            }
            c.eval();
            c.count(if both == PartyRole::Initiator { "both initiators" } else { "both responders" });
            c.nontrivial(&[&pr.i.ssid[..], &pr.i.rng_seed.to_le_bytes(), q.name.as_bytes(), b"roles"].concat());
            judge_mismatch(c, &q, "equal roles", q.confirms && both == PartyRole::Initiator, &*i, &*r, || format!("{} {}", q.name, show_pair(&pr)));
        }));
        // expected peers
        if p.wants_peer() {
            let q = p.clone();
            groups.push(group(format!("peer {}", p.name), cases(&p, 600, th).max(12), move |c| {
                let mut pr = pair(c, &q);
                let k = c.idx % 6;
                let (a, b) = (pr.i.id, pr.r.id);
                let what = match k {
                    0 => {
                        pr.i.peer = Some(near32(c, &b));
                        "initiator expects someone else"
                    }
                    1 => {
                        pr.r.peer = Some(near32(c, &a));
                        "responder expects someone else"
                    }
                    2 => {
                        pr.i.peer = Some(a);
                        "initiator expects itself"
                    }
                    3 => {
                        // it answers itself: somebody of its own name, who expects it
                        pr.r.id = a;
                        "initiator meets its own name"
                    }
                    4 => {
                        pr.i.id = b;
                        "responder meets its own name"
                    }
                    _ => {
                        // both expect the other way round: each believes to be the other
                        pr.i.peer = Some(a);
                        pr.r.peer = Some(b);
                        "both expect themselves"
                    }
                };
                earlier(c, &q, &pr);
            let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
                let t = faithful(&mut *i, &mut *r, q.msgs.len() + 3);
                c.eval();
                c.count("peer disagreements");
                c.seen("peer kinds", what.as_bytes());
                c.nontrivial(&[&pr.i.id[..], &pr.i.peer.unwrap(), &pr.r.peer.unwrap(), q.name.as_bytes()].concat());
                judge_mismatch(c, &q, what, q.confirms, &*i, &*r, || format!("{} {} {:?} {:?}", q.name, show_pair(&pr), t.sizes(), t.rej));
            }));
        }
        // authorities (for password-based ones this is C02)
        if p.kind == Kind::Ibke {
            let q = p.clone();
            groups.push(group(format!("authority {}", p.name), cases(&p, 600, th).max(12), move |c| {
                let mut pr = pair(c, &q);
                pr.r.secret = {
                    let (b, _) = other_password(c, &pr.i.secret);
                    b
                };
                earlier(c, &q, &pr);
            let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
                let t = faithful(&mut *i, &mut *r, q.msgs.len() + 3);
                c.eval();
                c.count("authority disagreements");
                c.nontrivial(&[&pr.i.secret[..], &pr.r.secret, q.name.as_bytes()].concat());
                judge_mismatch(c, &q, "different authorities", true, &*i, &*r, || format!("{} {} {:?} {:?}", q.name, show_pair(&pr), t.sizes(), t.rej));
            }));
        }
    }
    Plan {
        groups,
        rule: "one session per case between two parties that disagree in exactly one respect: session id (single bits at every end, or unrelated), role (both initiators crosswise, both responders fed from a third honest party), expected peer (one bit off, oneself, both swapped), authority. Distinct by protocol and the disagreeing values.",
        need: vec![("ssid disagreements", 200), ("both initiators", 80), ("both responders", 80), ("peer disagreements", 80), ("authority disagreements", 20), ("peer kinds", 6), ("preceded by honest sessions", 100)],
        assumptions: vec![],
    }
}
