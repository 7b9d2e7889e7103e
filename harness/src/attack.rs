//! C04, C05: an attacker on the wire.
use crate::core::*;
use crate::party::*;
use crate::sessions::judge_mismatch;
use crate::util::*;
use latke::PartyRole;

/// Encodings worth substituting for group elements: identities, low-order and non-canonical points
pub fn special_points() -> Vec<[u8; 32]> {
    let mut v = vec![[0u8; 32], [0xff; 32]];
    let mut one = [0u8; 32];
    one[0] = 1;
    v.push(one);
    let mut p = [0xffu8; 32];
    p[0] = 0xed;
    p[31] = 0x7f;
    v.push(p); // p
    p[0] = 0xec;
    v.push(p); // p - 1
    p[0] = 0xee;
    v.push(p); // p + 1
    // order-8 points of the Montgomery and Edwards curves
    for h in [
        "e0eb7a7c3b41b8ae1656e3faf19fc46ada098deb9c32b1fd866205165f49b800",
        "5f9c95bca3508c24b1d0b1559c83ef5b04445cc4581c8e86d8224eddd09f1157",
        "c7176a703d4dd84fba3c0b760d10670f2a2053fa2c39ccc64ec7fd7792ac037a",
        "26e8958fc2b227b045c3f489f2ef98f0d5dfac05d3c63339b13802886d53fc05",
        "e2f2ae0a6abc4e71a884a961c500515f58e30b6aa582dd8db6a65945e08d2d76", // Ristretto basepoint
        "5866666666666666666666666666666666666666666666666666666666666666", // Ed25519 basepoint
    ] {
        let mut b = [0u8; 32];
        for i in 0..32 {
            b[i] = u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()
        }
        v.push(b)
    }
    v
}

/// One structured modification of a message
pub fn mangle(c: &mut Case, m: &[u8], earlier: &[Vec<u8>]) -> (Vec<u8>, &'static str) {
    let mut b = m.to_vec();
    if b.is_empty() {
        let n = [1, 12, 32, 43, 44, 45, 64, 100, 736][c.below(9)];
        return (c.vec(n), "injected");
    }
    let n = b.len();
    let k = match c.below(18) {
        0 => {
            b.pop();
            "short by one"
        }
        1 => {
            b.push(c.below(256) as u8);
            "long by one"
        }
        2 => {
            let k = c.below(n);
            b.truncate(k);
            "truncated"
        }
        3 => {
            let k = 1 + c.below(80);
            let e = c.vec(k);
            b.extend(e);
            "extended"
        }
        4 => {
            b = vec![0; n];
            "zeros"
        }
        5 => {
            b = c.vec(n);
            "random"
        }
        6 => {
            let k = c.below(n);
            b.rotate_left(k);
            "rotated"
        }
        7 => {
            let e = b.clone();
            b.extend(e);
            "doubled"
        }
        8 | 9 => {
            // replace one 32-byte field
            if n >= 32 {
                let sp = special_points();
                let s = sp[c.below(sp.len())];
                let fields = n / 32;
                let off = if c.chance(1, 4) { c.below(n - 31) } else { 32 * c.below(fields) + (n % 32) * c.below(2) };
                let off = off.min(n - 32);
                b[off..off + 32].copy_from_slice(&s);
            }
            "special point"
        }
        10 => {
            // zero one field
            let l = [1, 12, 16, 32, 64][c.below(5)].min(n);
            let off = if c.chance(1, 2) { n - l } else { c.below(n - l + 1) };
            b[off..off + l].iter_mut().for_each(|x| *x = 0);
            "field zeroed"
        }
        11 => {
            let e = &earlier[c.below(earlier.len().max(1)).min(earlier.len().saturating_sub(1))..];
            if let Some(e) = e.first() {
                b = e.clone();
            }
            "an earlier message"
        }
        12 => {
            b.clear();
            "emptied"
        }
        13 => {
            b.remove(0);
            "first byte dropped"
        }
        14 => {
            let k = c.below(n * 8);
            b[k / 8] ^= 1 << (k % 8);
            let k = c.below(n * 8);
            b[k / 8] ^= 1 << (k % 8);
            "two bits"
        }
        15 => {
            for x in b.iter_mut() {
                *x = !*x
            }
            "inverted"
        }
        16 => {
            // last bytes only, as in a truncated comparison
            let l = 1 + c.below(31.min(n));
            for x in b[n - l..].iter_mut() {
                *x ^= 0x55
            }
            "tail"
        }
        _ => {
            // two fields exchanged
            if n >= 64 {
                let f = n / 32;
                let (x, y) = (c.below(f), c.below(f));
                for i in 0..32 {
                    b.swap(32 * x + i, 32 * y + i)
                }
            }
            "fields exchanged"
        }
    };
    (b, k)
}

pub fn c04(th: bool) -> Plan {
    let mut groups = vec![];
    for p in protos() {
        let q = p.clone();
        let total: usize = p.msgs.iter().sum();
        // every byte of every message (every bit, thorough), as far as the budget goes
        let units = if th { total * 8 } else { total };
        let n = units.min(if th { 40000 / p.cost } else { 1600 / p.cost });
        groups.push(group(format!("bits {}", p.name), n, move |c| {
            // spread over all positions: a stride coprime to the number of units
            let mut stride = (units as f64 * 0.618) as usize | 1;
            fn gcd(a: usize, b: usize) -> usize {
                if b == 0 { a } else { gcd(b, a % b) }
            }
            while gcd(stride, units) != 1 {
                stride += 2
            }
            let u = if n == units { c.idx % units } else { (c.idx * stride) % units };
            let (byte, bit) = if th { (u / 8, u % 8) } else { (u, c.below(8)) };
            let mut slot = 0;
            let mut off = byte;
            while off >= q.msgs[slot] {
                off -= q.msgs[slot];
                slot += 1;
            }
            let pr = pair(c, &q);
            crate::sessions::earlier(c, &q, &pr);
            let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
            let mut hit = false;
            let t = drive(&mut *i, &mut *r, q.msgs.len() + 3, &mut |k, m| {
                let mut m = m.to_vec();
                if k == slot && off < m.len() {
                    m[off] ^= 1 << bit;
                    hit = true;
                }
                m
            });
            if !c.check(hit, &format!("{} message sizes changed", q.name), || format!("{} slot {} byte {}: {}", q.name, slot, off, show_pair(&pr))) {
                return;
            }
            c.eval();
            c.count("bits flipped");
            c.seen("positions", format!("{} {} {}", q.name, slot, off).as_bytes());
            c.nontrivial(format!("{} {} {} {}", q.name, slot, off, bit).as_bytes());
            if t.rejected() {
                c.count("rejected");
            }
            judge_mismatch(c, &q, &format!("a flipped bit in message {}", slot), q.confirms, &*i, &*r, || {
                format!("{} message {} byte {} bit {}: {} {:?} {:?}", q.name, slot, off, bit, show_pair(&pr), t.sizes(), t.rej)
            });
            c.sample(|| format!("{} message {} byte {} bit {} -> sizes {:?} rejections {:?}", q.name, slot, off, bit, t.sizes(), t.rej));
        }));
        let q = p.clone();
        groups.push(group(format!("changes {}", p.name), cases(&p, 1200, th).max(40), move |c| {
            let pr = pair(c, &q);
            crate::sessions::earlier(c, &q, &pr);
            let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&pr.r));
            let several = c.chance(1, 5);
            let slot = c.idx % q.msgs.len();
            let mut changed = vec![];
            let mut sent: Vec<Vec<u8>> = vec![];
            let t = drive(&mut *i, &mut *r, q.msgs.len() + 3, &mut |k, m| {
                sent.push(m.to_vec());
                if k == slot || (several && c.chance(1, 2)) {
                    let (o, kind) = mangle(c, m, &sent[..sent.len() - 1]);
                    if o != m {
                        c.seen("kinds of change", kind.as_bytes());
                        changed.push((k, kind, o.clone()));
                    }
                    o
                } else {
                    m.to_vec()
                }
            });
            c.eval();
            if changed.is_empty() {
                return;
            }
            c.count("messages changed");
            c.nontrivial(format!("{} {:?}", q.name, changed).as_bytes());
            if t.rejected() {
                c.count("rejected");
            }
            let what = format!("message {} {}", changed[0].0, changed[0].1);
            judge_mismatch(c, &q, &what, q.confirms, &*i, &*r, || {
                format!(
                    "{} changed {:?}: {} {:?} {:?}",
                    q.name,
                    changed.iter().map(|x| (x.0, x.1, hex(&x.2))).collect::<Vec<_>>(),
                    show_pair(&pr),
                    t.sizes(),
                    t.rej
                )
            });
        }));
    }
    Plan {
        groups,
        rule: "one session per case with an attacker on the wire: a single flipped bit at positions spread over (small protocols: covering) every byte of every message, or a structured change (length, truncation, special points, zeroed or exchanged fields, injection into empty slots, replacement, several messages at once). Non-trivial: the delivered bytes differ from the sent ones; distinct by protocol, message, position/bytes.",
        need: vec![("bits flipped", 5000), ("positions", 3000), ("messages changed", 3000), ("kinds of change", 16), ("rejected", 3000), ("preceded by honest sessions", 1000)],
        assumptions: vec![],
    }
}

struct Sess {
    cfg: Cfg,
    p: Box<dyn Party>,
    /// messages sent, with how many this session had received by then
    sent: Vec<(Vec<u8>, usize)>,
    recv: Vec<Vec<u8>>,
    started: bool,
    dead: bool,
    mate: usize,
}

pub fn c05(th: bool) -> Plan {
    let mut groups = vec![];
    for p in protos() {
        let q = p.clone();
        groups.push(group(format!("pool {}", p.name), cases(&p, 700, th).max(30), move |c| pool(c, &q)));
        let q = p.clone();
        let v = parts(&q);
        if !v.is_empty() {
            let q = p.clone();
            let n = (v.len() * if th { 10 } else { 1 }).min(cases(&p, 1200, th));
            groups.push(group(format!("parts {}", p.name), n, move |c| {
                let at = if n >= v.len() { c.idx % v.len() } else { c.below(v.len()) };
                part(c, &q, v[at])
            }));
        }
        let q = p.clone();
        groups.push(group(format!("splice {}", p.name), cases(&p, 700, th).max(30), move |c| splice(c, &q)));
    }
    Plan {
        groups,
        rule: "pool: 6 concurrent sessions of up to 3 users (two session ids, both roles) whose attacker delivers, in random order, the expected message or one recorded in any session (replayed, reflected, cross-delivered, out of order). splice: two complete or partial sessions, with one message replaced by its counterpart of the other session, by an own earlier one, by a part of any recorded message that has its length, or with one of its fields replaced by part of a recorded message, or never sent by its sender. parts: a message that is never sent, in whose place every part of its length of every recorded message is delivered in turn (fields at multiples of 32 bytes, and the end). The monitor checks matching conversations: equal keys only between the two ends of one conversation, and an accepting party of an authenticated protocol has exactly one peer that sent precisely what it received. Distinct by the delivered history.",
        need: vec![("foreign messages delivered", 5000), ("accepted sessions", 2000), ("matched pairs", 500), ("rejections", 3000), ("reflected", 300), ("replayed", 300), ("parts of messages", 2000), ("parts in place of messages", 1000), ("patchwork", 300)],
        assumptions: vec!["signed DH sessions use distinct session ids per pair of sessions, as its specification requires: its two messages carry no other freshness"],
    }
}

fn step(s: &mut Sess, m: &[u8]) -> Out {
    let o = s.p.step(m);
    match &o {
        Out::Reject(_) => s.dead = true,
        Out::Msg(x) => {
            if s.started || !s.cfg.initiator() {
                s.recv.push(m.to_vec())
            }
            s.sent.push((x.clone(), s.recv.len()));
        }
        Out::Nothing => {
            if s.started || !s.cfg.initiator() {
                s.recv.push(m.to_vec())
            }
            if !s.p.done() {
                s.sent.push((vec![], s.recv.len()));
            }
        }
    }
    s.started = true;
    if s.p.done() {
        s.dead = true
    }
    o
}

fn pool(c: &mut Case, q: &Proto) {
    let ids = {
        let (a, b) = two_ids(c);
        let mut x = near32(c, &a);
        while x == b || x == a {
            x = c.bytes32();
        }
        [a, b, x]
    };
    let users: Vec<u64> = (0..3).map(|_| c.u64()).collect();
    let secret = password(c);
    let s1 = any32(c);
    let s2 = near32(c, &s1);
    let unique = q.name == "sigdh";
    let mut ss: Vec<Sess> = vec![];
    for k in 0..3 {
        let (a, b) = match c.below(4) {
            0 => (0, 1),
            1 => (1, 0),
            2 => (0, 2),
            _ => (2, 1),
        };
        let ssid = if unique {
            let mut s = s1;
            s[5] ^= k as u8;
            s
        } else if c.chance(1, 2) {
            s1
        } else {
            s2
        };
        for (role, me, other) in [(PartyRole::Initiator, a, b), (PartyRole::Responder, b, a)] {
            let cfg = Cfg {
                role,
                ssid,
                secret: secret.clone(),
                id: ids[me],
                peer: q.wants_peer().then(|| ids[other]),
                user_seed: users[me],
                rng_seed: c.u64(),
                flip: None,
                user_flip: None,
            };
            ss.push(Sess { p: (q.mk)(&cfg), cfg, sent: vec![], recv: vec![], started: false, dead: false, mate: ss.len() ^ 1 });
        }
    }
    // how likely the attacker lets the intended message through
    let faithful = [50, 75, 90, 96][c.below(4)];
    let mut hist: Vec<u8> = vec![];
    for _ in 0..(ss.len() * (q.msgs.len() + 3)) {
        let live: Vec<usize> = (0..ss.len()).filter(|&k| !ss[k].dead).collect();
        if live.is_empty() {
            break;
        }
        let k = live[c.below(live.len())];
        if ss[k].cfg.initiator() && !ss[k].started {
            step(&mut ss[k], &[]);
            continue;
        }
        let mate = ss[k].mate;
        let want = ss[k].recv.len();
        let intended = ss[mate].sent.get(want).map(|x| x.0.clone());
        let m = if c.below(100) < faithful {
            match intended {
                Some(m) => m,
                None => continue,
            }
        } else {
            // anything recorded, preferably of the right place in the protocol
            let mut all: Vec<(usize, usize)> = vec![];
            for (j, s) in ss.iter().enumerate() {
                for l in 0..s.sent.len() {
                    if c.chance(1, 3) || l == want {
                        all.push((j, l))
                    }
                }
            }
            if all.is_empty() {
                continue;
            }
            let (j, l) = all[c.below(all.len())];
            let mut m = ss[j].sent[l].0.clone();
            if let (Some(x), true) = (&intended, c.chance(1, 3)) {
                m = patchwork(c, &ss, x);
            }
            if Some(&m) != intended.as_ref() {
                c.count("foreign messages delivered");
                if j == k {
                    c.count("reflected")
                }
                if ss[k].recv.contains(&m) {
                    c.count("replayed")
                }
            }
            m
        };
        hist.extend(k.to_le_bytes());
        hist.extend(&m);
        if let Out::Reject(_) = step(&mut ss[k], &m) {
            c.count("rejections")
        }
    }
    c.eval();
    c.nontrivial(&[&hist[..], q.name.as_bytes()].concat());
    judge_pool(c, q, &ss);
}

/// Matching conversations
fn judge_pool(c: &mut Case, q: &Proto, ss: &[Sess]) {
    let fins: Vec<Option<Fin>> = ss.iter().map(|s| accepted(&*s.p)).collect();
    let desc = |k: usize| {
        let s = &ss[k];
        format!(
            "session {} [{}] sent {:?} received {:?} -> {:?}",
            k,
            show(&s.cfg),
            s.sent.iter().map(|m| hex(&m.0[..m.0.len().min(8)])).collect::<Vec<_>>(),
            s.recv.iter().map(|m| hex(&m[..m.len().min(8)])).collect::<Vec<_>>(),
            accepted(&*s.p).map(|f| (f.id.map(|i| hex(&i)), hex(&f.key)))
        )
    };
    for k in 0..ss.len() {
        let Some(f) = &fins[k] else { continue };
        c.count("accepted sessions");
        let mut sharing = 0;
        for j in 0..ss.len() {
            if j == k {
                continue;
            }
            let Some(g) = &fins[j] else { continue };
            if g.key != f.key {
                continue;
            }
            sharing += 1;
            let (i, r) = if ss[k].cfg.initiator() { (k, j) } else { (j, k) };
            let sent = |x: usize| ss[x].sent.iter().map(|m| &m.0).collect::<Vec<_>>();
            let same = ss[i].cfg.initiator()
                && !ss[r].cfg.initiator()
                && ss[i].cfg.ssid == ss[r].cfg.ssid
                && sent(i) == ss[r].recv.iter().collect::<Vec<_>>()
                && sent(r) == ss[i].recv.iter().collect::<Vec<_>>()
                && (!q.has_ids() || (fins[i].as_ref().unwrap().id == Some(ss[r].cfg.id) && fins[r].as_ref().unwrap().id == Some(ss[i].cfg.id)))
                && (!q.wants_peer() || (ss[i].cfg.peer == Some(ss[r].cfg.id) && ss[r].cfg.peer == Some(ss[i].cfg.id)));
            if same {
                c.count("matched pairs");
            }
            c.check(same, &format!("{} shared key without matching conversation", q.name), || format!("{} / {}", desc(k), desc(j)));
        }
        c.check(sharing <= 1, &format!("{} three parties share a key", q.name), || desc(k));
        if q.confirms {
            // someone must have sent exactly what this party received, in this conversation
            let me = &ss[k];
            let ok = (0..ss.len()).any(|j| {
                let t = &ss[j];
                if j == k || t.cfg.initiator() == me.cfg.initiator() {
                    return false;
                }
                if t.cfg.ssid != me.cfg.ssid && q.name != "fg" {
                    return false;
                }
                if q.has_ids() && f.id != Some(t.cfg.id) {
                    return false;
                }
                if q.wants_peer() && me.cfg.peer != Some(t.cfg.id) {
                    return false;
                }
                if t.sent.len() < me.recv.len() {
                    return false;
                }
                let n = me.recv.len();
                // SIGMA: a responder completes before its proof over the initiator's nonce is checked; a
                // changed nonce shows at the initiator, as a lost last message would
                let skip = if q.name.starts_with("sigma-") && !me.cfg.initiator() { 32 } else { 0 };
                let cut = |l: usize, m: &[u8]| m[if l == 0 { skip.min(m.len()) } else { 0 }..].to_vec();
                if !(0..n).all(|l| cut(l, &t.sent[l].0) == cut(l, &me.recv[l])) {
                    return false;
                }
                let rc = if n == 0 { 0 } else { t.sent[n - 1].1 };
                (0..rc).all(|l| me.sent.get(l).map(|m| &m.0) == Some(&t.recv[l]))
            });
            c.check(ok, &format!("{} accepted without a matching peer", q.name), || {
                format!("{} among {}", desc(k), (0..ss.len()).map(&desc).collect::<Vec<_>>().join(" | "))
            });
        }
    }
}

/// Where in which recorded message (of the first session or, below `slot`, of this one) the message
/// of a slot could have its like: all multiples of a field, and the end
fn parts(q: &Proto) -> Vec<(usize, usize, usize, usize)> {
    let mut v = vec![];
    for slot in 0..q.msgs.len() {
        let l = q.msgs[slot];
        for k in 0..2 {
            for j in 0..if k == 0 { q.msgs.len() } else { slot } {
                if l == 0 || q.msgs[j] < l {
                    continue;
                }
                let room = q.msgs[j] - l;
                let mut at: Vec<usize> = (0..=room / 32).map(|x| x * 32).collect();
                at.push(room);
                at.dedup();
                v.extend(at.into_iter().map(|a| (slot, k, j, a)));
            }
        }
    }
    v
}

/// A session one of whose messages never gets sent; its place takes a part of a recorded one
fn part(c: &mut Case, q: &Proto, (slot, k, j, at): (usize, usize, usize, usize)) {
    let pr = pair(c, q);
    let mut ss: Vec<Sess> = vec![];
    for k in 0..2 {
        let (mut i, mut r) = (pr.i.clone(), pr.r.clone());
        i.rng_seed = c.u64();
        r.rng_seed = c.u64();
        if k == 1 && q.name == "sigdh" {
            i.ssid = near32(c, &pr.i.ssid);
            r.ssid = i.ssid;
        }
        for cfg in [i, r] {
            ss.push(Sess { p: (q.mk)(&cfg), cfg, sent: vec![], recv: vec![], started: false, dead: false, mate: ss.len() ^ 1 });
        }
    }
    let mut all: [Vec<Vec<u8>>; 2] = Default::default();
    for s in 0..2 {
        let mut cur = vec![];
        for n in 0..q.msgs.len() + 1 {
            let w = 2 * s + n % 2;
            if s == 1 && n == slot {
                let Some(m) = all[k].get(j).filter(|m| m.len() >= at + q.msgs[slot]) else {
                    return c.count("no such part");
                };
                cur = m[at..at + q.msgs[slot]].to_vec();
                all[s].push(cur.clone());
                ss[w].dead = true;
                continue;
            }
            if ss[w].dead {
                break;
            }
            match step(&mut ss[w], &cur) {
                Out::Msg(m) => cur = m,
                Out::Nothing => cur = vec![],
                Out::Reject(_) => c.count("rejections"),
            }
            all[s].push(cur.clone());
        }
    }
    c.eval();
    c.count("parts of messages");
    c.seen("parts in place of messages", format!("{}{}{}{}{}", q.name, slot, k, j, at).as_bytes());
    c.nontrivial(&[all[1].concat(), q.name.clone().into_bytes()].concat());
    judge_pool(c, q, &ss);
}

/// A part, of this length, of some recorded message
fn window(c: &mut Case, ss: &[Sess], len: usize) -> Option<Vec<u8>> {
    let all: Vec<&Vec<u8>> = ss.iter().flat_map(|s| s.sent.iter().map(|m| &m.0)).filter(|m| m.len() >= len).collect();
    if all.is_empty() || len == 0 {
        return None;
    }
    let m = all[c.below(all.len())];
    let at = offset(c, m.len(), len);
    Some(m[at..at + len].to_vec())
}

/// Where a field of `len` bytes may start in a message of `n`
fn offset(c: &mut Case, n: usize, len: usize) -> usize {
    let room = n - len;
    match c.below(4) {
        0 => room,
        1 | 2 => 32 * c.below(room / 32 + 1),
        _ => c.below(room + 1),
    }
}

/// The intended message with a field replaced by part of a recorded message, at the same place or not
fn patchwork(c: &mut Case, ss: &[Sess], intended: &[u8]) -> Vec<u8> {
    let mut m = intended.to_vec();
    for _ in 0..1 + c.below(2) {
        let len = match c.below(5) {
            0 => m.len() / 2,
            1 => 64,
            2 => 16,
            3 => 12,
            _ => 32,
        };
        if len == 0 || m.len() < len {
            continue;
        }
        let at = offset(c, m.len(), len);
        let same: Vec<Vec<u8>> = ss.iter().flat_map(|s| s.sent.iter().map(|x| &x.0)).filter(|x| x.len() == m.len() && **x != intended).map(|x| x[at..at + len].to_vec()).collect();
        let part = if c.chance(1, 2) && !same.is_empty() { Some(same[c.below(same.len())].clone()) } else { window(c, ss, len) };
        if let Some(p) = part {
            m[at..at + len].copy_from_slice(&p)
        }
    }
    m
}

/// Two sessions of the same two users; one message of the second is replaced by a recorded one
fn splice(c: &mut Case, q: &Proto) {
    let pr = pair(c, q);
    let mut ss: Vec<Sess> = vec![];
    let n = q.msgs.len();
    let variant = c.below(4);
    for k in 0..2 {
        let (mut i, mut r) = (pr.i.clone(), pr.r.clone());
        i.rng_seed = c.u64();
        r.rng_seed = c.u64();
        if k == 1 {
            if variant == 1 || q.name == "sigdh" {
                // another session id
                i.ssid = near32(c, &pr.i.ssid);
                r.ssid = i.ssid;
            }
            if variant == 2 {
                // roles exchanged
                std::mem::swap(&mut i, &mut r);
                i.role = PartyRole::Initiator;
                r.role = PartyRole::Responder;
            }
            if variant == 3 && !q.wants_peer() {
                // another responder
                r.id = near32(c, &r.id);
                if r.id == i.id {
                    return;
                }
                r.user_seed = c.u64();
            }
        }
        for cfg in [i, r] {
            ss.push(Sess { p: (q.mk)(&cfg), cfg, sent: vec![], recv: vec![], started: false, dead: false, mate: ss.len() ^ 1 });
        }
    }
    // first session: honest, complete or cut short
    let stop = if c.chance(2, 3) { n + 2 } else { 1 + c.below(n) };
    let mut cur = vec![];
    for k in 0..stop {
        let w = k % 2;
        if ss[w].dead {
            break;
        }
        match step(&mut ss[w], &cur) {
            Out::Msg(m) => cur = m,
            _ => cur = vec![],
        }
    }
    // second session with one foreign message
    let slot = c.below(n);
    let how = c.below(6).min(4);
    cur = vec![];
    let mut replaced = false;
    // its real sender may never come to send it
    let withhold = c.chance(1, 3);
    for k in 0..n + 2 {
        let w = 2 + k % 2;
        if ss[w].dead {
            break;
        }
        if k == slot && withhold {
            c.count("withheld");
            ss[w].dead = true;
            continue;
        }
        if k == slot + 1 {
            // what is delivered at `slot`: from the first session, or reflected, or the one before
            let sender = k.wrapping_sub(1) % 2;
            let pos = slot / 2;
            let cand: Option<Vec<u8>> = match how {
                0 => ss[sender].sent.get(pos).map(|m| m.0.clone()),
                1 => ss[w].sent.last().map(|m| m.0.clone()),
                3 => window(c, &ss, q.msgs[slot]),
                4 => {
                    let base = if cur.is_empty() || withhold { ss[sender].sent.get(pos).map(|m| m.0.clone()) } else { Some(cur.clone()) };
                    base.map(|b| patchwork(c, &ss, &b))
                }
                _ => ss[w].recv.last().cloned().or_else(|| ss[1 - sender].sent.get(pos).map(|m| m.0.clone())),
            };
            if let Some(m) = cand {
                if withhold || m != cur {
                    c.count("foreign messages delivered");
                    c.count(["spliced", "reflected", "replayed", "parts of messages", "patchwork"][how]);
                    replaced = true;
                    cur = m;
                }
            }
        }
        match step(&mut ss[w], &cur) {
            Out::Msg(m) => cur = m,
            Out::Nothing => cur = vec![],
            Out::Reject(_) => c.count("rejections"),
        }
    }
    // afterwards the untouched end of the first session may still receive its real last message
    c.eval();
    if replaced {
        let h: Vec<u8> = ss.iter().flat_map(|s| s.recv.iter().flatten().copied().collect::<Vec<_>>()).collect();
        c.nontrivial(&[&h[..], &[slot as u8, how as u8], q.name.as_bytes()].concat());
    }
    judge_pool(c, q, &ss);
}
