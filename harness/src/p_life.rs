//! C08, C09: life cycle of sessions.
use crate::attack::mangle;
use crate::core::*;
use crate::mock;
use crate::party::*;
use crate::refs::{kdf::open, stack::Ratchet};
use crate::util::*;
use latke::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::*};

/// Slot of the last step of a role: the sender of the last message finishes by sending it
fn last_slot(p: &Proto, w: usize) -> usize {
    let n = p.msgs.len();
    if (n - 1) % 2 == w {
        n - 1
    } else {
        n
    }
}

/// Watches one party through every step
struct Watch<'a> {
    p: &'a Proto,
    w: usize,
    party: Box<dyn Party>,
    /// Successful steps
    good: usize,
    want: usize,
    fin: Option<Option<Fin>>,
    /// A LATKE party that takes a step after a message was manipulated only pretends to go on
    simulated: bool,
}
impl<'a> Watch<'a> {
    fn new(p: &'a Proto, w: usize, cfg: &Cfg) -> Watch<'a> {
        Watch {
            p,
            w,
            party: (p.mk)(cfg),
            good: 0,
            want: (last_slot(p, w) - w) / 2 + 1,
            fin: None,
            simulated: false,
        }
    }
    fn name(&self) -> &'static str {
        if self.w == 0 {
            "initiator"
        } else {
            "responder"
        }
    }
    /// Judges the state between two steps
    fn look(&mut self, c: &mut Case, after: &str, rejected: bool, ctx: &dyn Fn() -> String) {
        let (done, fin) = (self.party.done(), self.party.fin());
        let (pn, n, good, want) = (&self.p.name, self.name(), self.good, self.want);
        c.count("state inspections");
        if let Some(old) = &self.fin {
            let ok = c.check(done, &format!("{} {} is no longer complete after {}", pn, n, after), ctx);
            if ok {
                c.check(*old == fin, &format!("{} {} changes its output after {}", pn, n, after), || {
                    format!("{:?} then {:?}; {}", old.as_ref().map(|f| hex(&f.key)), fin.as_ref().map(|f| hex(&f.key)), ctx())
                });
            }
            c.count("inspections after completion");
            return;
        }
        if !done {
            c.check(fin.is_none(), &format!("{} {} hands out a key before completion ({})", pn, n, after), || {
                format!("after {} of {} steps; {}", good, want, ctx())
            });
            c.check(good < want, &format!("{} {} is not complete after its last step", pn, n), || format!("{} steps; {}", good, ctx()));
            c.count("inspections before completion");
            return;
        }
        c.check(!rejected, &format!("{} {} completes with a rejected message", pn, n), ctx);
        c.check(good == want, &format!("{} {} reports completion early", pn, n), || format!("after {} of {} steps; {}", good, want, ctx()));
        if self.simulated {
            c.check(fin.is_none(), &format!("{} {} yields a key after a message was manipulated", pn, n), ctx);
            c.count("simulated completions");
        } else {
            c.check(fin.is_some(), &format!("{} {} is complete without a key", pn, n), ctx);
        }
        c.count("completions");
        self.fin = Some(fin);
    }
    fn step(&mut self, c: &mut Case, m: &[u8], after: &str, ctx: &dyn Fn() -> String) -> Out {
        let o = self.party.step(m);
        let rejected = matches!(o, Out::Reject(_));
        if !rejected && self.fin.is_none() {
            self.good += 1
        }
        self.look(c, after, rejected, ctx);
        o
    }
}

pub fn c08(th: bool) -> Plan {
    let mut groups = vec![];
    for p in protos() {
        let q = p.clone();
        groups.push(group(format!("life {}", p.name), cases(&p, 700, th), move |c| {
            let pr = pair(c, &q);
            let tamper = if c.chance(1, 3) { None } else { Some(c.below(q.msgs.len())) };
            let mut log: Vec<Vec<u8>> = vec![vec![]];
            let mut what = "a faithful message";
            let ctxp = format!("{} tampered slot {:?} {}", q.name, tamper, show_pair(&pr));
            let ctx = || ctxp.clone();
            let mut ws = [Watch::new(&q, 0, &pr.i), Watch::new(&q, 1, &pr.r)];
            c.eval();
            for w in ws.iter_mut() {
                w.look(c, "creation", false, &ctx)
            }
            let mut cur: Vec<u8> = vec![];
            let mut tampered = false;
            for k in 0..=q.msgs.len() {
                let w = &mut ws[k % 2];
                if w.fin.is_some() {
                    break;
                }
                w.simulated = tampered && q.latke();
                match w.step(c, &cur, what, &ctx) {
                    Out::Msg(m) => cur = m,
                    Out::Nothing => cur = vec![],
                    Out::Reject(_) => {
                        c.count("rejections observed");
                        // nothing that follows may turn the rejection into a key
                        for _ in 0..3 {
                            let (m, _) = mangle(c, &cur.clone(), &log);
                            if matches!(w.step(c, &m, "a message after a rejection", &ctx), Out::Reject(_)) {
                                c.count("rejections observed");
                            }
                            if w.fin.is_some() {
                                // only possible if that message was acceptable in itself
                                break;
                            }
                        }
                        break;
                    }
                }
                log.push(cur.clone());
                what = "a faithful message";
                if tamper == Some(k) {
                    let (m, kind) = mangle(c, &cur, &log);
                    if m != cur {
                        tampered = true;
                        c.seen("manipulations", kind.as_bytes());
                        what = "a manipulated message";
                    }
                    cur = m;
                }
            }
            if tamper.is_none() {
                c.check(ws.iter().all(|w| w.fin.is_some()), &format!("{} does not complete", q.name), ctx);
            }
            // late messages: nothing, replays, own messages, noise
            for w in ws.iter_mut() {
                if w.fin.is_none() {
                    continue;
                }
                for _ in 0..6 {
                    let m = match c.below(5) {
                        0 => vec![],
                        1 | 2 => log[c.below(log.len())].clone(),
                        3 => mangle(c, &log[log.len() - 1].clone(), &log).0,
                        _ => {
                            let n = c.below(300);
                            c.vec(n)
                        }
                    };
                    let o = w.step(c, &m, "a late message", &ctx);
                    c.count(match o {
                        Out::Reject(_) => "late messages refused",
                        Out::Nothing => "late messages ignored",
                        Out::Msg(_) => "late messages answered",
                    });
                }
            }
            c.seen("protocols", q.name.as_bytes());
            c.nontrivial(&log.concat());
            c.sample(ctx);
        }));
    }
    Plan {
        groups,
        rule: "one session per case, in two thirds of them with one message manipulated; completion, key and identity are inspected after creation and after every step of both parties, again after each of three further messages to a party that rejected and each of six late messages to a party that completed; distinct by transcript",
        need: vec![
            ("protocols", 41),
            ("completions", 1000),
            ("rejections observed", 500),
            ("inspections before completion", 3000),
            ("inspections after completion", 3000),
            ("simulated completions", 300),
        ],
        assumptions: vec!["panics raised by a session on a message count as rejections of that message"],
    }
}

/// Something a LATKE party cannot decrypt
fn junk(c: &mut Case, genuine: &[u8], want: usize) -> (Vec<u8>, &'static str) {
    let n = match c.below(8) {
        0 => 1,
        1 => 43,
        2 => 44,
        3 => 45,
        4 => want + 1,
        5 => want.max(2) - 1,
        6 => 1 + c.below(9000),
        _ => want.max(1),
    };
    match c.below(6) {
        0 if genuine.len() > 1 => {
            let mut m = genuine.to_vec();
            let k = c.below(m.len() * 8);
            m[k / 8] ^= 1 << (k % 8);
            (m, "one bit flipped")
        }
        1 if genuine.len() > 1 => {
            let mut m = genuine.to_vec();
            let k = 1 + c.below(m.len() - 1);
            m.truncate(k);
            (m, "truncated")
        }
        2 if !genuine.is_empty() => {
            let mut m = genuine.to_vec();
            let k = 1 + c.below(100);
            m.extend(c.vec(k));
            (m, "extended")
        }
        3 => (vec![0; n], "zeros"),
        _ => (c.vec(n), "noise"),
    }
}

/// Runs both parties faithfully up to the slot where the victim is to be given junk, then junk only.
/// Returns the victim's outputs.
fn starve(c: &mut Case, p: &Proto, pr: &Pair, parties: (Box<dyn Party>, Box<dyn Party>), slot: usize, ctx: &dyn Fn() -> String) -> Option<Vec<Vec<u8>>> {
    let (mut i, mut r) = parties;
    let _ = pr;
    let mut cur: Vec<u8> = vec![];
    for k in 0..slot {
        let w = if k % 2 == 0 { &mut i } else { &mut r };
        match w.step(&cur) {
            Out::Msg(m) => cur = m,
            Out::Nothing => cur = vec![],
            Out::Reject(e) => {
                c.fail(format!("{}: honest prefix rejected", p.name), format!("slot {}: {}; {}", k, e, ctx()));
                return None;
            }
        }
    }
    let v = if slot % 2 == 0 { &mut i } else { &mut r };
    let end = last_slot(p, slot % 2);
    let mut out = vec![];
    let mut s = slot;
    let mut genuine = cur;
    while s <= end {
        let want_in = p.msgs[s - 1];
        let (m, kind) = junk(c, &genuine, want_in);
        c.seen("kinds of junk", format!("{} {}", kind, m.len().min(50)).as_bytes());
        c.check(!v.done(), &format!("{}: failed session ends early", p.name), ctx);
        let o = v.step(&m);
        c.count("undecryptable messages");
        match o {
            Out::Msg(x) => {
                c.check(s < p.msgs.len() && x.len() == p.msgs[s], &format!("{}: wrong size of a simulated message", p.name), || {
                    format!("slot {}: {} instead of {:?} after {} of {} bytes; {}", s, x.len(), p.msgs.get(s), kind, m.len(), ctx())
                });
                c.count("simulated messages");
                out.push(x);
            }
            Out::Nothing => {
                c.check(s == p.msgs.len(), &format!("{}: no answer from a failed session", p.name), || format!("slot {}; {}", s, ctx()));
            }
            Out::Reject(e) => {
                c.fail(format!("{}: aborts on an undecryptable message", p.name), format!("slot {} {} of {} bytes: {}; {}", s, kind, m.len(), e, ctx()));
                return None;
            }
        }
        c.check(v.fin().is_none(), &format!("{}: failed session yields a key", p.name), || format!("slot {}; {}", s, ctx()));
        genuine = vec![];
        s += 2;
    }
    c.check(v.done(), &format!("{}: failed session does not come to its normal end", p.name), ctx);
    c.check(v.fin().is_none(), &format!("{}: failed session yields a key", p.name), ctx);
    c.count("failed sessions followed to their end");
    Some(out)
}

fn enc_slots(p: &Proto) -> Vec<usize> {
    let np = (p.pake_msgs() + 1) / 2 * 2;
    (np + 1..=p.msgs.len()).collect()
}

pub fn c09(th: bool) -> Plan {
    let mut groups = vec![];
    for p in latkes() {
        let q = p.clone();
        groups.push(group(format!("junk {}", p.name), cases(&p, 900, th), move |c| {
            let pr = pair(c, &q);
            let slots = enc_slots(&q);
            let slot = slots[if c.idx < slots.len() { c.idx } else { c.below(slots.len()) }];
            let ctxp = format!("{} junk from slot {} {}", q.name, slot, show_pair(&pr));
            let ctx = || ctxp.clone();
            c.eval();
            let parties = ((q.mk)(&pr.i), (q.mk)(&pr.r));
            let Some(o) = starve(c, &q, &pr, parties, slot, &ctx) else { return };
            // the same again with other randomness: nothing repeats
            let mut pr2 = Pair { i: pr.i.clone(), r: pr.r.clone() };
            pr2.i.rng_seed = c.u64();
            pr2.r.rng_seed = c.u64();
            let parties = ((q.mk)(&pr2.i), (q.mk)(&pr2.r));
            let Some(o2) = starve(c, &q, &pr2, parties, slot, &ctx) else { return };
            let all: Vec<&Vec<u8>> = o.iter().chain(&o2).collect();
            for a in 0..all.len() {
                for b in 0..a {
                    c.check(all[a] != all[b], &format!("{}: simulated messages repeat", q.name), ctx);
                }
                // nonces too
                let nz = |m: &Vec<u8>| m.len() >= 44 && m[m.len() - 44..m.len() - 32] != [0; 12];
                c.check(nz(all[a]), &format!("{}: simulated message without nonce", q.name), ctx);
            }
            c.seen("protocols and slots", format!("{} {}", q.name, slot).as_bytes());
            c.nontrivial(&o.concat());
            c.sample(ctx);
        }));
        if p.pake != "kcspake2" {
            let q = p.clone();
            groups.push(group(format!("wrong password {}", p.name), cases(&p, 500, th), move |c| {
                let pr = pair(c, &q);
                let mut r2 = pr.r.clone();
                r2.secret.push(c.below(256) as u8);
                let (mut i, mut r) = ((q.mk)(&pr.i), (q.mk)(&r2));
                let t = faithful(&mut *i, &mut *r, q.msgs.len() + 2);
                c.eval();
                let ctx = || format!("{} {} other password {}; {:?}", q.name, show_pair(&pr), hex(&r2.secret), t.rej);
                c.check(!t.rejected() && !t.stuck, &format!("{}: aborts with the wrong password", q.name), ctx);
                let mut got = t.sizes();
                got.truncate(q.msgs.len());
                c.check(got == q.msgs && t.evs.len() == q.msgs.len() + 1, &format!("{}: message sizes reveal the wrong password", q.name), || format!("{:?} instead of {:?}; {}", t.sizes(), q.msgs, ctx()));
                c.check(i.done() && r.done(), &format!("{}: no normal end with the wrong password", q.name), ctx);
                c.check(i.fin().is_none() && r.fin().is_none(), &format!("{}: key with the wrong password", q.name), ctx);
                c.count("wrong-password sessions");
                c.nontrivial(&t.bytes());
            }));
        }
    }
    // with a known PAKE key: what a failed session sends passes for real
    fn known<I: latke::IdentityBasedKeyExchange + 'static>(c: &mut Case, q: &Proto) {
        let pr = pair(c, q);
        let mut s = mock::Script::blank();
        s.pake_msgs = q.msgs[..2].to_vec();
        let k = c.bytes32();
        s.pake_key = Some([k; 2]);
        mock::set(s);
        let slots: Vec<usize> = (3..=q.msgs.len()).collect();
        let slot = slots[c.below(slots.len())];
        let ctxp = format!("{} over a scripted PAKE, junk from slot {} {}", q.name, slot, show_pair(&pr));
        let ctx = || ctxp.clone();
        c.eval();
        let Some(o) = starve(c, q, &pr, (mock::latke_over::<I>(&pr.i), mock::latke_over::<I>(&pr.r)), slot, &ctx) else { return };
        let mut nonces = std::collections::HashSet::new();
        for (n, m) in o.iter().enumerate() {
            let pos = slot - 2 + 2 * n;
            let p = open(&Ratchet::at(&k, &pr.i.ssid, pos), m);
            c.check(p.as_ref().map(|p| p.len() + OVERHEAD == m.len()).unwrap_or(false), &format!("{}: simulated message is not an authentic ciphertext", q.name), || format!("message {}; {}", pos, ctx()));
            c.check(nonces.insert(m[m.len() - 44..m.len() - 32].to_vec()), &format!("{}: simulated messages repeat a nonce", q.name), ctx);
            c.count("simulated messages decrypted");
        }
        c.nontrivial(&o.concat());
    }
    for (name, f) in [
        ("fg", known::<FgIbkeC> as fn(&mut Case, &Proto)),
        ("hmqv", known::<IdHmqvC>),
        ("sigdh", known::<IdSigDh>),
        ("sigma-ed25519", known::<IdSigmaREd25519>),
        ("sigma-dilithium2", known::<IdSigmaRDilithium2>),
    ] {
        // the CPace stacks have the two-message PAKE that the script imitates
        for p in latkes().into_iter().filter(|p| p.ibke == name && p.pake == "cpace") {
            groups.push(group(format!("format {} {:?}", name, p.kind), cases(&p, 600, th), move |c| f(c, &p)));
        }
    }
    // genuine messages later do not bring a failed session back
    groups.push(group("no way back", if th { 8000 } else { 800 }, |c| {
        let q = latkes().remove(1);
        let pr = pair(c, &q);
        let mut s = mock::Script::blank();
        let n = 3 + c.below(6);
        for _ in 0..n {
            let l = 1 + c.below(120);
            let m = c.vec(l);
            s.inner.push(m)
        }
        let np = 2 + c.below(3);
        s.pake_msgs = (0..np).map(|k| 5 + k).collect();
        let even = (np + 1) / 2 * 2;
        s.pake_key = Some([c.bytes32(); 2]);
        let inner = s.inner.clone();
        mock::set(s);
        let slot = even + c.below(n);
        let (mut i, mut r) = (mock::mock_latke(&pr.i), mock::mock_latke(&pr.r));
        let mut broken = vec![];
        let t = drive(&mut *i, &mut *r, even + n + 2, &mut |k, m| {
            if k != slot {
                return m.to_vec();
            }
            let mut m = m.to_vec();
            let b = (pr.i.user_seed as usize) % (m.len().max(1) * 8);
            if !m.is_empty() {
                m[b / 8] ^= 1 << (b % 8);
            }
            broken = m.clone();
            m
        });
        c.eval();
        let w = (slot + 1) % 2;
        let v: &dyn Party = if w == 0 { &*i } else { &*r };
        let ctx = || format!("inner {:?} PAKE messages {} flipped at slot {}; {:?} {}", inner.iter().map(|m| m.len()).collect::<Vec<_>>(), np, slot, t.rej, show_pair(&pr));
        c.check(!t.rejected() && !t.stuck, "latke: aborts after one corrupted message", ctx);
        c.check(v.fin().is_none(), "latke: a session comes back after an undecryptable message", ctx);
        let want: Vec<usize> = inner.iter().map(|m| m.len() + OVERHEAD).collect();
        c.check(t.sizes().len() >= even + n && t.sizes()[even..even + n] == want[..], "latke: sizes after a corrupted message", || format!("{:?}; {}", t.sizes(), ctx()));
        mock::with(|s| {
            let late = s.inner_got.iter().any(|g| mock::ix(g.0) == w && g.1 >= slot + 1 - even);
            c.check(!late, "latke: the inner exchange ran after an undecryptable message", ctx);
        });
        c.count("corrupted scripted sessions");
        c.nontrivial(&t.bytes());
        c.nontrivial(&broken);
    }));
    Plan {
        groups,
        rule: "one LATKE session per case whose party is given undecryptable messages from one slot on (30 stacks × every slot × kinds and sizes of junk), and sessions with a wrong password; non-trivial: distinct sequences of answers",
        need: vec![
            ("protocols and slots", 70),
            ("failed sessions followed to their end", 1000),
            ("wrong-password sessions", 200),
            ("simulated messages decrypted", 100),
            ("corrupted scripted sessions", 100),
        ],
        assumptions: vec!["a zero-length message is the protocol's own hand-over message, not a ciphertext"],
    }
}
