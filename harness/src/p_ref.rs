//! C14, C15, C16: interoperation with the reference peers.
use crate::core::*;
use crate::entropy::{self, HRng};
use crate::mock;
use crate::party::*;
use crate::refs::{ibke::*, kdf, pake::*, saber, stack::*};
use crate::util::*;
use latke::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::*};
use latke::PartyRole;

/// Judges a session in which party `real` (0: initiator) is the code under test
fn judge(c: &mut Case, p: &Proto, pr: &Pair, real: usize, t: &Trace, i: &dyn Party, r: &dyn Party) {
    c.eval();
    c.count(&format!("sessions {}", if real == 0 { "real initiator" } else { "real responder" }));
    c.add("messages", t.evs.iter().filter(|e| e.sent.is_some()).count() as u64);
    c.seen("transcripts", &t.bytes());
    c.nontrivial(&t.bytes());
    let ctx = || format!("{} with the {} under test, {}; trace sizes {:?}", p.name, if real == 0 { "initiator" } else { "responder" }, show_pair(pr), t.sizes());
    for w in 0..2 {
        if let Some(e) = &t.rej[w] {
            let who = if w == real { "code under test rejected the reference" } else { "reference rejected the code under test" };
            c.fail(format!("{}: {}", p.name, who), format!("{}: {}", e, ctx()));
            return;
        }
    }
    let (fi, fr) = (accepted(i), accepted(r));
    let (Some(fi), Some(fr)) = (fi, fr) else {
        c.fail(format!("{}: not finished with the reference", p.name), ctx());
        return;
    };
    c.check(fi.key == fr.key, &format!("{}: key differs from the reference", p.name), || {
        format!("{} vs {}; {}", hex(&fi.key), hex(&fr.key), ctx())
    });
    if p.has_ids() {
        c.check(
            fi.id == Some(pr.r.id) && fr.id == Some(pr.i.id),
            &format!("{}: wrong peer identity with the reference", p.name),
            || format!("{:?} {:?}; {}", fi.id.map(|x| hex(&x)), fr.id.map(|x| hex(&x)), ctx()),
        );
    }
    let mut want = p.msgs.clone();
    let mut got = t.sizes();
    while got.last() == Some(&0) {
        got.pop();
    }
    while want.last() == Some(&0) {
        want.pop();
    }
    c.check(got == want, &format!("{}: message sizes", p.name), || format!("{:?} instead of {:?}; {}", got, want, ctx()));
    c.seen("keys", &fi.key);
}

fn interop(c: &mut Case, p: &Proto, mk_ref: &dyn Fn(&Cfg) -> Box<dyn Party>) {
    let pr = pair(c, p);
    for real in 0..2 {
        let mut i = if real == 0 { (p.mk)(&pr.i) } else { mk_ref(&pr.i) };
        let mut r = if real == 1 { (p.mk)(&pr.r) } else { mk_ref(&pr.r) };
        let t = faithful(&mut *i, &mut *r, 16);
        judge(c, p, &pr, real, &t, &*i, &*r);
        if real == 0 {
            c.sample(|| format!("{} {} sizes {:?}", p.name, show_pair(&pr), t.sizes()));
        }
    }
}

pub fn c14(th: bool) -> Plan {
    let mut groups = vec![];
    for p in pakes() {
        let n = cases(&p, 1200, th);
        groups.push(group(format!("{}/interop", p.name), n, move |c| {
            let k = p.pake;
            interop(c, &p, &|cfg| Box::new(RefPake::new(k, cfg)));
        }));
    }
    // CAKE's password encryption, seen through its messages
    let n = if th { 1500 } else { 150 };
    groups.push(group("cake/cipher", n, move |c| {
        let p = pakes().remove(0);
        let pr = pair(c, &p);
        let m0 = entropy::mark();
        let mut i = (p.mk)(&pr.i);
        let mut r = (p.mk)(&pr.r);
        let t = faithful(&mut *i, &mut *r, 8);
        let ent = entropy::since(m0);
        c.eval();
        if t.evs.len() < 2 {
            c.fail("cake: stopped", format!("{:?} {}", t.rej, show_pair(&pr)));
            return;
        }
        let (e1, e2) = (&t.evs[0].delivered, &t.evs[1].delivered);
        let dec = |dom: u8, ssid: &[u8; 32], pw: &[u8], m: &[u8]| {
            let mut b = m.to_vec();
            ic_dec(dom, ssid, pw, &mut b);
            b
        };
        let pk = dec(0, &pr.i.ssid, &pr.i.secret, e1);
        let ct = dec(1, &pr.i.ssid, &pr.i.secret, e2);
        // the plaintexts are exactly the KEM's: recomputed from the randomness actually drawn
        let mut ok = false;
        let seeds: Vec<[u8; 32]> = (0..ent.len() / 32).map(|k| ent[32 * k..32 * k + 32].try_into().unwrap()).collect();
        'f: for a in &seeds {
            for b in &seeds {
                if saber::keypair_cpa(&saber::LIGHT, a, b).0 == pk {
                    ok = true;
                    break 'f;
                }
            }
        }
        c.count(if ok { "public keys recomputed" } else { "public keys not recomputed" });
        let mut ok = false;
        let key = i.fin().map(|f| f.key).unwrap_or_default();
        for r in &seeds {
            if saber::enc_cpa(&saber::LIGHT, &pk, &key, r) == ct {
                ok = true
            }
        }
        c.count(if ok { "ciphertexts recomputed" } else { "ciphertexts not recomputed" });
        c.check(ok, "cake: ciphertext is not an encapsulation of the key to the decrypted public key", || show_pair(&pr));
        // the wrong domain, session id or password gives unrelated plaintexts
        let ssid2 = near32(c, &pr.i.ssid);
        let mut pw2 = pr.i.secret.clone();
        pw2.push(0);
        for (what, x) in [
            ("domain", dec(1, &pr.i.ssid, &pr.i.secret, e1)),
            ("session id", dec(0, &ssid2, &pr.i.secret, e1)),
            ("password", dec(0, &pr.i.ssid, &pw2, e1)),
        ] {
            let same = x.iter().zip(&pk).filter(|(a, b)| a == b).count();
            c.check(same < 40, "cake: cipher keys not separated", || format!("{}: {} equal bytes; {}", what, same, show_pair(&pr)));
            c.count("wrong-key decryptions");
        }
        // every ciphertext bit reaches the whole plaintext and back: the real party decrypts our
        // re-encryption of a plaintext that differs in one bit, and the ciphertexts share nothing
        let bit = c.below(pk.len() * 8);
        let mut pk2 = pk.clone();
        pk2[bit / 8] ^= 1 << (bit % 8);
        let mut e = pk2.clone();
        ic_enc(0, &pr.i.ssid, &pr.i.secret, &mut e);
        for (a, b) in [(0, 16), (16, 32), (32, 672)] {
            let same = e[a..b].iter().zip(&e1[a..b]).filter(|(x, y)| x == y).count();
            c.check(same * 3 < b - a, "cake: plaintext bit does not reach the whole ciphertext", || {
                format!("bit {} leaves {} of bytes {}..{} unchanged; {}", bit, same, a, b, show_pair(&pr))
            });
        }
        c.add("avalanche segments", 3);
        // and the responder under test encapsulates to exactly that key
        let mut r = (p.mk)(&pr.r);
        let m0 = entropy::mark();
        if let Out::Msg(m) = r.step(&e) {
            let ent = entropy::since(m0);
            let ct = dec(1, &pr.i.ssid, &pr.i.secret, &m);
            let key = r.fin().map(|f| f.key).unwrap_or_default();
            let ok = (0..ent.len() / 32).any(|k| saber::enc_cpa(&saber::LIGHT, &pk2, &key, ent[32 * k..32 * k + 32].try_into().unwrap()) == ct);
            c.check(ok, "cake: responder does not encapsulate to the decrypted key", || format!("bit {}; {}", bit, show_pair(&pr)));
            c.count("responses to a chosen key");
            c.nontrivial(&m);
        } else {
            c.fail("cake: responder refuses a public key", show_pair(&pr));
        }
        c.seen("messages", e1);
        c.seen("messages", e2);
    }));
    Plan {
        groups,
        rule: "one session with the reference per role, PAKE and case; distinct transcripts count",
        need: vec![("sessions real initiator", 1), ("sessions real responder", 1), ("public keys recomputed", 1), ("responses to a chosen key", 1), ("ciphertexts recomputed", 1)],
        assumptions: vec![
            "the crates blake2, base64, pake-cpace, spake2, deck-farfalle and curve25519-dalek are trusted",
            "the reference follows the constants (labels, roles, field order) of the repository's documentation where the papers leave them open",
        ],
    }
}

pub fn c15(th: bool) -> Plan {
    let mut groups = vec![];
    for p in ibkes() {
        let n = cases(&p, 3000, th);
        groups.push(group(format!("{}/interop", p.name), n, move |c| {
            let k = p.ibke;
            let ctr = std::cell::Cell::new(0u64);
            interop(c, &p, &|cfg| {
                ctr.set(ctr.get() + 1);
                let a = Auth::named(k, &cfg.secret);
                let u = User::new(k, &a, cfg.id, Dev::Honest, &mut HRng::new(cfg.user_seed));
                Box::new(RefIbke::with(k, cfg.initiator(), cfg.ssid, a.mpk(), u, Dev::Honest, cfg.rng()))
            });
        }));
    }
    Plan {
        groups,
        rule: "one session with the reference per role, exchange and case; distinct transcripts count",
        need: vec![("sessions real initiator", 1), ("sessions real responder", 1)],
        assumptions: vec![
            "ed25519-dalek, x25519-dalek, curve25519-dalek, blake2 and chacha20 are trusted; Dilithium2 is called through the bindings (C20, C21 judge it)",
            "the reference follows the constants (labels, roles, field order) of the repository where the papers leave them open",
        ],
    }
}

macro_rules! for_ibkes {
    ($m:ident, $($a:expr),*) => {
        $m!("fg", FgIbkeC, $($a),*);
        $m!("hmqv", IdHmqvC, $($a),*);
        $m!("sigdh", IdSigDh, $($a),*);
        $m!("sigma-ed25519", IdSigmaREd25519, $($a),*);
        $m!("sigma-dilithium2", IdSigmaRDilithium2, $($a),*);
    };
}

pub fn c16(th: bool) -> Plan {
    let mut groups = vec![];
    for p in latkes() {
        let n = cases(&p, 480, th);
        groups.push(group(format!("{}/interop", p.name), n, move |c| {
            let (k, i) = (p.pake, p.ibke);
            interop(c, &p, &|cfg| Box::new(RefLatke::new(k, i, cfg)));
        }));
    }
    for p in chips() {
        let n = cases(&p, 1500, th);
        groups.push(group(format!("{}/interop", p.name), n, move |c| {
            let k = p.pake;
            interop(c, &p, &|cfg| Box::new(RefChip::new(k, cfg)));
        }));
    }
    macro_rules! input {
        ($name:expr, $i:ty, $groups:expr, $th:expr) => {
            let n = if $th { 4000 } else { 400 };
            $groups.push(group(format!("{}/authority and PAKE input", $name), n, |c| {
                let pw = password(c);
                let (a, b) = two_ids(c);
                let ssid = any32(c);
                let mpk = Auth::of_password($name, &pw).mpk();
                for role in [PartyRole::Initiator, PartyRole::Responder] {
                    for peer in [None, Some(b), Some(a)] {
                        // any generator, any operating-system entropy
                        let seed = c.u64();
                        let got = mock::pake_input::<$i>(&pw, &a, role, ssid, peer, seed);
                        let ids = peer.map(|p| if role == PartyRole::Initiator { (a, p) } else { (p, a) });
                        let want = latke_pake_input(&mpk, ids);
                        c.eval();
                        c.check(got.input == want, &format!("{}: PAKE input", $name), || {
                            format!("{:?} peer {:?}: {} instead of {}; password {} id {}", role, peer.map(|x| hex(&x)), hex(&got.input), hex(&want), hex(&pw), hex(&a))
                        });
                        c.check(got.ssid == ssid && got.role == role, &format!("{}: PAKE session id or role", $name), || {
                            format!("{:?} {} instead of {:?} {}", got.role, hex(&got.ssid), role, hex(&ssid))
                        });
                        c.nontrivial(&got.input);
                        c.count("PAKE inputs");
                    }
                }
                // a different password has a different authority
                let mut pw2 = pw.clone();
                match c.below(4) {
                    0 => pw2.push(0),
                    1 if !pw2.is_empty() => {
                        pw2.pop();
                    }
                    2 if !pw2.is_empty() => {
                        let k = c.below(pw2.len() * 8);
                        pw2[k / 8] ^= 1 << (k % 8)
                    }
                    _ => pw2.insert(0, b' '),
                }
                let got = mock::pake_input::<$i>(&pw2, &a, PartyRole::Initiator, ssid, None, 1);
                c.check(got.input != mpk && got.input == Auth::of_password($name, &pw2).mpk(), &format!("{}: authority of another password", $name), || {
                    format!("{} {}", hex(&pw), hex(&pw2))
                });
                c.seen("authorities", &got.input);
                c.seen("authorities", &mpk);
                c.count("password pairs");
            }));
        };
    }
    for_ibkes!(input, groups, th);
    let n = if th { 6000 } else { 600 };
    groups.push(group("chip/PAKE input", n, |c| {
        let p = &chips()[0];
        let pr = pair(c, p);
        for real in 0..2 {
            mock::with(|s| s.pake_news.clear());
            let (rc, oc) = if real == 0 { (&pr.i, &pr.r) } else { (&pr.r, &pr.i) };
            let mut me = mock::chip_over(rc);
            let mut other = RefChip::new("cpace", oc);
            let (a, b);
            if real == 0 {
                a = me.step(&[]);
                let Out::Msg(m) = &a else { c.fail("chip: first message", show_pair(&pr)); return };
                b = other.step(m);
                let Out::Msg(m) = &b else { return };
                me.step(m);
                // the reference builds its input with its next step
                other.step(&[1; 48]);
            } else {
                a = other.step(&[]);
                let Out::Msg(m) = &a else { return };
                b = me.step(m);
                let Out::Msg(m) = &b else { c.fail("chip: first message", show_pair(&pr)); return };
                let Out::Msg(m) = other.step(m) else { return };
                me.step(&m);
            }
            let got = mock::with(|s| s.pake_news.last().cloned());
            c.eval();
            let Some(got) = got else {
                c.fail("chip: no PAKE was started", show_pair(&pr));
                return;
            };
            c.check(got.input == other.pake_input, "chip: PAKE input", || format!("{} instead of {}; {}", hex(&got.input), hex(&other.pake_input), show_pair(&pr)));
            c.check(got.ssid == rc.ssid && got.role == rc.role, "chip: PAKE session id or role", || show_pair(&pr));
            c.nontrivial(&got.input);
            c.count("CHIP PAKE inputs");
        }
    }));
    // LATKE runs the PAKE's own messages, and the inner exchange gets session id, role and authority
    let n = if th { 4000 } else { 400 };
    groups.push(group("latke/inner sessions", n, |c| {
        let p = latkes().remove(if c.chance(1, 2) { 0 } else { 1 });
        let pr = pair(c, &p);
        let msgs = [vec![5, 6], vec![7, 8, 9], vec![4, 3, 2, 1]][c.below(3)].clone();
        let mut s = mock::Script::blank();
        s.pake_msgs = msgs.clone();
        for _ in 0..2 + c.below(4) {
            let n = 1 + c.below(200);
            let m = c.vec(n);
            s.inner.push(m)
        }
        s.inner_key = [c.bytes32(); 2];
        s.inner_id = [pr.r.id, pr.i.id];
        let inner = s.inner.clone();
        mock::set(s);
        let (mut i, mut r) = (mock::mock_latke(&pr.i), mock::mock_latke(&pr.r));
        let t = faithful(&mut *i, &mut *r, 24);
        c.eval();
        let ctx = || format!("PAKE {:?} inner {:?}; {}", msgs, inner.iter().map(|m| m.len()).collect::<Vec<_>>(), show_pair(&pr));
        let (Some(fi), Some(fr)) = (accepted(&*i), accepted(&*r)) else {
            c.fail("latke: composition does not finish", format!("{:?} {}", t.rej, ctx()));
            return;
        };
        c.check(fi.key == fr.key && fi.id == Some(pr.r.id) && fr.id == Some(pr.i.id), "latke: outputs of the composition", ctx);
        mock::with(|s| {
            let want = h64(&s.inner_mpk[0]);
            c.check(
                s.inner_mpk.len() == 2 && s.inner_mpk.iter().all(|m| h64(m) == want) && s.inner_mpk[0][..] == s.pake_news[0].input[..48],
                "latke: authority handed to the inner exchange",
                ctx,
            );
            let mut news = s.inner_news.clone();
            news.sort_by_key(|n| mock::ix(n.1));
            c.check(news == vec![(pr.i.ssid, PartyRole::Initiator), (pr.r.ssid, PartyRole::Responder)], "latke: session id or role of the inner exchange", ctx);
            // each inner message arrived exactly once, in order
            let got: Vec<Vec<u8>> = s.inner_got.iter().filter(|g| g.1 > 0).map(|g| g.2.clone()).collect();
            c.check(got == inner, "latke: inner messages not delivered in order", || format!("{:?}; {}", got.iter().map(|m| m.len()).collect::<Vec<_>>(), ctx()));
            // as were the PAKE's
            let got: Vec<usize> = s.pake_got.iter().map(|g| g.1.len()).filter(|l| *l > 0).collect();
            c.check(got == msgs, "latke: PAKE messages not delivered in order", || format!("{:?}; {}", got, ctx()));
        });
        c.count("scripted compositions");
        c.nontrivial(&t.bytes());
        let _ = kdf::h256(&[]);
    }));
    Plan {
        groups,
        rule: "one session with the reference per role, stack and case, and one recorded PAKE input per password, role and peer model; distinct transcripts and inputs count",
        need: vec![("sessions real initiator", 1), ("sessions real responder", 1), ("PAKE inputs", 1), ("CHIP PAKE inputs", 1), ("scripted compositions", 1)],
        assumptions: vec!["as C14 and C15; rand_chacha's ChaCha12 is trusted"],
    }
}
