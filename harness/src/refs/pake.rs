//! Reference CAKE, CPace and KC-SPAKE2 peers
use super::{kdf::*, saber};
use crate::core::guard;
use crate::entropy::HRng;
use crate::party::{Cfg, Fin, Out, Party};
use base64::{engine::general_purpose::STANDARD, Engine};
use crypto_permutation::{DeckFunction, Reader, Writer};
use deck_farfalle::{kravatte::KravatteConfig, Farfalle};
use pake_cpace::{CPace, Step1Out};
use rand_core::RngCore;
use spake2::{Ed25519Group, Identity, Password, Spake2};

pub fn deck(key: &[u8], pre: u8, x: &[u8], post: u8, n: usize) -> Vec<u8> {
    let mut f = Farfalle::<KravatteConfig>::init_default(key);
    let mut w = f.input_writer();
    w.write_bytes(&[&[pre], x, &[post]].concat()).unwrap();
    w.finish();
    let mut out = vec![0; n];
    f.output_reader().write_to_slice(&mut out).unwrap();
    out
}
fn xor(a: &mut [u8], b: &[u8]) {
    for (x, y) in a.iter_mut().zip(b) {
        *x ^= y
    }
}
/// The rounds of the wide block cipher: (true: left into right, prefix, suffix)
pub const ROUNDS: [(bool, u8, u8); 4] = [(true, b'h', 0), (false, b'g', 1), (true, b'g', 0), (false, b'h', 1)];
pub fn wbc(key: &[u8], b: &mut [u8], rounds: impl Iterator<Item = (bool, u8, u8)>) {
    let n = b.len();
    for (down, pre, post) in rounds {
        let (l, r) = b.split_at_mut(16);
        let (src, dst): (&[u8], &mut [u8]) = if down { (l, r) } else { (r, l) };
        // 'h' only touches the first block, 'g' all
        let w = if pre == b'h' { 16 } else { dst.len() };
        let m = deck(key, pre, src, post, w);
        xor(&mut dst[..w], &m);
    }
    debug_assert_eq!(n, b.len());
}
pub fn ic_key(domain: u8, ssid: &[u8], pw: &[u8]) -> [u8; 32] {
    expand32(&h256(&[pw]), &[&[domain], ssid])
}
pub fn ic_enc(domain: u8, ssid: &[u8], pw: &[u8], b: &mut [u8]) {
    wbc(&ic_key(domain, ssid, pw), b, ROUNDS.into_iter())
}
pub fn ic_dec(domain: u8, ssid: &[u8], pw: &[u8], b: &mut [u8]) {
    wbc(&ic_key(domain, ssid, pw), b, ROUNDS.into_iter().rev())
}

pub struct RefPake {
    kind: String,
    initiator: bool,
    ssid: [u8; 32],
    pw: Vec<u8>,
    rng: HRng,
    step: usize,
    pub done: bool,
    pub key: Option<[u8; 32]>,
    cake_sk: Vec<u8>,
    cpace: Option<Step1Out>,
    spake: Option<(Spake2<Ed25519Group>, Vec<u8>)>,
    mac0: [u8; 32],
}

impl RefPake {
    pub fn new(kind: &str, c: &Cfg) -> RefPake {
        Self::with(kind, c.initiator(), c.ssid, &c.secret, c.rng())
    }
    pub fn with(kind: &str, initiator: bool, ssid: [u8; 32], pw: &[u8], mut rng: HRng) -> RefPake {
        let spake = (kind == "kcspake2").then(|| {
            Spake2::<Ed25519Group>::start_symmetric_with_rng(&Password::new(pw), &Identity::new(&ssid), &mut rng)
        });
        RefPake {
            kind: kind.into(),
            initiator,
            ssid,
            pw: pw.to_vec(),
            rng,
            step: if initiator { 0 } else { 1 },
            done: false,
            key: None,
            cake_sk: vec![],
            cpace: None,
            spake,
            mac0: [0; 32],
        }
    }
    fn r32(&mut self) -> [u8; 32] {
        let mut b = [0; 32];
        self.rng.fill_bytes(&mut b);
        b
    }
    fn go(&mut self, msg: &[u8]) -> Out {
        let s = self.step;
        self.step += 2;
        let bad = |w: &str| Out::Reject(format!("reference: {}", w));
        let p = &saber::LIGHT;
        match (self.kind.as_str(), s) {
            ("cake", 0) => {
                let (a, b) = (self.r32(), self.r32());
                let (mut pk, sk) = saber::keypair_cpa(p, &a, &b);
                self.cake_sk = sk;
                ic_enc(0, &self.ssid, &self.pw, &mut pk);
                Out::Msg(pk)
            }
            ("cake", 1) => {
                if msg.len() != 672 {
                    return bad("length");
                }
                let mut pk = msg.to_vec();
                ic_dec(0, &self.ssid, &self.pw, &mut pk);
                let (m, r) = (self.r32(), self.r32());
                let mut ct = saber::enc_cpa(p, &pk, &m, &r);
                ic_enc(1, &self.ssid, &self.pw, &mut ct);
                self.key = Some(m);
                self.done = true;
                Out::Msg(ct)
            }
            ("cake", 2) => {
                if msg.len() != 736 {
                    return bad("length");
                }
                let mut ct = msg.to_vec();
                ic_dec(1, &self.ssid, &self.pw, &mut ct);
                self.key = Some(saber::dec_cpa(p, &self.cake_sk, &ct));
                self.done = true;
                Out::Nothing
            }
            ("cpace", _) => {
                let pw = STANDARD.encode(&self.pw);
                let (a, b) = ("latke_cpace_initiator", "latke_cpace_responder");
                match s {
                    0 => {
                        let c = CPace::step1(&pw, a, b, Some(self.ssid)).unwrap();
                        let m = c.packet().to_vec();
                        self.cpace = Some(c);
                        Out::Msg(m)
                    }
                    1 => {
                        let Ok(pk) = msg.try_into() else { return bad("length") };
                        let Ok(st) = CPace::step2(&pk, &pw, a, b, Some(self.ssid)) else { return bad("step 2") };
                        self.key = Some(st.shared_keys().k1);
                        self.done = true;
                        Out::Msg(st.packet().to_vec())
                    }
                    _ => {
                        let Ok(pk) = msg.try_into() else { return bad("length") };
                        let Ok(k) = self.cpace.as_ref().unwrap().step3(&pk) else { return bad("step 3") };
                        self.key = Some(k.k1);
                        self.done = true;
                        Out::Nothing
                    }
                }
            }
            ("kcspake2", 0) => Out::Msg(self.spake.as_ref().unwrap().1.clone()),
            ("kcspake2", 1) | ("kcspake2", 2) => {
                let (st, mine) = self.spake.take().unwrap();
                let (other, mac) = if s == 1 {
                    (msg, None)
                } else {
                    if msg.len() < 32 {
                        return bad("length");
                    }
                    let (a, b) = msg.split_at(msg.len() - 32);
                    (a, Some(b))
                };
                let Ok(k) = st.finish(other) else { return bad("spake2") };
                let (mi, mr) = if self.initiator { (&mine[..], other) } else { (other, &mine[..]) };
                let t = expand(&k, &[&self.pw, b"latke_kc_spake2", mi, mr, &k], 96);
                self.mac0.copy_from_slice(&t[..32]);
                self.key = Some(t[64..].try_into().unwrap());
                match mac {
                    None => Out::Msg([&mine[..], &t[32..64]].concat()),
                    Some(m) => {
                        if m != &t[32..64] {
                            return bad("mac1");
                        }
                        self.done = true;
                        Out::Msg(t[..32].to_vec())
                    }
                }
            }
            ("kcspake2", 3) => {
                if msg != self.mac0 {
                    return bad("mac0");
                }
                self.done = true;
                Out::Nothing
            }
            _ => bad("no such step"),
        }
    }
}

impl Party for RefPake {
    fn step(&mut self, msg: &[u8]) -> Out {
        match guard(|| self.go(msg)) {
            Ok(o) => o,
            Err(e) => Out::Reject(format!("reference panicked: {}", e)),
        }
    }
    fn done(&self) -> bool {
        self.done
    }
    fn fin(&self) -> Option<Fin> {
        if !self.done {
            return None;
        }
        self.key.map(|key| Fin { id: None, key })
    }
}
