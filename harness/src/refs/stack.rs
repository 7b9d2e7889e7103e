//! Reference LATKE (with the encrypted, ratcheted channel) and CHIP peers
use super::{ibke::*, kdf::*, pake::RefPake};
use crate::core::guard;
use crate::entropy::HRng;
use crate::party::{Cfg, Fin, Out, Party};
use curve25519_dalek::{ristretto::CompressedRistretto, RistrettoPoint, Scalar};
use rand_core::RngCore;

/// The ratcheted encryption of LATKE, for one endpoint
#[derive(Clone)]
pub struct Ratchet {
    chain: [u8; 32],
    pub key: Vec<u8>,
}
impl Ratchet {
    pub fn new(k: &[u8; 32], ssid: &[u8; 32]) -> Ratchet {
        Ratchet { chain: expand32(k, &[b"init chain key", ssid]), key: expand(k, &[b"init msg key", ssid], 64) }
    }
    pub fn next(&mut self) {
        let c = self.chain;
        self.chain = expand32(&c, &[b"chain key"]);
        self.key = expand(&c, &[b"msg key"], 64);
    }
    /// Key of message number `n` of the encrypted phase (0-based)
    pub fn at(k: &[u8; 32], ssid: &[u8; 32], n: usize) -> Vec<u8> {
        let mut r = Self::new(k, ssid);
        for _ in 0..n {
            r.next()
        }
        r.key
    }
}

/// Encrypted channel around an inner exchange
pub struct RefEue {
    pub r: Ratchet,
    /// Index of the next message in the encrypted conversation
    pub inner: Box<dyn Party>,
    rng: HRng,
    /// Plaintexts received and sent
    pub log: Vec<Vec<u8>>,
}
impl RefEue {
    pub fn new(k: &[u8; 32], ssid: &[u8; 32], inner: Box<dyn Party>, rng: HRng) -> RefEue {
        RefEue { r: Ratchet::new(k, ssid), inner, rng, log: vec![] }
    }
    /// `first`: nothing was received yet and this side speaks
    fn run(&mut self, first: bool, m: &[u8]) -> Out {
        let pt = if first {
            vec![]
        } else {
            // an empty message stays empty, but has its own key
            let p = if m.is_empty() { Some(vec![]) } else { open(&self.r.key, m) };
            self.r.next();
            let Some(p) = p else { return Out::Reject("reference: decryption".into()) };
            self.log.push(p.clone());
            p
        };
        match self.inner.step(&pt) {
            Out::Msg(o) => {
                self.log.push(o.clone());
                let mut n = [0; 12];
                self.rng.fill_bytes(&mut n);
                let c = if o.is_empty() { vec![] } else { seal(&self.r.key, &n, &o) };
                self.r.next();
                Out::Msg(c)
            }
            Out::Nothing => {
                self.r.next();
                Out::Nothing
            }
            x => x,
        }
    }
}

/// A user's LATKE password file, in the clear
#[derive(Clone)]
pub struct RefPwfile {
    pub mpk: Vec<u8>,
    pub user: User,
    /// A thief checks nothing
    pub lenient: bool,
}
impl RefPwfile {
    pub fn new(ibke: &str, pw: &[u8], id: [u8; 32], rng: &mut HRng) -> RefPwfile {
        let a = Auth::of_password(ibke, pw);
        RefPwfile { mpk: a.mpk(), user: User::new(ibke, &a, id, Dev::Honest, rng), lenient: false }
    }
}

pub fn latke_pake_input(mpk: &[u8], ids: Option<([u8; 32], [u8; 32])>) -> Vec<u8> {
    match ids {
        None => mpk.to_vec(),
        Some((i, r)) => [mpk, &i, &r].concat(),
    }
}

pub struct RefLatke {
    initiator: bool,
    ssid: [u8; 32],
    pake: Box<dyn Party>,
    /// Makes the inner exchange once the PAKE is done
    mk: Option<Box<dyn FnOnce() -> Box<dyn Party>>>,
    pub eue: Option<RefEue>,
    tr: Vec<u8>,
    rng: HRng,
}
impl RefLatke {
    pub fn new(pake: &str, ibke: &str, c: &Cfg) -> RefLatke {
        let f = RefPwfile::new(ibke, &c.secret, c.id, &mut HRng::new(c.user_seed));
        Self::with_pwfile(pake, ibke, c, f, c.id, Dev::Honest)
    }
    /// `claim`: the identity claimed towards the PAKE
    pub fn with_pwfile(pake: &str, ibke: &str, c: &Cfg, f: RefPwfile, claim: [u8; 32], dev: Dev) -> RefLatke {
        let ids = c.peer.map(|p| if c.initiator() { (claim, p) } else { (p, claim) });
        let input = latke_pake_input(&f.mpk, ids);
        let pk = Box::new(RefPake::with(pake, c.initiator(), c.ssid, &input, HRng::new(c.rng_seed ^ 0x9a4e)));
        let (k, ini, ssid, rng) = (ibke.to_string(), c.initiator(), c.ssid, HRng::new(c.rng_seed ^ 0x1b4e));
        let mk = Box::new(move || {
            let mut x = RefIbke::with(&k, ini, ssid, f.mpk, f.user, dev, rng);
            x.lenient |= f.lenient;
            Box::new(x) as Box<dyn Party>
        });
        Self::with(c.initiator(), c.ssid, pk, mk, HRng::new(c.rng_seed ^ 0xe0e))
    }
    /// Any PAKE, any inner exchange
    pub fn with(initiator: bool, ssid: [u8; 32], pake: Box<dyn Party>, mk: Box<dyn FnOnce() -> Box<dyn Party>>, rng: HRng) -> RefLatke {
        RefLatke { initiator, ssid, pake, mk: Some(mk), eue: None, tr: vec![], rng }
    }
    fn start_eue(&mut self) {
        if self.eue.is_none() {
            let k = self.pake.fin().unwrap().key;
            self.eue = Some(RefEue::new(&k, &self.ssid, (self.mk.take().unwrap())(), self.rng.clone()));
        }
    }
    fn go(&mut self, m: &[u8]) -> Out {
        let out = if !self.pake.done() {
            match self.pake.step(m) {
                Out::Nothing => {
                    if !self.pake.done() {
                        return Out::Reject("reference: PAKE".into());
                    }
                    self.start_eue();
                    if self.initiator {
                        self.eue.as_mut().unwrap().run(true, &[])
                    } else {
                        // the responder waits for the initiator
                        Out::Nothing
                    }
                }
                o => o,
            }
        } else {
            let fresh = self.eue.is_none();
            self.start_eue();
            // after a PAKE whose last message the initiator sent, the responder hands over with an
            // empty message
            let first = fresh && self.initiator;
            self.eue.as_mut().unwrap().run(first, m)
        };
        self.tr.extend_from_slice(m);
        if let Out::Msg(o) = &out {
            self.tr.extend_from_slice(o)
        }
        out
    }
}
impl Party for RefLatke {
    fn step(&mut self, msg: &[u8]) -> Out {
        match guard(|| self.go(msg)) {
            Ok(o) => o,
            Err(e) => Out::Reject(format!("reference panicked: {}", e)),
        }
    }
    fn done(&self) -> bool {
        self.eue.as_ref().map(|e| e.inner.done()).unwrap_or(false)
    }
    fn fin(&self) -> Option<Fin> {
        let f = self.eue.as_ref()?.inner.fin()?;
        let prk = extract(b"latke-tr-hash", &[&self.tr[..], &f.key].concat());
        Some(Fin { id: f.id, key: expand32(&prk, &[b"latke-final"]) })
    }
}

/// What a user stores for CHIP
#[derive(Clone)]
pub struct ChipFile {
    pub x: RistrettoPoint,
    pub y: RistrettoPoint,
    pub xhat: Scalar,
}
pub fn chip_y(pw: &[u8]) -> Scalar {
    scalar(&[&[1], pw])
}
pub fn chip_h(id: &[u8], x: &[u8]) -> Scalar {
    scalar(&[&[2], id, x])
}
impl ChipFile {
    pub fn new(pw: &[u8], id: &[u8; 32], rng: &mut HRng) -> ChipFile {
        let x = wide(rng);
        let y = chip_y(pw);
        let xp = RistrettoPoint::mul_base(&x);
        ChipFile { x: xp, y: RistrettoPoint::mul_base(&y), xhat: x + chip_h(id, xp.compress().as_bytes()) * y }
    }
}

/// How a CHIP thief cheats
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum ChipDev {
    Honest,
    /// Own file with X shifted by a known amount
    Shift,
    /// A fresh X, without any authority part
    Fresh,
    /// R cancels the static part; the pure Diffie-Hellman value is guessed
    Rogue,
    Identity,
    /// Compute as if the peer expected the owner
    NegX,
}

pub struct RefChip {
    pake_kind: String,
    initiator: bool,
    ssid: [u8; 32],
    f: ChipFile,
    peer: [u8; 32],
    claim: [u8; 32],
    dev: ChipDev,
    rng: HRng,
    r: Scalar,
    sent: Vec<u8>,
    recv: Vec<u8>,
    pub pake_input: Vec<u8>,
    pake: Option<RefPake>,
    step: usize,
    /// The peer's static public value, where it is known otherwise than by hashing
    pub peer_static: Option<RistrettoPoint>,
}
/// A CHIP file as the code under test makes it, and the hash that went into it
pub fn issued_chip(pw: &[u8], id: [u8; 32], seed: u64) -> Option<(ChipFile, Scalar)> {
    let x = wide(&mut HRng::new(seed));
    let pws = [pw.to_vec(), [pw, b"+"].concat()];
    let s = [chip_y(&pws[0]), chip_y(&pws[1])];
    let (xhat, h) = super::ibke::harvest_xhat(&x, s, |k| {
        latke::chip::Chip::<latke::pake::cpace::Cpace>::gen_pwfile(HRng::new(seed), pws[k].clone(), id)
    })?;
    Some((ChipFile { x: RistrettoPoint::mul_base(&x), y: RistrettoPoint::mul_base(&s[0]), xhat }, h))
}
impl RefChip {
    pub fn new(pake: &str, c: &Cfg) -> RefChip {
        let f = ChipFile::new(&c.secret, &c.id, &mut HRng::new(c.user_seed));
        Self::with(pake, c, f, c.id, ChipDev::Honest)
    }
    pub fn with(pake: &str, c: &Cfg, f: ChipFile, claim: [u8; 32], dev: ChipDev) -> RefChip {
        RefChip {
            pake_kind: pake.into(),
            initiator: c.initiator(),
            ssid: c.ssid,
            f,
            peer: c.peer.unwrap(),
            claim,
            dev,
            rng: c.rng(),
            r: Scalar::ZERO,
            sent: vec![],
            recv: vec![],
            pake_input: vec![],
            pake: None,
            peer_static: None,
            step: if c.initiator() { 0 } else { 1 },
        }
    }
    fn hello(&mut self) -> Vec<u8> {
        self.r = wide(&mut self.rng);
        let mut rp = RistrettoPoint::mul_base(&self.r);
        match self.dev {
            ChipDev::Shift => {
                let k = wide(&mut self.rng);
                self.f.x += RistrettoPoint::mul_base(&k);
                self.f.xhat += k;
            }
            ChipDev::Fresh => {
                let k = wide(&mut self.rng);
                self.f.x = RistrettoPoint::mul_base(&k);
                self.f.xhat = k;
            }
            ChipDev::NegX => {
                self.f.x = -self.f.x;
                self.f.xhat = -self.f.xhat;
            }
            ChipDev::Rogue => {
                let h = chip_h(&self.claim, self.f.x.compress().as_bytes());
                rp = rp - self.f.x - self.f.y * h;
            }
            ChipDev::Identity => {
                self.f.x = RistrettoPoint::default();
                rp = RistrettoPoint::default();
            }
            ChipDev::Honest => {}
        }
        self.sent = [self.f.x.compress().to_bytes(), rp.compress().to_bytes()].concat();
        self.sent.clone()
    }
    fn input(&mut self) -> Option<()> {
        let m = &self.recv;
        let p = |b: &[u8]| CompressedRistretto::from_slice(b).ok()?.decompress();
        let (x, r) = (p(m.get(..32)?)?, p(m.get(32..)?)?);
        let sum = r + self.peer_static.unwrap_or_else(|| x + self.f.y * chip_h(&self.peer, &m[..32]));
        let (a, b) = match self.dev {
            ChipDev::Rogue => (RistrettoPoint::default(), sum * self.r),
            ChipDev::Identity => (RistrettoPoint::default(), RistrettoPoint::default()),
            _ => (r * self.r, sum * (self.r + self.f.xhat)),
        };
        let (m1, m2) = if self.initiator { (&self.sent, &self.recv) } else { (&self.recv, &self.sent) };
        self.pake_input = [&a.compress().to_bytes()[..], &b.compress().to_bytes(), m1, m2].concat();
        self.pake = Some(RefPake::with(&self.pake_kind, self.initiator, self.ssid, &self.pake_input, self.rng.clone()));
        Some(())
    }
    fn go(&mut self, m: &[u8]) -> Out {
        let s = self.step;
        self.step += 2;
        match s {
            0 => Out::Msg(self.hello()),
            1 => {
                self.recv = m.to_vec();
                Out::Msg(self.hello())
            }
            2 => {
                self.recv = m.to_vec();
                if self.input().is_none() {
                    return Out::Reject("reference: encoding".into());
                }
                self.pake.as_mut().unwrap().step(&[])
            }
            3 => {
                if self.input().is_none() {
                    return Out::Reject("reference: encoding".into());
                }
                self.pake.as_mut().unwrap().step(m)
            }
            _ => self.pake.as_mut().unwrap().step(m),
        }
    }
}
impl Party for RefChip {
    fn step(&mut self, msg: &[u8]) -> Out {
        match guard(|| self.go(msg)) {
            Ok(o) => o,
            Err(e) => Out::Reject(format!("reference panicked: {}", e)),
        }
    }
    fn done(&self) -> bool {
        self.pake.as_ref().map(|p| p.done()).unwrap_or(false)
    }
    fn fin(&self) -> Option<Fin> {
        self.pake.as_ref()?.fin()
    }
}
