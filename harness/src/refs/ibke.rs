//! Reference peers for FG-IBKE, HMQV-C, signed DH and SIGMA-R; with `Dev` they deviate in one place
use super::{kdf::*, saber};
use crate::core::guard;
use crate::entropy::HRng;
use crate::party::{authority, Cfg, Fin, Out, Party};
use curve25519_dalek::{ristretto::CompressedRistretto, RistrettoPoint, Scalar};
use ed25519_dalek::{Signature, Signer, SigningKey, Verifier, VerifyingKey};
use latke::IdentityBasedKeyExchange;
use latke::ibke::{fg_ibke::FgIbkeC, id_hmqv_c::IdHmqvC, id_sig_dh::IdSigDh, id_sigma_r::*};
use pqcrypto_dilithium::dilithium2 as dil;
use pqcrypto_traits::sign::{DetachedSignature as _, PublicKey as _, SecretKey as _};
use rand_core::{RngCore, SeedableRng};

/// The key pair of an authority
#[derive(Clone)]
pub enum Auth {
    Fg(Scalar),
    Ed(SigningKey),
    Dil(Vec<u8>, Vec<u8>),
}

/// A signature key of either scheme
#[derive(Clone)]
pub enum Sk {
    Ed(SigningKey),
    Dil(Vec<u8>, Vec<u8>),
}

pub fn wide(rng: &mut impl RngCore) -> Scalar {
    let mut b = [0; 64];
    rng.fill_bytes(&mut b);
    Scalar::from_bytes_mod_order_wide(&b)
}
fn b32(rng: &mut impl RngCore) -> [u8; 32] {
    let mut b = [0; 32];
    rng.fill_bytes(&mut b);
    b
}
fn dilkey(rng: &mut impl RngCore) -> (Vec<u8>, Vec<u8>) {
    let (p, s) = dil::keypair_det(b32(rng));
    (p.as_bytes().to_vec(), s.as_bytes().to_vec())
}

impl Sk {
    pub fn gen(kind: &str, rng: &mut impl RngCore) -> Sk {
        if kind == "sigma-dilithium2" {
            let (p, s) = dilkey(rng);
            Sk::Dil(p, s)
        } else {
            Sk::Ed(SigningKey::from_bytes(&b32(rng)))
        }
    }
    pub fn pk(&self) -> Vec<u8> {
        match self {
            Sk::Ed(k) => k.verifying_key().to_bytes().to_vec(),
            Sk::Dil(p, _) => p.clone(),
        }
    }
    pub fn sign(&self, m: &[u8]) -> Vec<u8> {
        match self {
            Sk::Ed(k) => k.sign(m).to_bytes().to_vec(),
            Sk::Dil(_, s) => dil::detached_sign(m, &dil::SecretKey::from_bytes(s).unwrap()).as_bytes().to_vec(),
        }
    }
}
pub fn sig_len(kind: &str) -> usize {
    if kind == "sigma-dilithium2" {
        2420
    } else {
        64
    }
}
pub fn pk_len(kind: &str) -> usize {
    match kind {
        "sigma-dilithium2" => 1312,
        "sigdh" => 64,
        _ => 32,
    }
}
pub fn verify(pk: &[u8], m: &[u8], sig: &[u8]) -> bool {
    if pk.len() == 1312 {
        if sig.len() != 2420 {
            return false;
        }
        let (Ok(p), Ok(s)) = (dil::PublicKey::from_bytes(pk), dil::DetachedSignature::from_bytes(sig)) else { return false };
        dil::verify_detached_signature(&s, m, &p).is_ok()
    } else {
        let (Ok(p), Ok(s)) = (<[u8; 32]>::try_from(pk), <[u8; 64]>::try_from(sig)) else { return false };
        let Ok(k) = VerifyingKey::from_bytes(&p) else { return false };
        k.verify(m, &Signature::from_bytes(&s)).is_ok()
    }
}

impl Auth {
    /// An authority made by the code under test (the name as in `Cfg::secret`)
    pub fn named(kind: &str, name: &[u8]) -> Auth {
        fn sigma(p: (IdSigmaPubkey, IdSigmaPrivkey)) -> Auth {
            match p {
                (_, IdSigmaPrivkey::Ed25519(s)) => Auth::Ed(s),
                (IdSigmaPubkey::Dilithium2(p), IdSigmaPrivkey::Dilithium2(s)) => {
                    Auth::Dil(p.as_bytes().to_vec(), s.as_bytes().to_vec())
                }
                _ => panic!("mixed key pair"),
            }
        }
        match kind {
            "fg" => Auth::Fg(authority::<FgIbkeC>(name).1),
            "hmqv" => Auth::Ed(authority::<IdHmqvC>(name).1),
            "sigdh" => Auth::Ed(authority::<IdSigDh>(name).1),
            "sigma-ed25519" => sigma(authority::<IdSigmaREd25519>(name)),
            "sigma-dilithium2" => sigma(authority::<IdSigmaRDilithium2>(name)),
            _ => panic!(),
        }
    }
    /// The authority of a LATKE password
    pub fn of_password(kind: &str, pw: &[u8]) -> Auth {
        let mut r = rand_chacha::ChaCha12Rng::from_seed(h256(&[pw]));
        Self::from_rng(kind, &mut r)
    }
    pub fn from_rng(kind: &str, r: &mut impl RngCore) -> Auth {
        match kind {
            "fg" => Auth::Fg(wide(r)),
            "sigma-dilithium2" => {
                let (p, s) = dilkey(r);
                Auth::Dil(p, s)
            }
            _ => Auth::Ed(SigningKey::from_bytes(&b32(r))),
        }
    }
    pub fn mpk(&self) -> Vec<u8> {
        match self {
            Auth::Fg(s) => RistrettoPoint::mul_base(s).compress().to_bytes().to_vec(),
            Auth::Ed(k) => k.verifying_key().to_bytes().to_vec(),
            Auth::Dil(p, _) => p.clone(),
        }
    }
    fn sign(&self, m: &[u8]) -> Vec<u8> {
        match self {
            Auth::Fg(_) => panic!(),
            Auth::Ed(k) => Sk::Ed(k.clone()).sign(m),
            Auth::Dil(p, s) => Sk::Dil(p.clone(), s.clone()).sign(m),
        }
    }
}

/// The one thing a deviating peer does wrong
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Dev {
    Honest,
    /// Certificate signed by the peer itself (FG: no authority part at all)
    CertSelf,
    CertOtherAuthority,
    /// Issued for another identity
    CertOtherId,
    /// Issued for another key
    CertOtherKey,
    /// A genuine certificate of somebody else, whose key the peer does not have
    CertStolen,
    CertOnlyId,
    CertOnlyKey,
    CertSwapped,
    CertZero,
    CertFlipped,
    /// Issued for an (identity, key) that differs from the one shown in one bit anywhere
    CertBodyBit,
    /// Signed transcript that differs in one bit anywhere
    SigBodyBit,
    /// Any single bit of the MAC
    MacBit,
    /// The MAC with these bits flipped
    MacXor([u8; 32]),
    SigRole,
    SigNoSsid,
    SigOtherSsid,
    SigOtherEph,
    SigOtherPeerEph,
    SigOtherCt,
    SigNoCert,
    SigOtherNonce,
    SigZero,
    SigForeign,
    SigEmptyTranscript,
    /// No signature at all, in its many guises
    SigGarbage,
    CertGarbage,
    /// The certificate's own signature in place of that of the session
    SigIsCert,
    MacZero,
    MacRandom,
    /// The MAC meant for the other direction
    MacSwapped,
    MacNoSsid,
    MacOtherId,
    MacFlippedFirst,
    MacFlippedLast,
    MacTruncated,
    MacEmpty,
    MacExtended,
    EncSwapped,
    /// Static part cancelled by a rogue ephemeral key, the rest guessed
    Rogue,
    Identity,
    /// A stolen certificate and an identity ephemeral
    StolenIdentity,
}
use Dev::*;

/// The deviations a role of a protocol can exhibit
pub fn devs(kind: &str, initiator: bool) -> Vec<Dev> {
    let mut v = vec![CertSelf, CertOtherAuthority, CertOtherId, CertOtherKey, CertStolen];
    if kind != "fg" {
        v.extend([CertOnlyId, CertOnlyKey, CertSwapped, CertZero, CertFlipped, CertBodyBit, CertGarbage]);
    }
    let macs = [MacBit, MacZero, MacRandom, MacSwapped, MacFlippedFirst, MacFlippedLast, MacTruncated, MacEmpty];
    match kind {
        "fg" => {
            v.extend(macs);
            v.extend([Rogue, Identity]);
        }
        "hmqv" => {
            v.extend(macs);
            v.extend([MacNoSsid, StolenIdentity]);
        }
        "sigdh" => v.extend([SigBodyBit, SigRole, SigNoSsid, SigOtherSsid, SigOtherEph, SigZero, SigForeign, SigEmptyTranscript, SigGarbage, SigIsCert]),
        _ => {
            v.extend([MacBit, MacZero, MacRandom, MacSwapped, MacOtherId, MacFlippedFirst, MacFlippedLast, MacTruncated, MacEmpty, MacExtended]);
            v.extend([
                SigRole, SigNoSsid, SigOtherSsid, SigOtherEph, SigOtherCt, SigNoCert, SigOtherNonce, SigZero, SigForeign,
                SigEmptyTranscript, SigBodyBit, SigGarbage, SigIsCert, EncSwapped,
            ]);
        }
    }
    let _ = (initiator, SigOtherPeerEph);
    v
}

fn one_bit(b: &mut [u8], rng: &mut HRng) {
    let k = rng.next_u32() as usize % (b.len() * 8);
    b[k / 8] ^= 1 << (k % 8)
}
/// Bytes of the length of a signature that are none
pub fn garbage(n: usize, rng: &mut HRng) -> Vec<u8> {
    let mut s = vec![0; n];
    let how = rng.next_u32() % 10;
    match how {
        0 => s.fill(0xff),
        1 => {
            // the identity, zero
            s[0] = 1
        }
        2 => s[n - 1] = 0xe0,
        3 => s[..n / 2].fill(0xff),
        _ => {
            rng.fill_bytes(&mut s);
            match how {
                4 => s[n - 1] |= 0xe0,
                5 => s[n - 1] = 0xff,
                6 => s[n - 1] = 0,
                7 => s[n / 2..].fill(0),
                8 => s[n - 1] &= 0x0f,
                _ => {}
            }
        }
    }
    s
}
fn mangle_mac(d: Dev, right: [u8; 32], other: [u8; 32], rng: &mut HRng) -> Vec<u8> {
    let mut m = right.to_vec();
    match d {
        MacZero => m = vec![0; 32],
        MacRandom => m = b32(rng).to_vec(),
        MacSwapped => m = other.to_vec(),
        MacFlippedFirst => m[0] ^= 1,
        MacBit => one_bit(&mut m, rng),
        MacXor(k) => m.iter_mut().zip(k).for_each(|(a, b)| *a ^= b),
        MacFlippedLast => m[31] ^= 0x80,
        MacTruncated => m.truncate(16),
        MacEmpty => m.clear(),
        MacExtended => m.push(0),
        _ => {}
    }
    m
}

pub struct RefIbke {
    kind: String,
    initiator: bool,
    ssid: [u8; 32],
    mpk: Vec<u8>,
    /// Identity presented
    id: [u8; 32],
    dev: Dev,
    rng: HRng,
    step: usize,
    pub done: bool,
    pub out: Option<([u8; 32], [u8; 32])>,
    user: User,
    eph: Scalar,
    eph_pk: Vec<u8>,
    macs: [[u8; 32]; 2],
    pre_key: [u8; 32],
    tr: Vec<u8>,
    peer_id: [u8; 32],
    nonce: [u8; 32],
    peer_nonce: [u8; 32],
    kem_pk: Vec<u8>,
    kem_sk: Vec<u8>,
    ct: Vec<u8>,
    keys: Option<([u8; 32], [u8; 32], Vec<u8>, Vec<u8>)>,
    /// The last certificate received, as it came
    pub seen_cert: Vec<u8>,
    /// Adversaries check nothing
    pub lenient: bool,
    /// FG: the peer's static public value, where it is known otherwise than by hashing
    pub peer_static: Option<RistrettoPoint>,
}

/// Long-term material of one user, as the authority hands it out
#[derive(Clone)]
pub struct User {
    pub id: [u8; 32],
    pub cert: Vec<u8>,
    /// FG
    pub x: RistrettoPoint,
    pub xhat: Scalar,
    /// HMQV
    pub usk: Scalar,
    /// signed DH, SIGMA
    pub sk: Option<Sk>,
    pub dh: [u8; 32],
    pub upk: Vec<u8>,
}

fn fg_h(id: &[u8], x: &[u8]) -> Scalar {
    scalar(&[&[2], id, x])
}
fn pt(b: &[u8]) -> Option<RistrettoPoint> {
    CompressedRistretto::from_slice(b).ok()?.decompress()
}
pub fn x25519(sk: &[u8; 32], pk: &[u8]) -> [u8; 32] {
    x25519_dalek::x25519(*sk, pk.try_into().unwrap())
}
pub fn x25519_pk(sk: &[u8; 32]) -> [u8; 32] {
    x25519_dalek::x25519(*sk, x25519_dalek::X25519_BASEPOINT_BYTES)
}

impl User {
    /// A user with fresh keys, certified by the authority; `dev` spoils the certificate. `id` is the
    /// identity the certificate will show.
    pub fn new(kind: &str, auth: &Auth, id: [u8; 32], dev: Dev, rng: &mut HRng) -> User {
        let mut other_id = id;
        other_id[31] ^= 1;
        let mut u = User {
            id,
            cert: vec![],
            x: RistrettoPoint::default(),
            xhat: Scalar::ZERO,
            usk: Scalar::ZERO,
            sk: None,
            dh: [0; 32],
            upk: vec![],
        };
        if kind == "fg" {
            let Auth::Fg(msk) = auth else { panic!() };
            let x = wide(rng);
            u.x = RistrettoPoint::mul_base(&x);
            let xb = u.x.compress();
            u.xhat = match dev {
                CertSelf => x,
                CertOtherAuthority => x + fg_h(&id, xb.as_bytes()) * wide(rng),
                CertOtherId => x + fg_h(&other_id, xb.as_bytes()) * msk,
                _ => x + fg_h(&id, xb.as_bytes()) * msk,
            };
            match dev {
                CertOtherKey => u.x = RistrettoPoint::mul_base(&wide(rng)),
                CertStolen => u.xhat = wide(rng),
                _ => {}
            }
            return u;
        }
        u.usk = wide(rng);
        u.dh = b32(rng);
        if kind != "hmqv" {
            u.sk = Some(Sk::gen(kind, rng));
        }
        let make = |u: &User| -> Vec<u8> {
            match kind {
                "hmqv" => RistrettoPoint::mul_base(&u.usk).compress().to_bytes().to_vec(),
                "sigdh" => [&u.sk.as_ref().unwrap().pk()[..], &x25519_pk(&u.dh)].concat(),
                _ => u.sk.as_ref().unwrap().pk(),
            }
        };
        u.upk = make(&u);
        let body = match dev {
            CertOtherId => [&other_id[..], &u.upk].concat(),
            CertOtherKey => {
                let mut w = u.clone();
                w.usk = wide(rng);
                w.dh = b32(rng);
                w.sk = w.sk.as_ref().map(|_| Sk::gen(kind, rng));
                [&id[..], &make(&w)].concat()
            }
            CertBodyBit => {
                let mut b = [&id[..], &u.upk].concat();
                one_bit(&mut b, rng);
                b
            }
            CertOnlyId => id.to_vec(),
            CertOnlyKey => u.upk.clone(),
            CertSwapped => [&u.upk[..], &id].concat(),
            _ => [&id[..], &u.upk].concat(),
        };
        let mut sig = match dev {
            CertSelf => match &u.sk {
                Some(s) => s.sign(&body),
                None => SigningKey::from_bytes(&b32(rng)).sign(&body).to_bytes().to_vec(),
            },
            CertOtherAuthority => Auth::from_rng(kind, rng).sign(&body),
            _ => auth.sign(&body),
        };
        match dev {
            CertZero => sig = vec![0; sig.len()],
            CertGarbage => sig = garbage(sig.len(), rng),
            CertFlipped => {
                let k = rng.next_u32() as usize % (sig.len() * 8);
                sig[k / 8] ^= 1 << (k % 8)
            }
            CertStolen | StolenIdentity => {
                // the certificate is genuine, the private keys are not the ones in it
                u.usk = wide(rng);
                u.dh = b32(rng);
                u.sk = u.sk.as_ref().map(|_| Sk::gen(kind, rng));
            }
            _ => {}
        }
        u.cert = [&id[..], &u.upk, &sig].concat();
        u
    }
}

impl RefIbke {
    pub fn new(kind: &str, c: &Cfg, dev: Dev) -> RefIbke {
        let auth = Auth::named(kind, &c.secret);
        let user = User::new(kind, &auth, c.id, dev, &mut HRng::new(c.user_seed));
        Self::with(kind, c.initiator(), c.ssid, auth.mpk(), user, dev, c.rng())
    }
    pub fn with(kind: &str, initiator: bool, ssid: [u8; 32], mpk: Vec<u8>, user: User, dev: Dev, mut rng: HRng) -> RefIbke {
        let nonce = b32(&mut rng);
        RefIbke {
            kind: kind.into(),
            initiator,
            ssid,
            mpk,
            id: user.id,
            dev,
            rng,
            step: if initiator { 0 } else { 1 },
            done: false,
            out: None,
            user,
            eph: Scalar::ZERO,
            eph_pk: vec![],
            macs: [[0; 32]; 2],
            pre_key: [0; 32],
            tr: vec![],
            peer_id: [0; 32],
            nonce,
            peer_nonce: [0; 32],
            kem_pk: vec![],
            kem_sk: vec![],
            ct: vec![],
            keys: None,
            seen_cert: vec![],
            lenient: dev != Honest,
            peer_static: None,
        }
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        b32(&mut self.rng)
    }

    // ---- Fiore-Gennaro
    fn fg_eph(&mut self) {
        self.eph = wide(&mut self.rng);
        let h = fg_h(&self.id, self.user.x.compress().as_bytes());
        let r = match self.dev {
            Rogue => RistrettoPoint::mul_base(&self.eph) - self.user.x - pt(&self.mpk).unwrap() * h,
            Identity => {
                self.user.x = RistrettoPoint::default();
                RistrettoPoint::default()
            }
            _ => RistrettoPoint::mul_base(&self.eph),
        };
        self.eph_pk = r.compress().to_bytes().to_vec();
    }
    fn fg_keys(&mut self, m: &[u8]) -> Option<()> {
        let (id, rest) = (m.get(..32)?, m.get(32..96)?);
        let (x, r) = (pt(&rest[..32])?, pt(&rest[32..])?);
        self.peer_id = id.try_into().unwrap();
        let sum = r + self.peer_static.unwrap_or_else(|| x + pt(&self.mpk).unwrap_or_default() * fg_h(id, &rest[..32]));
        let (alpha, beta) = match self.dev {
            Rogue => (RistrettoPoint::default(), sum * self.eph),
            Identity => (RistrettoPoint::default(), RistrettoPoint::default()),
            _ => (r * self.eph, sum * (self.eph + self.user.xhat)),
        };
        let k = [alpha.compress().to_bytes(), beta.compress().to_bytes()].concat();
        let t = expand(&k, &[b"fg-expand"], 96);
        self.macs = [t[..32].try_into().unwrap(), t[32..64].try_into().unwrap()];
        self.pre_key = t[64..].try_into().unwrap();
        Some(())
    }
    fn fg_hello(&self) -> Vec<u8> {
        [&self.id[..], self.user.x.compress().as_bytes(), &self.eph_pk].concat()
    }
    fn fg_finish(&mut self) {
        let prk = extract(b"fgibke-tr-hash", &[&self.tr[..], &self.pre_key].concat());
        self.out = Some((self.peer_id, expand32(&prk, &[&self.ssid, b"fgibke-final"])));
        self.done = true;
    }
    fn fg(&mut self, s: usize, m: &[u8]) -> Result<Option<Vec<u8>>, &'static str> {
        self.tr.extend_from_slice(m);
        let out = match s {
            0 => {
                self.fg_eph();
                Some(self.fg_hello())
            }
            1 => {
                if m.len() != 96 {
                    return Err("length");
                }
                self.fg_eph();
                self.fg_keys(m).ok_or("encoding")?;
                let mac = mangle_mac(self.dev, self.macs[1], self.macs[0], &mut self.rng);
                Some([&self.fg_hello()[..], &mac].concat())
            }
            2 => {
                if m.len() != 128 {
                    return Err("length");
                }
                self.fg_keys(&m[..96]).ok_or("encoding")?;
                if !self.lenient && m[96..] != self.macs[1] {
                    return Err("mac1");
                }
                Some(mangle_mac(self.dev, self.macs[0], self.macs[1], &mut self.rng))
            }
            _ => {
                if !self.lenient && m != self.macs[0] {
                    return Err("mac0");
                }
                None
            }
        };
        self.tr.extend_from_slice(out.as_deref().unwrap_or(&[]));
        if s >= 2 {
            self.fg_finish()
        }
        Ok(out)
    }

    // ---- certificates of the others
    fn check_cert<'a>(&mut self, c: &'a [u8]) -> Result<&'a [u8], &'static str> {
        self.seen_cert = c.to_vec();
        let n = pk_len(&self.kind);
        if c.len() != 32 + n + sig_len(&self.kind) {
            return Err("certificate length");
        }
        if !self.lenient && !verify(&self.mpk, &c[..32 + n], &c[32 + n..]) {
            return Err("certificate");
        }
        self.peer_id = c[..32].try_into().unwrap();
        Ok(&c[32..32 + n])
    }

    // ---- HMQV-C
    fn hmqv_keys(&mut self, eph: &[u8], upk: &[u8]) -> Result<(), &'static str> {
        let (e_o, u_o) = (pt(eph).ok_or("point")?, pt(upk).ok_or("point")?);
        let (ei, er, idi, idr) = if self.initiator {
            (&self.eph_pk[..], eph, self.id, self.peer_id)
        } else {
            (eph, &self.eph_pk[..], self.peer_id, self.id)
        };
        let d = scalar(&[ei, &idr]);
        let e = scalar(&[er, &idi]);
        let (mine, theirs) = if self.initiator { (d, e) } else { (e, d) };
        let sigma = (e_o + theirs * u_o) * (self.eph + mine * self.user.usk);
        let k = sigma.compress().to_bytes();
        let ss: &[u8] = if self.dev == MacNoSsid { &[] } else { &self.ssid };
        self.macs = [expand32(&k, &[ss, b"mac0"]), expand32(&k, &[ss, b"mac1"])];
        self.out = Some((self.peer_id, expand32(&k, &[&self.ssid, b"sess key"])));
        Ok(())
    }
    fn hmqv_eph(&mut self) {
        self.eph = if self.dev == StolenIdentity { Scalar::ZERO } else { wide(&mut self.rng) };
        self.eph_pk = RistrettoPoint::mul_base(&self.eph).compress().to_bytes().to_vec();
    }
    fn hmqv(&mut self, s: usize, m: &[u8]) -> Result<Option<Vec<u8>>, &'static str> {
        match s {
            0 => {
                self.hmqv_eph();
                Ok(Some([&self.eph_pk[..], &self.user.cert].concat()))
            }
            1 => {
                if m.len() != 160 {
                    return Err("length");
                }
                let upk = self.check_cert(&m[32..])?.to_vec();
                self.hmqv_eph();
                self.hmqv_keys(&m[..32], &upk)?;
                let mac = mangle_mac(self.dev, self.macs[1], self.macs[0], &mut self.rng);
                Ok(Some([&self.eph_pk[..], &mac, &self.user.cert].concat()))
            }
            2 => {
                if m.len() != 192 {
                    return Err("length");
                }
                let upk = self.check_cert(&m[64..])?.to_vec();
                self.hmqv_keys(&m[..32], &upk)?;
                if !self.lenient && m[32..64] != self.macs[1] {
                    return Err("mac1");
                }
                self.done = true;
                Ok(Some(mangle_mac(self.dev, self.macs[0], self.macs[1], &mut self.rng)))
            }
            _ => {
                if !self.lenient && m != self.macs[0] {
                    return Err("mac0");
                }
                self.done = true;
                Ok(None)
            }
        }
    }

    // ---- signed DH
    fn sigdh_hello(&mut self, role: u8) -> Vec<u8> {
        let mut other = self.ssid;
        other[31] ^= 0x80;
        let foreign = b32(&mut self.rng);
        let role = if self.dev == SigRole { role ^ 1 } else { role };
        let body = match self.dev {
            SigNoSsid => [&[role], &self.eph_pk[..]].concat(),
            SigOtherSsid => [&[role], &other[..], &self.eph_pk].concat(),
            SigOtherEph => [&[role], &self.ssid[..], &foreign].concat(),
            SigEmptyTranscript => vec![],
            _ => [&[role], &self.ssid[..], &self.eph_pk].concat(),
        };
        let mut body = body;
        if self.dev == SigBodyBit {
            one_bit(&mut body, &mut self.rng)
        }
        let sig = match self.dev {
            SigForeign => Sk::gen("sigdh", &mut self.rng).sign(&body),
            SigZero => vec![0; 64],
            SigGarbage => garbage(64, &mut self.rng),
            SigIsCert => self.user.cert[96..].to_vec(),
            _ => self.user.sk.as_ref().unwrap().sign(&body),
        };
        [&self.eph_pk[..], &sig, &self.user.cert].concat()
    }
    fn sigdh(&mut self, s: usize, m: &[u8], esk: [u8; 32]) -> Result<Option<Vec<u8>>, &'static str> {
        if s != 2 {
            self.kem_sk = esk.to_vec();
            self.eph_pk = x25519_pk(&esk).to_vec();
        }
        if s == 0 {
            return Ok(Some(self.sigdh_hello(0)));
        }
        if m.len() != 256 {
            return Err("length");
        }
        let upk = self.check_cert(&m[96..])?.to_vec();
        let role = if s == 1 { 0 } else { 1 };
        if !self.lenient && !verify(&upk[..32], &[&[role], &self.ssid[..], &m[..32]].concat(), &m[32..96]) {
            return Err("signature");
        }
        let mine: [u8; 32] = self.kem_sk.clone().try_into().unwrap();
        let z1 = x25519(&self.user.dh, &upk[32..]);
        let my_static = x25519(&self.user.dh, &m[..32]);
        let my_eph = x25519(&mine, &upk[32..]);
        let z4 = x25519(&mine, &m[..32]);
        let (z2, z3, ei, er) = if s == 1 {
            (my_static, my_eph, &m[..32], &self.eph_pk[..])
        } else {
            (my_eph, my_static, &self.eph_pk[..], &m[..32])
        };
        let prk = extract(&[], &[z1, z2, z3, z4].concat());
        self.out = Some((self.peer_id, expand32(&prk, &[&self.ssid, ei, er])));
        let out = (s == 1).then(|| self.sigdh_hello(1));
        self.done = true;
        Ok(out)
    }

    // ---- SIGMA-R
    fn sigma_keys(&mut self, z: &[u8]) {
        self.keys = Some((
            expand32(z, &[b"output_key"]),
            expand32(z, &[b"mac_key"]),
            expand(z, &[b"enc_key_a"], 64),
            expand(z, &[b"enc_key_b"], 64),
        ));
    }
    fn sigma_body(&self, role: u8, nonce: &[u8], cert: &[u8], d: Dev) -> Vec<u8> {
        let flip = |b: &[u8]| {
            let mut b = b.to_vec();
            let n = b.len() - 1;
            b[n] ^= 1;
            b
        };
        let role = if d == SigRole { role ^ 1 } else { role };
        let nonce = if d == SigOtherNonce { flip(nonce) } else { nonce.to_vec() };
        let ssid = match d {
            SigNoSsid => vec![],
            SigOtherSsid => flip(&self.ssid),
            _ => self.ssid.to_vec(),
        };
        let pk = if d == SigOtherEph { flip(&self.kem_pk) } else { self.kem_pk.clone() };
        let ct = if d == SigOtherCt { flip(&self.ct) } else { self.ct.clone() };
        let cert = if d == SigNoCert { &[] } else { cert };
        match d {
            SigEmptyTranscript => vec![],
            _ if role == (d == SigRole) as u8 => [&[role][..], &nonce, &ssid, &pk, &ct, cert].concat(),
            _ => [&[role][..], &nonce, &ssid, &ct, &pk, cert].concat(),
        }
    }
    /// The encrypted proof of the initiator (role 0) or responder (role 1)
    fn sigma_proof(&mut self, role: u8) -> Vec<u8> {
        let (_, mk, ka, kb) = self.keys.clone().unwrap();
        let peer_nonce = self.peer_nonce;
        let cert = self.user.cert.clone();
        let body = self.sigma_body(role, &peer_nonce, &cert, self.dev);
        let mut body = body;
        if self.dev == SigBodyBit {
            one_bit(&mut body, &mut self.rng)
        }
        let sig = match self.dev {
            SigForeign => Sk::gen(&self.kind, &mut self.rng).sign(&body),
            SigZero => vec![0; sig_len(&self.kind)],
            SigGarbage => garbage(sig_len(&self.kind), &mut self.rng),
            SigIsCert => cert[32 + pk_len(&self.kind)..].to_vec(),
            _ => self.user.sk.as_ref().unwrap().sign(&body),
        };
        let mut mid = self.id;
        if self.dev == MacOtherId {
            mid[0] ^= 1
        }
        let right = hmac(&mk, &[&[role], &mid]);
        let mac = mangle_mac(self.dev, right, hmac(&mk, &[&[role ^ 1], &mid]), &mut self.rng);
        let k = if (role == 0) != (self.dev == EncSwapped) { ka } else { kb };
        let mut n = [0; 12];
        self.rng.fill_bytes(&mut n);
        seal(&k, &n, &[&sig[..], &mac, &cert].concat())
    }
    fn sigma_check(&mut self, role: u8, m: &[u8]) -> Result<(), &'static str> {
        let (key, mk, ka, kb) = self.keys.clone().unwrap();
        let p = open(if role == 0 { &ka } else { &kb }, m).ok_or("ciphertext")?;
        let sl = sig_len(&self.kind);
        if p.len() != sl + 32 + 32 + pk_len(&self.kind) + sl {
            return Err("length");
        }
        let (sig, rest) = p.split_at(sl);
        let (mac, cert) = rest.split_at(32);
        let upk = self.check_cert(cert)?.to_vec();
        let nonce = self.nonce;
        let body = self.sigma_body(role, &nonce, cert, Honest);
        if !self.lenient && !verify(&upk, &body, sig) {
            return Err("signature");
        }
        if !self.lenient && hmac(&mk, &[&[role], &self.peer_id]) != mac {
            return Err("mac");
        }
        self.out = Some((self.peer_id, key));
        Ok(())
    }
    fn sigma(&mut self, s: usize, m: &[u8]) -> Result<Option<Vec<u8>>, &'static str> {
        let p = &saber::LIGHT;
        match s {
            0 => {
                let (a, b) = (b32(&mut self.rng), b32(&mut self.rng));
                let (pk, sk) = saber::keypair_cpa(p, &a, &b);
                self.kem_pk = pk;
                self.kem_sk = sk;
                Ok(Some([&self.nonce[..], &self.kem_pk].concat()))
            }
            1 => {
                if m.len() != 704 {
                    return Err("length");
                }
                self.peer_nonce = m[..32].try_into().unwrap();
                self.kem_pk = m[32..].to_vec();
                let (z, r) = (b32(&mut self.rng), b32(&mut self.rng));
                self.ct = saber::enc_cpa(p, &self.kem_pk, &z, &r);
                self.sigma_keys(&z);
                Ok(Some([&self.nonce[..], &self.ct].concat()))
            }
            2 => {
                if m.len() != 768 {
                    return Err("length");
                }
                self.peer_nonce = m[..32].try_into().unwrap();
                self.ct = m[32..].to_vec();
                let z = saber::dec_cpa(p, &self.kem_sk, &self.ct);
                self.sigma_keys(&z);
                Ok(Some(self.sigma_proof(0)))
            }
            3 => {
                self.sigma_check(0, m)?;
                self.done = true;
                Ok(Some(self.sigma_proof(1)))
            }
            _ => {
                self.sigma_check(1, m)?;
                self.done = true;
                Ok(None)
            }
        }
    }
    fn go(&mut self, m: &[u8]) -> Result<Option<Vec<u8>>, &'static str> {
        let s = self.step;
        if self.done {
            return Err("already finished");
        }
        self.step += 2;
        match self.kind.as_str() {
            "fg" => self.fg(s, m),
            "hmqv" => self.hmqv(s, m),
            "sigdh" => {
                let e = b32(&mut self.rng);
                self.sigdh(s, m, e)
            }
            _ => self.sigma(s, m),
        }
    }
}

impl Party for RefIbke {
    fn step(&mut self, msg: &[u8]) -> Out {
        match guard(|| self.go(msg)) {
            Ok(Ok(Some(m))) => Out::Msg(m),
            Ok(Ok(None)) => Out::Nothing,
            Ok(Err(e)) => Out::Reject(format!("reference: {}", e)),
            Err(e) => Out::Reject(format!("reference panicked: {}", e)),
        }
    }
    fn done(&self) -> bool {
        self.done
    }
    fn fin(&self) -> Option<Fin> {
        if !self.done {
            return None;
        }
        self.out.map(|(id, key)| Fin { id: Some(id), key })
    }
}

/// Who issues a harvested certificate
pub enum Issuer<'a> {
    /// As in `Cfg::secret`
    Name(&'a [u8]),
    /// The authority of a LATKE password
    Password(&'a [u8]),
}

fn harvest<I: IdentityBasedKeyExchange>(kind: &str, by: &Issuer, id: [u8; 32], seed: u64, keep: impl Fn(&I::UserPrivkey, &mut User)) -> Option<User> {
    let (mpk, msk) = match by {
        Issuer::Name(n) => authority::<I>(n),
        Issuer::Password(p) => I::gen_main_keypair(rand_chacha::ChaCha12Rng::from_seed(h256(&[p]))),
    };
    let mut r = HRng::new(seed);
    let (upk, usk) = I::gen_user_keypair(&mut r);
    let cert = I::extract(&mut r, &msk, &id, &upk);
    let mut u = User { id, cert: vec![], x: RistrettoPoint::default(), xhat: Scalar::ZERO, usk: Scalar::ZERO, sk: None, dh: [0; 32], upk: vec![] };
    keep(&usk, &mut u);
    let auth = Auth::from_rng(kind, &mut r);
    let peer = User::new(kind, &auth, [7; 32], Honest, &mut r);
    let ssid = b32(&mut r);
    // a peer that reads what it is sent; its verdict does not matter here
    let mut reader = RefIbke::with(kind, false, ssid, auth.mpk(), peer, Honest, HRng::new(seed ^ 1));
    let mut s = I::new_session(&mut r, ssid, mpk.clone(), cert, usk, latke::PartyRole::Initiator);
    let mut m = vec![];
    for _ in 0..2 {
        m = guard(|| s.run(&mut r, &m)).ok()?.ok()??;
        if let Out::Msg(x) = reader.step(&m) {
            m = x
        }
        if !reader.seen_cert.is_empty() {
            break;
        }
    }
    let n = pk_len(kind);
    let c = &reader.seen_cert;
    if c.len() != 32 + n + sig_len(kind) || c[..32] != id {
        return None;
    }
    u.upk = c[32..32 + n].to_vec();
    u.cert = c.clone();
    Some(u)
}

/// A user whose certificate was really issued by the code under test, taken from a message it sent.
/// None for FG (whose users have no certificate to show) and when no message could be read.
pub fn issued(kind: &str, by: &Issuer, id: [u8; 32], seed: u64) -> Option<User> {
    fn sigma(k: &IdSigmaPrivkey, u: &mut User) {
        u.sk = Some(match k {
            IdSigmaPrivkey::Ed25519(s) => Sk::Ed(s.clone()),
            IdSigmaPrivkey::Dilithium2(s) => Sk::Dil(vec![], s.as_bytes().to_vec()),
        })
    }
    match kind {
        "hmqv" => harvest::<IdHmqvC>(kind, by, id, seed, |k, u| u.usk = *k),
        "sigdh" => harvest::<IdSigDh>(kind, by, id, seed, |k, u| {
            u.sk = Some(Sk::Ed(k.0.clone()));
            u.dh = k.1.to_bytes();
        }),
        "sigma-ed25519" => harvest::<IdSigmaREd25519>(kind, by, id, seed, sigma),
        "sigma-dilithium2" => harvest::<IdSigmaRDilithium2>(kind, by, id, seed, sigma),
        _ => None,
    }
}

/// The scalar of a value that is x + h·s for two known s, from its memory; with it, h. `make(k)`
/// makes the value with the same x and h for the k-th s.
pub fn harvest_xhat<T>(x: &Scalar, s: [Scalar; 2], make: impl Fn(usize) -> T) -> Option<(Scalar, Scalar)> {
    let [a, b] = [0, 1].map(|k| crate::alloc::image(|| make(k)).1);
    if a.len() != b.len() {
        return None;
    }
    for o in (0..a.len().saturating_sub(31)).step_by(8) {
        let get = |b: &[u8]| Option::<Scalar>::from(Scalar::from_canonical_bytes(b[o..o + 32].try_into().unwrap()));
        if let (Some(v), Some(w)) = (get(&a), get(&b)) {
            if v != w && (v - x) * s[1] == (w - x) * s[0] && v != *x {
                return Some((v, (v - x) * s[0].invert()));
            }
        }
    }
    None
}

/// An FG user as the code under test certifies it, and the hash that went into it
pub fn issued_fg(by: &Issuer, id: [u8; 32], seed: u64) -> Option<(User, Scalar)> {
    let (_, msk) = match by {
        Issuer::Name(n) => authority::<FgIbkeC>(n),
        Issuer::Password(p) => FgIbkeC::gen_main_keypair(rand_chacha::ChaCha12Rng::from_seed(h256(&[p]))),
    };
    let x = wide(&mut HRng::new(seed));
    let s = [msk, msk + Scalar::ONE];
    let (xhat, h) = harvest_xhat(&x, s, |k| FgIbkeC::extract(HRng::new(seed), &s[k], &id, &()))?;
    let u = User { id, cert: vec![], x: RistrettoPoint::mul_base(&x), xhat, usk: Scalar::ZERO, sk: None, dh: [0; 32], upk: vec![] };
    Some((u, h))
}

/// What a forger does with a certificate that was really issued
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Relabel {
    /// nothing: the control
    Keep,
    /// shows another identity with the key and signature of its own certificate
    Id,
    /// ... that differs in one bit
    IdBit,
    /// shows the identity and signature of a victim's certificate with its own key
    Key,
    /// ... only part of the key (the signature key, the DH key, or random halves)
    KeyPart,
    /// the victim's identity and key... with its own signature
    Sig,
    /// the whole certificate of the victim
    Stolen,
    /// the whole certificate of the party it talks to
    Mirror,
    /// another identity under the key, and with the signature, of the party it talks to
    MirrorId,
    /// a certificate its certified user key signed
    UserIssued,
    /// a certificate signed with the user key of the party it talks to
    MirrorIssued,
}
pub const RELABELS: [Relabel; 11] = [
    Relabel::Keep,
    Relabel::Id,
    Relabel::IdBit,
    Relabel::Key,
    Relabel::KeyPart,
    Relabel::Sig,
    Relabel::Stolen,
    Relabel::Mirror,
    Relabel::MirrorId,
    Relabel::UserIssued,
    Relabel::MirrorIssued,
];

/// `own`: the forger's, `victim`: whom it wants to be, `target`: whom it talks to
pub fn relabel(kind: &str, how: Relabel, own: &User, victim: &User, target: &User, rng: &mut HRng) -> User {
    let n = pk_len(kind);
    let mut u = own.clone();
    match how {
        Relabel::Keep => {}
        Relabel::Id => u.id = victim.id,
        Relabel::IdBit => one_bit(&mut u.id, rng),
        Relabel::Key | Relabel::KeyPart => {
            u.id = victim.id;
            u.cert = victim.cert.clone();
            if how == Relabel::KeyPart && kind == "sigdh" {
                match rng.next_u32() % 3 {
                    // the victim's DH key with the forger's signature key
                    0 => u.upk = [&own.upk[..32], &victim.upk[32..]].concat(),
                    // its own certificate with another key in one half
                    1 => {
                        u = own.clone();
                        u.dh = b32(rng);
                        u.upk = [&own.upk[..32], &x25519_pk(&u.dh)].concat();
                    }
                    _ => {
                        u = own.clone();
                        let k = Sk::gen(kind, rng);
                        u.upk = [&k.pk()[..], &own.upk[32..]].concat();
                        u.sk = Some(k);
                    }
                }
            }
        }
        Relabel::Sig => u.id = victim.id,
        Relabel::Stolen => {
            u.id = victim.id;
            u.upk = victim.upk.clone();
            u.cert = victim.cert.clone();
        }
        Relabel::Mirror => {
            u.id = target.id;
            u.upk = target.upk.clone();
            u.cert = target.cert.clone();
        }
        Relabel::MirrorId => {
            u = target.clone();
            u.id = victim.id;
        }
        Relabel::UserIssued | Relabel::MirrorIssued => {
            u.id = victim.id;
            let by = if how == Relabel::UserIssued { own } else { target };
            if let Some(k) = &by.sk {
                let sig = k.sign(&[&u.id[..], &u.upk].concat());
                u.cert = [&u.id[..], &u.upk, &sig].concat();
            }
        }
    }
    let sig = u.cert[32 + n..].to_vec();
    u.cert = [&u.id[..], &u.upk, &sig].concat();
    u
}
