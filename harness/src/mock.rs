//! Stand-ins for the PAKE and the identity exchange inside LATKE and CHIP: they record what the
//! composition hands them and return what the case scripted.
use crate::core::h64;
use crate::entropy::HRng;
use crate::party::*;
use crate::refs::kdf::h256;
use latke::latke::{Latke, PeerModel};
use latke::{AsBytes, Id, IdCertificate, IdentityBasedKeyExchange, Pake, PartyRole, SessKey, Ssid};
use rand_core::{CryptoRng, RngCore};
use std::cell::RefCell;

#[derive(Clone, Debug)]
pub struct PakeNew {
    pub ssid: Ssid,
    pub input: Vec<u8>,
    pub role: PartyRole,
    /// What the PAKE drew from the randomness it was given
    pub draw: [u8; 32],
}

pub struct Script {
    /// Sizes of the PAKE messages
    pub pake_msgs: Vec<usize>,
    /// PAKE key by role; by default a hash of session id and input
    pub pake_key: Option<[SessKey; 2]>,
    pub pake_news: Vec<PakeNew>,
    pub pake_got: Vec<(PartyRole, Vec<u8>)>,
    /// Plaintexts of the inner exchange, in order
    pub inner: Vec<Vec<u8>>,
    /// Keys and peer identities the inner exchange outputs at the initiator and responder
    pub inner_key: [SessKey; 2],
    pub inner_id: [Id; 2],
    /// What the inner exchange received: (role, step, plaintext)
    pub inner_got: Vec<(PartyRole, usize, Vec<u8>)>,
    /// Simulated steps: (role, step)
    pub inner_sim: Vec<(PartyRole, usize)>,
    /// Main public keys handed to new sessions
    pub inner_mpk: Vec<Vec<u8>>,
    /// Session ids and roles handed to new inner sessions
    pub inner_news: Vec<(Ssid, PartyRole)>,
    /// What the inner exchange drew when it was created and at every step
    pub inner_draws: Vec<[u8; 32]>,
}

thread_local! {
    static S: RefCell<Script> = RefCell::new(Script::blank());
}
impl Script {
    pub fn blank() -> Script {
        Script {
            pake_msgs: vec![5, 6],
            pake_key: None,
            pake_news: vec![],
            pake_got: vec![],
            inner: vec![],
            inner_key: [[0; 32]; 2],
            inner_id: [[0; 32]; 2],
            inner_got: vec![],
            inner_sim: vec![],
            inner_mpk: vec![],
            inner_news: vec![],
            inner_draws: vec![],
        }
    }
}
pub fn set(s: Script) {
    S.with(|x| *x.borrow_mut() = s)
}
pub fn with<T>(f: impl FnOnce(&mut Script) -> T) -> T {
    S.with(|x| f(&mut x.borrow_mut()))
}
pub fn ix(r: PartyRole) -> usize {
    if r == PartyRole::Initiator {
        0
    } else {
        1
    }
}

fn draw(rng: &mut impl RngCore) -> [u8; 32] {
    let mut d = [0; 32];
    rng.fill_bytes(&mut d);
    d
}
pub struct MockPake {
    ssid: Ssid,
    input: Vec<u8>,
    role: PartyRole,
    step: usize,
    done: bool,
}
impl Pake for MockPake {
    type Error = ();
    fn new<R: RngCore + CryptoRng>(mut rng: R, ssid: Ssid, password: &[u8], role: PartyRole) -> Self {
        let draw = draw(&mut rng);
        with(|s| s.pake_news.push(PakeNew { ssid, input: password.to_vec(), role, draw }));
        MockPake { ssid, input: password.to_vec(), role, step: ix(role), done: false }
    }
    fn run(&mut self, msg: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        let s = self.step;
        self.step += 2;
        with(|x| {
            x.pake_got.push((self.role, msg.to_vec()));
            let n = x.pake_msgs.len();
            if s + 1 >= n {
                self.done = true
            }
            Ok(x.pake_msgs.get(s).map(|l| vec![s as u8 ^ 0x50; *l]))
        })
    }
    fn is_done(&self) -> bool {
        self.done
    }
    fn finalize(&self) -> SessKey {
        with(|x| x.pake_key.map(|k| k[ix(self.role)]).unwrap_or_else(|| h256(&[b"mock pake", &self.ssid, &self.input])))
    }
}

#[derive(Clone)]
pub struct MockMpk(pub Vec<u8>);
impl AsBytes for MockMpk {
    fn as_bytes(&self) -> &[u8] {
        &self.0
    }
}
#[derive(Clone)]
pub struct MockCert(pub Id, pub Vec<u8>);
impl IdCertificate for MockCert {
    fn id(&self) -> Id {
        self.0
    }
}
pub struct MockIbke {
    role: PartyRole,
    step: usize,
    done: bool,
}
impl IdentityBasedKeyExchange for MockIbke {
    type MainPubkey = MockMpk;
    type MainPrivkey = Vec<u8>;
    type UserPubkey = u64;
    type UserPrivkey = u64;
    type Certificate = MockCert;
    type Error = ();
    fn gen_main_keypair<R: RngCore + CryptoRng>(mut rng: R) -> (MockMpk, Vec<u8>) {
        let mut b = vec![0; 48];
        rng.fill_bytes(&mut b);
        (MockMpk(b.clone()), b)
    }
    fn gen_user_keypair<R: RngCore + CryptoRng>(mut rng: R) -> (u64, u64) {
        let v = rng.next_u64();
        (v, v)
    }
    fn extract<R: RngCore + CryptoRng>(_: R, msk: &Vec<u8>, id: &Id, upk: &u64) -> MockCert {
        MockCert(*id, [&msk[..], &upk.to_le_bytes()].concat())
    }
    fn new_session<R: RngCore + CryptoRng>(mut rng: R, ssid: Ssid, mpk: MockMpk, _: MockCert, _: u64, role: PartyRole) -> Self {
        let d = draw(&mut rng);
        with(|s| {
            s.inner_draws.push(d);
            s.inner_mpk.push(mpk.0);
            s.inner_news.push((ssid, role));
        });
        MockIbke { role, step: ix(role), done: false }
    }
    fn run<R: RngCore + CryptoRng>(&mut self, mut rng: R, m: &[u8]) -> Result<Option<Vec<u8>>, ()> {
        let s = self.step;
        self.step += 2;
        let d = draw(&mut rng);
        with(|x| {
            x.inner_draws.push(d);
            x.inner_got.push((self.role, s, m.to_vec()));
            if s + 1 >= x.inner.len() {
                self.done = true
            }
            Ok(x.inner.get(s).cloned())
        })
    }
    fn run_sim(&mut self) -> Option<usize> {
        let s = self.step;
        self.step += 2;
        with(|x| {
            x.inner_sim.push((self.role, s));
            if s + 1 >= x.inner.len() {
                self.done = true
            }
            x.inner.get(s).map(|m| m.len())
        })
    }
    fn is_done(&self) -> bool {
        self.done
    }
    fn finalize(&self) -> (Id, SessKey) {
        assert!(self.done);
        with(|x| (x.inner_id[ix(self.role)], x.inner_key[ix(self.role)]))
    }
}

/// LATKE over a recorded PAKE and the scripted exchange
pub fn mock_latke(c: &Cfg) -> Box<dyn Party> {
    Box::new(LatkeParty::<MockIbke, MockPake>::new(c))
}
/// A LATKE session over any identity exchange with a recorded PAKE
pub fn latke_over<I: IdentityBasedKeyExchange + 'static>(c: &Cfg) -> Box<dyn Party> {
    Box::new(LatkeParty::<I, MockPake>::new(c))
}
pub fn chip_over(c: &Cfg) -> Box<dyn Party> {
    Box::new(ChipParty::<MockPake>::new(c))
}
/// The PAKE input of a fresh session over `I`
pub fn pake_input<I: IdentityBasedKeyExchange>(pw: &[u8], id: &Id, role: PartyRole, ssid: Ssid, peer: Option<Id>, seed: u64) -> PakeNew {
    with(|s| s.pake_news.clear());
    let f = Latke::<I, MockPake>::gen_pwfile(HRng::new(seed), pw, id);
    let peer = match peer {
        Some(p) => PeerModel::PreSpecified(p),
        None => PeerModel::PostSpecified,
    };
    let _ = Latke::<I, MockPake>::new_session(HRng::new(h64(&seed.to_le_bytes())), ssid, f, role, peer);
    with(|s| s.pake_news.last().cloned().expect("the session made no PAKE"))
}
