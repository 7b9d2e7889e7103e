//! A uniform, monitored view of every protocol in the repository, and a driver that records traces.
use crate::core::guard;
use crate::entropy::HRng;
use latke::chip::Chip;
use latke::ibke::{
    fg_ibke::FgIbkeC,
    id_hmqv_c::IdHmqvC,
    id_sig_dh::IdSigDh,
    id_sigma_r::{IdSigmaRDilithium2, IdSigmaREd25519},
};
use latke::latke::{Latke, LatkePwfile, PeerModel};
use latke::pake::{cake::Cake, cpace::Cpace, kc_spake2::KcSpake2};
use latke::{Id, IdentityBasedKeyExchange, Pake, PartyRole, SessKey, Ssid};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Msg(Vec<u8>),
    Nothing,
    Reject(String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Fin {
    pub id: Option<Id>,
    pub key: SessKey,
}

pub trait Party {
    fn step(&mut self, msg: &[u8]) -> Out;
    /// Completion as the implementation reports it
    fn done(&self) -> bool;
    /// What the implementation hands out as key (and peer identity), if it does
    fn fin(&self) -> Option<Fin>;
    /// Whether `done` is an independent report (false for CHIP, which has none)
    fn reports_done(&self) -> bool {
        true
    }
    /// Log of the caller-supplied randomness consumed
    fn rng(&mut self) -> Option<&mut HRng> {
        None
    }
}

pub fn accepted(p: &dyn Party) -> Option<Fin> {
    if p.done() {
        p.fin()
    } else {
        None
    }
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub role: PartyRole,
    pub ssid: Ssid,
    /// Password; for the IBKEs the name of the authority
    pub secret: Vec<u8>,
    pub id: Id,
    /// Expected peer (CHIP, pre-specified LATKE)
    pub peer: Option<Id>,
    /// Randomness of the user's long-term keys
    pub user_seed: u64,
    /// Randomness handed to the session
    pub rng_seed: u64,
    /// Bit of the session randomness to flip
    pub flip: Option<usize>,
    /// Bit of the long-term key randomness to flip
    pub user_flip: Option<usize>,
}

impl Cfg {
    pub fn rng(&self) -> HRng {
        let mut r = HRng::new(self.rng_seed);
        r.flip = self.flip;
        r
    }
    pub fn user_rng(&self) -> HRng {
        let mut r = HRng::new(self.user_seed);
        r.flip = self.user_flip;
        r
    }
    pub fn initiator(&self) -> bool {
        self.role == PartyRole::Initiator
    }
}

pub struct PakeParty<P: Pake> {
    p: P,
    rng: HRng,
}
impl<P: Pake> PakeParty<P> {
    pub fn new(c: &Cfg) -> Self {
        let mut rng = c.rng();
        PakeParty { p: P::new(&mut rng, c.ssid, &c.secret, c.role), rng }
    }
}
fn out<E: core::fmt::Debug>(r: Result<Result<Option<Vec<u8>>, E>, String>) -> Out {
    match r {
        Ok(Ok(Some(m))) => Out::Msg(m),
        Ok(Ok(None)) => Out::Nothing,
        Ok(Err(e)) => Out::Reject(format!("error: {:?}", e)),
        Err(p) => Out::Reject(format!("panic: {}", p)),
    }
}
impl<P: Pake> Party for PakeParty<P> {
    fn step(&mut self, msg: &[u8]) -> Out {
        let p = &mut self.p;
        out(guard(|| p.run(msg)))
    }
    fn done(&self) -> bool {
        self.p.is_done()
    }
    fn fin(&self) -> Option<Fin> {
        guard(|| self.p.finalize()).ok().map(|key| Fin { id: None, key })
    }
    fn rng(&mut self) -> Option<&mut HRng> {
        Some(&mut self.rng)
    }
}

/// The authority a name stands for
pub fn authority<I: IdentityBasedKeyExchange>(name: &[u8]) -> (I::MainPubkey, I::MainPrivkey) {
    I::gen_main_keypair(HRng::new(crate::core::h64(name) ^ 0xA07))
}

pub struct IbkeParty<I: IdentityBasedKeyExchange> {
    s: I,
    rng: HRng,
}
impl<I: IdentityBasedKeyExchange> IbkeParty<I> {
    pub fn new(c: &Cfg) -> Self {
        let (mpk, msk) = authority::<I>(&c.secret);
        let mut u = c.user_rng();
        let (upk, usk) = I::gen_user_keypair(&mut u);
        let cert = I::extract(&mut u, &msk, &c.id, &upk);
        let mut rng = c.rng();
        let s = I::new_session(&mut rng, c.ssid, mpk, cert, usk, c.role);
        IbkeParty { s, rng }
    }
    pub fn from_session(s: I, rng: HRng) -> Self {
        IbkeParty { s, rng }
    }
}
impl<I: IdentityBasedKeyExchange> Party for IbkeParty<I> {
    fn step(&mut self, msg: &[u8]) -> Out {
        let (s, rng) = (&mut self.s, &mut self.rng);
        out(guard(|| s.run(rng, msg)))
    }
    fn done(&self) -> bool {
        self.s.is_done()
    }
    fn fin(&self) -> Option<Fin> {
        guard(|| self.s.finalize()).ok().map(|(id, key)| Fin { id: Some(id), key })
    }
    fn rng(&mut self) -> Option<&mut HRng> {
        Some(&mut self.rng)
    }
}

pub struct ChipParty<P: Pake> {
    s: Chip<P>,
    rng: HRng,
}
impl<P: Pake> ChipParty<P> {
    pub fn new(c: &Cfg) -> Self {
        let pwfile = Chip::<P>::gen_pwfile(c.user_rng(), c.secret.clone(), c.id);
        let mut rng = c.rng();
        let s = Chip::new_session(&mut rng, c.ssid, pwfile, c.role, c.peer.unwrap());
        ChipParty { s, rng }
    }
}
impl<P: Pake> Party for ChipParty<P> {
    fn step(&mut self, msg: &[u8]) -> Out {
        let (s, rng) = (&mut self.s, &mut self.rng);
        out(guard(|| s.run(rng, msg)))
    }
    fn done(&self) -> bool {
        self.fin().is_some()
    }
    fn reports_done(&self) -> bool {
        false
    }
    fn fin(&self) -> Option<Fin> {
        guard(|| self.s.finalize()).ok().map(|key| Fin { id: None, key })
    }
    fn rng(&mut self) -> Option<&mut HRng> {
        Some(&mut self.rng)
    }
}

pub struct LatkeParty<I: IdentityBasedKeyExchange, P: Pake> {
    s: Latke<I, P>,
    rng: HRng,
}
pub fn latke_pwfile<I: IdentityBasedKeyExchange, P: Pake>(
    pw: &[u8],
    id: &Id,
    user_seed: u64,
) -> LatkePwfile<I> {
    Latke::<I, P>::gen_pwfile(HRng::new(user_seed), pw, id)
}
impl<I: IdentityBasedKeyExchange, P: Pake> LatkeParty<I, P> {
    pub fn new(c: &Cfg) -> Self {
        let f = Latke::<I, P>::gen_pwfile(c.user_rng(), &c.secret, &c.id);
        Self::with_pwfile(c, f)
    }
    pub fn with_pwfile(c: &Cfg, f: LatkePwfile<I>) -> Self {
        let mut rng = c.rng();
        let peer = match c.peer {
            Some(p) => PeerModel::PreSpecified(p),
            None => PeerModel::PostSpecified,
        };
        let s = Latke::new_session(&mut rng, c.ssid, f, c.role, peer);
        LatkeParty { s, rng }
    }
}
impl<I: IdentityBasedKeyExchange, P: Pake> Party for LatkeParty<I, P> {
    fn step(&mut self, msg: &[u8]) -> Out {
        let (s, rng) = (&mut self.s, &mut self.rng);
        match guard(|| s.run(rng, msg)) {
            Ok(Some(m)) => Out::Msg(m),
            Ok(None) => Out::Nothing,
            Err(p) => Out::Reject(format!("panic: {}", p)),
        }
    }
    fn done(&self) -> bool {
        self.s.is_done()
    }
    fn fin(&self) -> Option<Fin> {
        guard(|| self.s.finalize()).ok().map(|(id, key)| Fin { id: Some(id), key })
    }
    fn rng(&mut self) -> Option<&mut HRng> {
        Some(&mut self.rng)
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Pake,
    Ibke,
    Chip,
    LatkePre,
    LatkePost,
}

#[derive(Clone)]
pub struct Proto {
    pub name: String,
    pub kind: Kind,
    pub pake: &'static str,
    pub ibke: &'static str,
    /// Sizes of the messages of an honest run, in order (0: the empty hand-over message)
    pub msgs: Vec<usize>,
    /// Whether both-accept with different keys is impossible without rejection when keys differ
    pub confirms: bool,
    /// Relative cost of a session
    pub cost: usize,
    pub mk: fn(&Cfg) -> Box<dyn Party>,
}

impl Proto {
    pub fn latke(&self) -> bool {
        matches!(self.kind, Kind::LatkePre | Kind::LatkePost)
    }
    pub fn has_ids(&self) -> bool {
        matches!(self.kind, Kind::Ibke | Kind::LatkePre | Kind::LatkePost)
    }
    pub fn wants_peer(&self) -> bool {
        matches!(self.kind, Kind::Chip | Kind::LatkePre)
    }
    /// Number of PAKE-phase slots at the front (LATKE, CHIP: after 2)
    pub fn pake_msgs(&self) -> usize {
        pake_sizes(self.pake).len()
    }
}

pub fn pake_sizes(p: &str) -> Vec<usize> {
    match p {
        "cake" => vec![672, 736],
        "cpace" => vec![48, 32],
        "kcspake2" => vec![33, 65, 32],
        _ => vec![],
    }
}
pub fn ibke_sizes(i: &str) -> Vec<usize> {
    match i {
        "fg" => vec![96, 128, 32],
        "hmqv" => vec![160, 192, 32],
        "sigdh" => vec![256, 256],
        "sigma-ed25519" => vec![704, 768, 268, 268],
        "sigma-dilithium2" => vec![704, 768, 6260, 6260],
        _ => vec![],
    }
}
/// nonce and MAC
pub const OVERHEAD: usize = 44;

fn pake_cost(p: &str) -> usize {
    match p {
        "cake" => 4,
        _ => 1,
    }
}
fn ibke_cost(i: &str) -> usize {
    match i {
        "sigma-ed25519" => 4,
        "sigma-dilithium2" => 12,
        _ => 2,
    }
}

fn mk_pake<P: Pake + 'static>(c: &Cfg) -> Box<dyn Party> {
    Box::new(PakeParty::<P>::new(c))
}
fn mk_ibke<I: IdentityBasedKeyExchange + 'static>(c: &Cfg) -> Box<dyn Party> {
    Box::new(IbkeParty::<I>::new(c))
}
fn mk_chip<P: Pake + 'static>(c: &Cfg) -> Box<dyn Party> {
    Box::new(ChipParty::<P>::new(c))
}
fn mk_latke<I: IdentityBasedKeyExchange + 'static, P: Pake + 'static>(c: &Cfg) -> Box<dyn Party> {
    Box::new(LatkeParty::<I, P>::new(c))
}

pub fn pakes() -> Vec<Proto> {
    fn p(name: &'static str, mk: fn(&Cfg) -> Box<dyn Party>) -> Proto {
        Proto {
            name: name.into(),
            kind: Kind::Pake,
            pake: name,
            ibke: "",
            msgs: pake_sizes(name),
            confirms: name == "kcspake2",
            cost: pake_cost(name),
            mk,
        }
    }
    vec![
        p("cake", mk_pake::<Cake>),
        p("cpace", mk_pake::<Cpace>),
        p("kcspake2", mk_pake::<KcSpake2>),
    ]
}

pub fn ibkes() -> Vec<Proto> {
    fn p(name: &'static str, mk: fn(&Cfg) -> Box<dyn Party>) -> Proto {
        Proto {
            name: name.into(),
            kind: Kind::Ibke,
            pake: "",
            ibke: name,
            msgs: ibke_sizes(name),
            confirms: true,
            cost: ibke_cost(name),
            mk,
        }
    }
    vec![
        p("fg", mk_ibke::<FgIbkeC>),
        p("hmqv", mk_ibke::<IdHmqvC>),
        p("sigdh", mk_ibke::<IdSigDh>),
        p("sigma-ed25519", mk_ibke::<IdSigmaREd25519>),
        p("sigma-dilithium2", mk_ibke::<IdSigmaRDilithium2>),
    ]
}

pub fn chips() -> Vec<Proto> {
    fn p(pake: &'static str, mk: fn(&Cfg) -> Box<dyn Party>) -> Proto {
        Proto {
            name: format!("chip/{}", pake),
            kind: Kind::Chip,
            pake,
            ibke: "",
            msgs: [vec![64, 64], pake_sizes(pake)].concat(),
            confirms: pake == "kcspake2",
            cost: 1 + pake_cost(pake),
            mk,
        }
    }
    vec![
        p("cake", mk_chip::<Cake>),
        p("cpace", mk_chip::<Cpace>),
        p("kcspake2", mk_chip::<KcSpake2>),
    ]
}

pub fn latke_sizes(pake: &str, ibke: &str) -> Vec<usize> {
    let mut v = pake_sizes(pake);
    if v.len() % 2 == 1 {
        v.push(0)
    }
    v.extend(ibke_sizes(ibke).iter().map(|s| s + OVERHEAD));
    v
}

pub fn latkes() -> Vec<Proto> {
    let mut v = vec![];
    macro_rules! one {
        ($in:expr, $i:ty, $pn:expr, $p:ty) => {
            for pre in [true, false] {
                v.push(Proto {
                    name: format!("latke-{}/{}/{}", if pre { "pre" } else { "post" }, $in, $pn),
                    kind: if pre { Kind::LatkePre } else { Kind::LatkePost },
                    pake: $pn,
                    ibke: $in,
                    msgs: latke_sizes($pn, $in),
                    confirms: true,
                    cost: pake_cost($pn) + ibke_cost($in),
                    mk: mk_latke::<$i, $p>,
                })
            }
        };
    }
    macro_rules! all {
        ($in:expr, $i:ty) => {
            one!($in, $i, "cake", Cake);
            one!($in, $i, "cpace", Cpace);
            one!($in, $i, "kcspake2", KcSpake2);
        };
    }
    all!("fg", FgIbkeC);
    all!("hmqv", IdHmqvC);
    all!("sigdh", IdSigDh);
    all!("sigma-ed25519", IdSigmaREd25519);
    all!("sigma-dilithium2", IdSigmaRDilithium2);
    v
}

pub fn protos() -> Vec<Proto> {
    let mut v = pakes();
    v.extend(ibkes());
    v.extend(chips());
    v.extend(latkes());
    v
}

#[derive(Clone, Debug)]
pub struct Ev {
    pub from: usize,
    /// What the party produced (None: nothing)
    pub sent: Option<Vec<u8>>,
    /// What its peer was given
    pub delivered: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub evs: Vec<Ev>,
    pub rej: [Option<String>; 2],
    /// The driver gave up: neither party finished
    pub stuck: bool,
}

impl Trace {
    pub fn bytes(&self) -> Vec<u8> {
        let mut b = vec![];
        for e in &self.evs {
            b.push(e.from as u8);
            b.extend(e.sent.as_deref().unwrap_or(&[]));
            b.extend(&e.delivered)
        }
        b
    }
    pub fn sizes(&self) -> Vec<usize> {
        self.evs.iter().map(|e| e.sent.as_ref().map(|m| m.len()).unwrap_or(0)).collect()
    }
    pub fn rejected(&self) -> bool {
        self.rej.iter().any(|r| r.is_some())
    }
}

/// Runs two parties to the end. `net` sees (slot, sender's output) and returns what is delivered.
pub fn drive(
    i: &mut dyn Party,
    r: &mut dyn Party,
    max: usize,
    net: &mut dyn FnMut(usize, &[u8]) -> Vec<u8>,
) -> Trace {
    let mut t = Trace::default();
    let mut cur: Vec<u8> = vec![];
    for k in 0..max {
        let w = k % 2;
        let p: &mut dyn Party = if w == 0 { i } else { r };
        if p.done() {
            return t;
        }
        match p.step(&cur) {
            Out::Msg(m) => {
                cur = net(k, &m);
                t.evs.push(Ev { from: w, sent: Some(m), delivered: cur.clone() });
            }
            Out::Nothing => {
                if p.done() {
                    // finished; what its peer would be given is an empty message
                    t.evs.push(Ev { from: w, sent: None, delivered: vec![] });
                    cur = vec![];
                } else {
                    cur = net(k, &[]);
                    t.evs.push(Ev { from: w, sent: None, delivered: cur.clone() });
                }
            }
            Out::Reject(e) => {
                t.rej[w] = Some(e);
                return t;
            }
        }
    }
    t.stuck = true;
    t
}

pub fn faithful(i: &mut dyn Party, r: &mut dyn Party, max: usize) -> Trace {
    drive(i, r, max, &mut |_, m| m.to_vec())
}

pub fn role(i: usize) -> PartyRole {
    if i == 0 {
        PartyRole::Initiator
    } else {
        PartyRole::Responder
    }
}
