//! A small configurable protocol, signatures which bind what is signed, and a driver for several sessions.
#![allow(dead_code, unused_imports)]

pub use std::collections::{BTreeMap, BTreeSet, VecDeque};
pub use std::sync::{Arc, Mutex};

pub use manul::combinators::chain::*;
pub use manul::dev::*;
pub use manul::protocol::*;
pub use manul::session::*;
pub use rand_chacha::ChaCha8Rng;
pub use rand_core::{CryptoRngCore, RngCore, SeedableRng};
pub use serde::{Deserialize, Serialize};
pub use serde_json::{json, Value};
use sha3::{Digest, Sha3_256};

// Signatures

#[derive(Debug, Clone)]
pub struct Signer(pub V, pub Arc<Mutex<Vec<(V, u64)>>>);

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct V(pub u8);

impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "P{}", self.0)
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Sig {
    tag: Vec<u8>,
    nonce: u64,
}

fn tag(v: V, nonce: u64, digest: &[u8]) -> Vec<u8> {
    Sha3_256::new().chain_update([v.0]).chain_update(nonce.to_be_bytes()).chain_update(digest).finalize().to_vec()
}

impl signature::Keypair for Signer {
    type VerifyingKey = V;
    fn verifying_key(&self) -> V {
        self.0
    }
}
impl signature::RandomizedDigestSigner<Sha3_256, Sig> for Signer {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, digest: Sha3_256) -> Result<Sig, signature::Error> {
        let nonce = rng.next_u64();
        self.1.lock().unwrap().push((self.0, nonce));
        Ok(Sig { tag: tag(self.0, nonce, &digest.finalize()), nonce })
    }
}
impl signature::DigestVerifier<Sha3_256, Sig> for V {
    fn verify_digest(&self, digest: Sha3_256, s: &Sig) -> Result<(), signature::Error> {
        if tag(*self, s.nonce, &digest.finalize()) == s.tag {
            Ok(())
        } else {
            Err(signature::Error::new())
        }
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct SP;
impl SessionParameters for SP {
    type Signer = Signer;
    type Verifier = V;
    type Digest = Sha3_256;
    type Signature = Sig;
    type WireFormat = HumanReadableFormat;
}

// The protocol: the kinds of the messages in a round are given by the remainder of its number:
// 1 - all the kinds, 2 - direct messages, 3 - echoed broadcasts, 0 - normal broadcasts

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Msg(pub u64);

/// What a party receives: the direct message, the echoed broadcast, the normal broadcast
pub type Parts = [Option<u64>; 3];

pub struct Cfg {
    pub ids: Vec<V>,
    pub path: Vec<u8>,
    /// The value of the message of the given party in the given round, of the given kind, to the destination
    pub value: Box<dyn Fn(V, u8, usize, Option<V>) -> u64 + Send + Sync>,
    /// Whether the message is wrong, for the receiver, the sender and the round
    pub bad: Box<dyn Fn(V, V, u8, Parts) -> Option<Bad> + Send + Sync>,
    pub comm: Box<dyn Fn(V, u8) -> Option<CommunicationInfo<V>> + Send + Sync>,
    /// Judges what the verifier of the evidence is shown
    pub judge: Box<dyn Fn(&Shown) -> bool + Send + Sync>,
    /// Called at the creation of the direct message: fail or delay
    pub direct: Box<dyn Fn(V, u8, V) -> Result<(), LocalError> + Send + Sync>,
    pub info: Box<dyn Fn(V, u8, TransitionInfo) -> TransitionInfo + Send + Sync>,
    pub next: Box<dyn Fn(V, u8) -> Option<u8> + Send + Sync>,
    pub log: Mutex<Vec<String>>,
    pub randomness: Mutex<Vec<(V, u8, u64)>>,
}

#[derive(Debug, Clone)]
pub enum Bad {
    Unprovable,
    Local,
    Proof(DErr),
}

#[derive(Debug, Clone, Default)]
pub struct Shown {
    pub from: u8,
    pub round: u8,
    pub randomness: Vec<u8>,
    pub this: Parts,
    pub previous: BTreeMap<u8, Parts>,
    pub combined: BTreeMap<u8, BTreeMap<u8, u64>>,
}

impl std::fmt::Debug for Cfg {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Cfg")
    }
}

impl Cfg {
    pub fn new(n: u8, path: &[u8]) -> Self {
        let p = path.to_vec();
        Cfg {
            ids: (0..n).map(V).collect(),
            path: path.to_vec(),
            value: Box::new(|me, num, kind, dest| {
                me.0 as u64 * 10000 + num as u64 * 100 + kind as u64 * 10 + dest.map(|d| d.0 as u64 + 1).unwrap_or(0)
            }),
            bad: Box::new(|_, _, _, _| None),
            comm: Box::new(|_, _| None),
            judge: Box::new(|_| true),
            direct: Box::new(|_, _, _| Ok(())),
            info: Box::new(|_, _, info| info),
            next: Box::new(move |_, num| {
                let at = p.iter().position(|x| *x == num)?;
                p.get(at + 1).copied()
            }),
            log: Default::default(),
            randomness: Default::default(),
        }
    }
    pub fn others(&self, me: V) -> BTreeSet<V> {
        self.ids.iter().copied().filter(|i| *i != me).collect()
    }
    pub fn log(&self, s: String) {
        self.log.lock().unwrap().push(s);
    }
    pub fn logged(&self, s: &str) -> usize {
        self.log.lock().unwrap().iter().filter(|l| l.contains(s)).count()
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Demo<const H: u8>;
impl<const H: u8> Protocol<V> for Demo<H> {
    type Result = u64;
    type SharedData = Arc<Cfg>;
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<V, Self>> {
        (1..=40).find(|n| *round_id == *n).map(|n| match n % 4 {
            1 => RoundInfo::new::<All<H>>(),
            2 => RoundInfo::new::<Direct<H>>(),
            3 => RoundInfo::new::<Echo<H>>(),
            _ => RoundInfo::new::<Normal<H>>(),
        })
    }
}

#[derive(Debug, Clone)]
pub struct St<const H: u8> {
    pub cfg: Arc<Cfg>,
    pub me: V,
    pub num: u8,
    pub sum: u64,
}

impl<const H: u8> St<H> {
    fn round(self) -> BoxedRound<V, Demo<H>> {
        match self.num % 4 {
            1 => BoxedRound::new(All(self)),
            2 => BoxedRound::new(Direct(self)),
            3 => BoxedRound::new(Echo(self)),
            _ => BoxedRound::new(Normal(self)),
        }
    }
    fn info(&self) -> TransitionInfo {
        let path = &self.cfg.path;
        let at = path.iter().position(|x| *x == self.num).unwrap_or(0);
        let id = |at: usize| path.get(at).map(|n| RoundId::new(*n)).into_iter().collect::<BTreeSet<_>>();
        let info = TransitionInfo {
            id: RoundId::new(self.num),
            parents: if at > 0 { id(at - 1) } else { Default::default() },
            siblings: Default::default(),
            children: id(at + 1),
            may_produce_result: at + 1 == path.len(),
        };
        (self.cfg.info)(self.me, self.num, info)
    }
    fn comm(&self) -> CommunicationInfo<V> {
        (self.cfg.comm)(self.me, self.num).unwrap_or(CommunicationInfo::regular(&self.cfg.others(self.me)))
    }
    fn value(&self, rng: &mut impl CryptoRngCore, kind: usize, dest: Option<V>) -> Msg {
        self.cfg.log(format!("make H{H} R{} K{kind} {:?} -> {dest:?}", self.num, self.me));
        self.cfg.randomness.lock().unwrap().push((self.me, self.num, rng.next_u64()));
        Msg((self.cfg.value)(self.me, self.num, kind, dest))
    }
    fn receive<R: Round<V, ProtocolError = DErrOf<H, R>>>(&self, from: &V, parts: Parts) -> Result<u64, ReceiveError<V, R>> {
        self.cfg.log(format!("receive H{H} R{} {:?} <- {from:?} {parts:?}", self.num, self.me));
        match (self.cfg.bad)(self.me, *from, self.num, parts) {
            None => Ok(parts.iter().flatten().fold(0, |a, b| a.wrapping_mul(31).wrapping_add(*b))),
            Some(Bad::Unprovable) => Err(ReceiveError::Unprovable(RemoteError::new("wrong"))),
            Some(Bad::Local) => Err(ReceiveError::Local(LocalError::new("local"))),
            Some(Bad::Proof(e)) => Err(ReceiveError::Protocol(DErrOf(e, std::marker::PhantomData))),
        }
    }
    fn next(self, payloads: BTreeMap<V, u64>, artifacts: usize) -> Result<FinalizeOutcome<V, Demo<H>>, LocalError> {
        self.cfg.log(format!("finalize H{H} R{} {:?} {payloads:?} {artifacts}", self.num, self.me));
        let sum = payloads.values().fold(self.sum, |a, b| a.wrapping_mul(37).wrapping_add(*b));
        Ok(match (self.cfg.next)(self.me, self.num) {
            Some(num) => FinalizeOutcome::AnotherRound(St { sum, num, ..self }.round()),
            None => FinalizeOutcome::Result(sum),
        })
    }
}

/// Required messages: of this round (see `Parts`), of the previous rounds, and the combined echos.
#[derive(Debug, Clone, Default, Serialize, Deserialize)]
pub struct DErr {
    pub this: [bool; 3],
    pub previous: Vec<(u8, [bool; 3])>,
    pub combined: Vec<u8>,
}

#[derive(Serialize, Deserialize)]
#[serde(bound = "")]
pub struct DErrOf<const H: u8, R>(pub DErr, std::marker::PhantomData<fn() -> R>);
impl<const H: u8, R> Clone for DErrOf<H, R> {
    fn clone(&self) -> Self {
        DErrOf(self.0.clone(), std::marker::PhantomData)
    }
}
impl<const H: u8, R> std::fmt::Debug for DErrOf<H, R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

fn parts(p: [bool; 3]) -> RequiredMessageParts {
    let mut all: Option<RequiredMessageParts> = None;
    for (k, p) in p.into_iter().enumerate() {
        if p {
            all = Some(match (k, all) {
                (0, None) => RequiredMessageParts::direct_message(),
                (1, None) => RequiredMessageParts::echo_broadcast(),
                (_, None) => RequiredMessageParts::normal_broadcast(),
                (0, Some(a)) => a.and_direct_message(),
                (1, Some(a)) => a.and_echo_broadcast(),
                (_, Some(a)) => a.and_normal_broadcast(),
            });
        }
    }
    all.expect("some parts are required")
}

macro_rules! round {
    ($name:ident, $d:ty, $e:ty, $n:ty, $md:tt, $me:tt, $mn:tt) => {
        #[derive(Debug)]
        pub struct $name<const H: u8>(pub St<H>);
        impl<const H: u8> Round<V> for $name<H> {
            type Protocol = Demo<H>;
            type ProtocolError = DErrOf<H, Self>;
            type DirectMessage = $d;
            type EchoBroadcast = $e;
            type NormalBroadcast = $n;
            type Payload = u64;
            type Artifact = art!($md);
            fn transition_info(&self) -> TransitionInfo {
                self.0.info()
            }
            fn communication_info(&self) -> CommunicationInfo<V> {
                self.0.comm()
            }
            md!($md);
            me!($me);
            mn!($mn);
            fn receive_message(&self, from: &V, m: ProtocolMessage<V, Self>) -> Result<u64, ReceiveError<V, Self>> {
                self.0.receive::<Self>(from, [got!($md, m.direct_message), got!($me, m.echo_broadcast), got!($mn, m.normal_broadcast)])
            }
            fn finalize(
                self,
                _rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<V, u64>,
                artifacts: BTreeMap<V, Self::Artifact>,
            ) -> Result<FinalizeOutcome<V, Demo<H>>, LocalError> {
                self.0.next(payloads, artifacts.len())
            }
        }
        impl<const H: u8> ProtocolError<V> for DErrOf<H, $name<H>> {
            type Round = $name<H>;
            fn description(&self) -> String {
                "a wrong message".into()
            }
            fn required_messages(&self, _round_id: &RoundId) -> RequiredMessages {
                let e = &self.0;
                let previous = (!e.previous.is_empty())
                    .then(|| e.previous.iter().map(|(n, p)| (RoundId::new(*n), parts(*p))).collect());
                let combined = (!e.combined.is_empty()).then(|| e.combined.iter().map(|n| RoundId::new(*n)).collect());
                RequiredMessages::new(parts(e.this), previous, combined)
            }
            fn verify_evidence(
                &self,
                round_id: &RoundId,
                from: &V,
                randomness: &[u8],
                cfg: &Arc<Cfg>,
                m: EvidenceMessages<'_, V, $name<H>>,
            ) -> Result<(), EvidenceError> {
                let mut shown = Shown { from: from.0, randomness: randomness.to_vec(), ..Default::default() };
                shown.round = (1..=40).find(|n| *round_id == *n).unwrap_or(0);
                let e = &self.0;
                if e.this[0] {
                    shown.this[0] = got!($md, m.direct_message()?);
                }
                if e.this[1] {
                    shown.this[1] = got!($me, m.echo_broadcast()?);
                }
                if e.this[2] {
                    shown.this[2] = got!($mn, m.normal_broadcast()?);
                }
                for (n, p) in &e.previous {
                    let mut s = [None; 3];
                    if p[0] {
                        s[0] = Some(m.previous_direct_message::<All<H>>(*n)?.0);
                    }
                    if p[1] {
                        s[1] = Some(m.previous_echo_broadcast::<All<H>>(*n)?.0);
                    }
                    if p[2] {
                        s[2] = Some(m.previous_normal_broadcast::<All<H>>(*n)?.0);
                    }
                    shown.previous.insert(*n, s);
                }
                for n in &e.combined {
                    let all = m.combined_echos::<All<H>>(*n)?;
                    shown.combined.insert(*n, all.into_iter().map(|(v, m)| (v.0, m.0)).collect());
                }
                cfg.log(format!("shown {shown:?}"));
                if (cfg.judge)(&shown) {
                    Ok(())
                } else {
                    Err(EvidenceError::InvalidEvidence("nothing is wrong".into()))
                }
            }
        }
    };
}
macro_rules! art {
    (y) => { u64 };
    (n) => { NoArtifact };
}
macro_rules! got {
    (y, $m:expr) => { Some($m.0) };
    (n, $m:expr) => {{
        let _ = $m;
        None
    }};
}
macro_rules! md {
    (y) => {
        fn make_direct_message(&self, rng: &mut impl CryptoRngCore, to: &V) -> Result<(Msg, u64), LocalError> {
            (self.0.cfg.direct)(self.0.me, self.0.num, *to)?;
            let m = self.0.value(rng, 0, Some(*to));
            Ok((m, m.0))
        }
    };
    (n) => {};
}
macro_rules! me {
    (y) => {
        fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Msg, LocalError> {
            Ok(self.0.value(rng, 1, None))
        }
    };
    (n) => {};
}
macro_rules! mn {
    (y) => {
        fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Msg, LocalError> {
            Ok(self.0.value(rng, 2, None))
        }
    };
    (n) => {};
}
round!(All, Msg, Msg, Msg, y, y, y);
round!(Direct, Msg, NoMessage, NoMessage, y, n, n);
round!(Echo, NoMessage, Msg, NoMessage, n, y, n);
round!(Normal, NoMessage, NoMessage, Msg, n, n, y);

#[derive(Debug, Clone)]
pub struct Entry<const H: u8>(pub Arc<Cfg>, pub u64);
impl<const H: u8> EntryPoint<V> for Entry<H> {
    type Protocol = Demo<H>;
    fn entry_round_id() -> RoundId {
        RoundId::new(1)
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        shared: &[u8],
        id: &V,
    ) -> Result<BoxedRound<V, Demo<H>>, LocalError> {
        self.0.log(format!("entry H{H} {id:?} {} {shared:?}", self.1));
        let num = self.0.path[0];
        Ok(St { cfg: self.0, me: *id, num, sum: self.1 }.round())
    }
}

// A driver

pub struct Party<P: Protocol<V>> {
    pub id: V,
    pub session: Option<(Session<P, SP>, RoundAccumulator<P, SP>)>,
    pub report: Option<Result<SessionReport<P, SP>, LocalError>>,
}

pub fn signer(id: V) -> Signer {
    Signer(id, Default::default())
}

pub fn sid(s: &str) -> SessionId {
    SessionId::from_seed::<SP>(s.as_bytes())
}

pub type Packet = (V, V, Message<V>);

impl<P: Protocol<V>> Party<P> {
    pub fn new<EP: EntryPoint<V, Protocol = P>>(rng: &mut ChaCha8Rng, id: V, sid: SessionId, ep: EP, out: &mut Vec<Packet>) -> Self {
        let session = Session::<P, SP>::new(rng, sid, signer(id), ep).expect("the session starts");
        let mut this = Party { id, session: None, report: None };
        this.begin(rng, session, Vec::new(), out);
        this
    }

    fn begin(&mut self, rng: &mut ChaCha8Rng, session: Session<P, SP>, cached: Vec<VerifiedMessage<V>>, out: &mut Vec<Packet>) {
        let mut accum = session.make_accumulator();
        let r = (|| {
            for to in session.message_destinations().clone() {
                let (m, a) = session.make_message(rng, &to)?;
                session.add_artifact(&mut accum, a)?;
                out.push((self.id, to, m));
            }
            for m in cached {
                let p = session.process_message(m);
                session.add_processed_message(&mut accum, p)?;
            }
            Ok(())
        })();
        match r {
            Ok(()) => self.session = Some((session, accum)),
            Err(e) => self.report = Some(Err(e)),
        }
    }

    pub fn round(&self) -> String {
        self.session.as_ref().map(|(s, _)| s.round_id().to_string()).unwrap_or_default()
    }

    /// Delivers a message; returns what happened to it.
    pub fn deliver(&mut self, from: V, m: Message<V>) -> String {
        let Some((session, accum)) = self.session.as_mut() else { return "no session".into() };
        let outcome = session.preprocess_message(accum, &from, m);
        let r = match outcome {
            Ok(PreprocessOutcome::ToProcess(v)) => {
                let p = session.process_message(*v);
                session.add_processed_message(accum, p).map(|_| "processed".to_string())
            }
            Ok(PreprocessOutcome::Cached) => Ok("cached".into()),
            Ok(PreprocessOutcome::Error(e)) => Ok(format!("rejected: {e}")),
            Err(e) => Err(e),
        };
        r.unwrap_or_else(|e| {
            self.session = None;
            let s = format!("local error: {e:?}");
            self.report = Some(Err(e));
            s
        })
    }

    pub fn verdict(&self) -> Option<CanFinalize> {
        self.session.as_ref().map(|(s, a)| s.can_finalize(a))
    }

    /// Finalizes the rounds while possible
    pub fn advance(&mut self, rng: &mut ChaCha8Rng, out: &mut Vec<Packet>) {
        while let Some(verdict) = self.verdict() {
            if verdict == CanFinalize::NotYet {
                return;
            }
            self.finish(rng, out);
        }
    }

    /// Finalizes one round
    pub fn finish(&mut self, rng: &mut ChaCha8Rng, out: &mut Vec<Packet>) {
        let verdict = self.verdict();
        let Some((session, accum)) = self.session.take() else { return };
        if verdict == Some(CanFinalize::Never) {
            self.report = Some(session.terminate_due_to_errors(accum));
            return;
        }
        match session.finalize_round(rng, accum) {
            Err(e) => self.report = Some(Err(e)),
            Ok(RoundOutcome::Finished(r)) => self.report = Some(Ok(r)),
            Ok(RoundOutcome::AnotherRound { session, cached_messages }) => self.begin(rng, *session, cached_messages, out),
        }
    }

    pub fn terminate(&mut self) {
        if let Some((session, accum)) = self.session.take() {
            self.report = Some(session.terminate(accum));
        }
    }

    pub fn ok(&self) -> &SessionReport<P, SP> {
        match &self.report {
            Some(Ok(r)) => r,
            Some(Err(e)) => fail(&format!("{:?} failed with {e:?}", self.id)),
            None => fail(&format!("{:?} has not finished", self.id)),
        }
    }

    pub fn result(&self) -> &P::Result {
        match &self.ok().outcome {
            SessionOutcome::Result(r) => r,
            _ => fail(&format!("{:?} has no result: {}", self.id, self.ok().brief())),
        }
    }
}

pub struct Net<P: Protocol<V>> {
    pub rng: ChaCha8Rng,
    pub parties: BTreeMap<V, Party<P>>,
    pub pool: Vec<Packet>,
    pub all: Vec<Packet>,
}

impl<P: Protocol<V>> Net<P> {
    pub fn new<EP: EntryPoint<V, Protocol = P>>(seed: u64, sid: SessionId, eps: Vec<(V, EP)>) -> Self {
        let mut rng = ChaCha8Rng::seed_from_u64(seed);
        let mut pool = Vec::new();
        let parties = eps.into_iter().map(|(id, ep)| (id, Party::new(&mut rng, id, sid.clone(), ep, &mut pool))).collect();
        Net { rng, parties, pool, all: Vec::new() }
    }

    pub fn p(&mut self, id: u8) -> &mut Party<P> {
        self.parties.get_mut(&V(id)).unwrap()
    }

    /// Delivers the first packet in the pool selected by the predicate.
    pub fn deliver(&mut self, want: impl Fn(V, V) -> bool) -> Option<String> {
        let at = self.pool.iter().position(|(f, t, _)| want(*f, *t))?;
        let (from, to, m) = self.pool.remove(at);
        self.all.push((from, to, m.clone()));
        Some(self.inject(from, to, m))
    }

    pub fn inject(&mut self, from: V, to: V, m: Message<V>) -> String {
        let Some(p) = self.parties.get_mut(&to) else { return "nobody".into() };
        p.deliver(from, m)
    }

    pub fn advance(&mut self, id: u8) {
        let p = self.parties.get_mut(&V(id)).unwrap();
        p.advance(&mut self.rng, &mut self.pool);
    }

    pub fn finish(&mut self, id: u8) {
        let p = self.parties.get_mut(&V(id)).unwrap();
        p.finish(&mut self.rng, &mut self.pool);
    }

    /// Runs to the end, changing the packets on the way.
    pub fn run(&mut self, mut tamper: impl FnMut(V, V, Message<V>) -> Vec<Message<V>>) {
        for id in self.parties.keys().copied().collect::<Vec<_>>() {
            self.advance(id.0);
        }
        while !self.pool.is_empty() {
            let (from, to, m) = self.pool.remove(0);
            self.all.push((from, to, m.clone()));
            for m in tamper(from, to, m) {
                self.inject(from, to, m);
                if self.parties.contains_key(&to) {
                    self.advance(to.0);
                }
            }
        }
    }
}

pub fn net(seed: u64, cfg: &Arc<Cfg>) -> Net<Demo<0>> {
    let eps = cfg.ids.iter().map(|id| (*id, Entry::<0>(cfg.clone(), 0))).collect();
    Net::new(seed, sid("session"), eps)
}

pub fn enc(m: &Message<V>) -> Value {
    serde_json::to_value(m).unwrap()
}

pub fn dec(v: Value) -> Message<V> {
    serde_json::from_value(v).unwrap()
}

pub fn round_of(m: &Message<V>) -> String {
    let v = enc(m);
    v["direct_message"]["message_with_metadata"]["metadata"]["round_id"].to_string()
}

/// The serialized form of the round number
pub fn is_round(m: &Message<V>, num: u8, echo: bool) -> bool {
    let v = enc(m)["direct_message"]["message_with_metadata"]["metadata"]["round_id"].clone();
    v["round"] == json!(num) && v["is_echo"] == json!(echo)
}

pub fn fail(s: &str) -> ! {
    eprintln!("BROKEN: {s}");
    std::process::exit(1)
}

pub fn check(ok: bool, s: &str) {
    if !ok {
        fail(s)
    }
}

fn digest_prefix(prefix: &[u8]) -> Sha3_256 {
    Sha3_256::new_with_prefix(prefix)
}

fn from_base64(s: &str) -> Vec<u8> {
    const CHARS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let (mut out, mut acc, mut bits) = (Vec::new(), 0u32, 0);
    for c in s.bytes().filter(|c| *c != b'=') {
        acc = acc << 6 | CHARS.iter().position(|x| *x == c).expect("base64") as u32;
        bits += 6;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    out
}

fn to_base64(b: &[u8]) -> String {
    const CHARS: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::new();
    for c in b.chunks(3) {
        let v = c.iter().fold(0u32, |a, x| a << 8 | *x as u32) << (8 * (3 - c.len()));
        for i in 0..=c.len() {
            out.push(CHARS[(v >> (18 - 6 * i)) as usize & 63] as char);
        }
    }
    out
}

pub fn payload_of(part: &Value) -> Option<Vec<u8>> {
    part["message_with_metadata"]["message"].as_str().map(from_base64)
}

/// Replaces the payload of a part (0: echo broadcast, 1: normal broadcast, 2: direct message), signing it anew.
pub fn resign(part: &mut Value, kind: u8, by: V, payload: Option<&[u8]>) {
    let m = &mut part["message_with_metadata"];
    m["message"] = payload.map(|p| json!(to_base64(p))).unwrap_or(Value::Null);
    let sid: Value = m["metadata"]["session_id"].clone();
    let rid: Value = m["metadata"]["round_id"].clone();
    let metadata = format!(
        "{{\"session_id\":{sid},\"round_id\":{}}}",
        if rid.is_object() && rid.get("round").is_some() {
            format!("{{\"round\":{},\"groups\":{},\"is_echo\":{}}}", rid["round"], rid["groups"], rid["is_echo"])
        } else {
            rid.to_string()
        }
    );
    let mut h = digest_prefix(b"ProtocolMessagePart").chain_update([kind]);
    h = match payload {
        None => h.chain_update([0]),
        Some(p) => h.chain_update([1]).chain_update((p.len() as u64).to_be_bytes()).chain_update(p),
    };
    let hash = h.finalize();
    let digest = digest_prefix(b"SignedMessagePartDigest")
        .chain_update([kind])
        .chain_update(metadata)
        .chain_update((hash.len() as u64).to_be_bytes())
        .chain_update(hash)
        .finalize();
    let sig = serde_json::to_vec(&Sig { tag: tag(by, 7, &digest), nonce: 7 }).unwrap();
    part["signature"] = json!(format!("0x{}", sig.iter().map(|b| format!("{b:02x}")).collect::<String>()));
}
