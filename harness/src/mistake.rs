//! Mistakes of protocol implementations: undeclared or omitted messages, wrong hand-overs, failing serialization and
//! signing, errors that refer to unavailable messages, the same object added twice.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::sync::atomic::AtomicI64;
use std::sync::Arc;

use manul::combinators::chain::{ChainedJoin, ChainedMarker, ChainedProtocol, ChainedSharedData, ChainedSplit};
use manul::protocol::{
    BoxedRound, CommunicationInfo, EchoRoundParticipation, EntryPoint, EvidenceError, EvidenceMessages,
    FinalizeOutcome, LocalError, NoArtifact, NoMessage, NoProtocolErrors, Protocol, ProtocolError, ProtocolMessage,
    ReceiveError, RequiredMessageParts, RequiredMessages, Round, RoundId, RoundInfo, RoundNum, TransitionInfo,
};
use manul::session::{
    CanFinalize, Message, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId, SessionOutcome,
    SessionReport, VerifiedMessage,
};
use rand::seq::SliceRandom;
use rand::Rng;
use crate::light::ChaCha8Rng;
use rand_core::{CryptoRngCore, SeedableRng};
use serde::{Deserialize, Serialize, Serializer};

use crate::oracle::guard_any;
use crate::scen::Outcome;
use crate::sim::{guard, Fault_, Mon};
use crate::sp::*;
use crate::spec::{new_live, Live, Token};

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub(crate) enum Mistake {
    None,
    /// The creation of some declared messages is omitted
    Omit([bool; 3]),
    /// An artifact is declared, but the direct message is not
    Artifact,
    /// Signing fails (after that many signatures)
    Signing(i64),
    /// The message of the given kind cannot be serialized
    Serialization(usize),
    /// A protocol error that requires the given part of the message of the given round
    Error { round: RoundNum, part: u8, bad_error: bool },
    /// The artifact for the same destination is added twice
    SecondArtifact,
    /// A processed message is added twice
    SecondMessage,
    /// A processed message with an error is added twice
    SecondError,
    /// A transition to an undeclared round
    Successor(RoundNum),
    /// The second part of a chain starts in a round other than the declared one
    Entry,
    /// The first part of a chain produces the result in a round that was not supposed to
    Result,
    /// `make_round` fails
    MakeRound,
    /// The same round once again
    Again,
}

#[derive(Debug)]
pub(crate) struct Cfg {
    pub(crate) live: Arc<Live>,
    pub(crate) ids: Vec<Id>,
    /// Rounds in the halves
    pub(crate) len: [RoundNum; 2],
    pub(crate) halves: u8,
    /// The special round
    pub(crate) half: u8,
    pub(crate) pos: RoundNum,
    /// Which kinds of messages are declared in the special round
    pub(crate) kinds: [bool; 3],
    /// Sends nothing in the special round
    pub(crate) silent: Option<Id>,
    pub(crate) faulty: Id,
    /// Sends something wrong in the last round of the protocol (see `Mistake::Error`)
    pub(crate) sender: Option<Id>,
    pub(crate) mistake: Mistake,
}

impl Cfg {
    fn others(&self, me: &Id) -> BTreeSet<Id> {
        self.ids.iter().copied().filter(|i| i != me).collect()
    }
    fn at(&self, half: u8, num: RoundNum) -> bool {
        self.half == half && self.pos == num
    }
}

const BAD: u32 = u32::MAX;

/// A message which may refuse to be serialized
#[derive(Debug, Clone, Copy, PartialEq, Eq, Deserialize)]
pub(crate) struct Msg(pub(crate) u32);

impl Serialize for Msg {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 == BAD {
            return Err(serde::ser::Error::custom("refusing to serialize"));
        }
        s.serialize_newtype_struct("Msg", &self.0)
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub(crate) struct Mini<const H: u8>;

impl<const H: u8> Protocol<Id> for Mini<H> {
    type Result = u32;
    type SharedData = Arc<Cfg>;
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Id, Self>> {
        // The special rounds produce no evidence in these workloads
        Some(if *round_id == 4 { RoundInfo::new::<Erring<H>>() } else { RoundInfo::new::<Plain<H>>() })
    }
}

#[derive(Debug, Clone)]
pub(crate) struct State {
    token: Token,
    cfg: Arc<Cfg>,
    me: Id,
    num: RoundNum,
    sum: u32,
}

/// A payload or an artifact
#[derive(Debug)]
pub(crate) struct Load(u32, #[allow(dead_code)] Token);

impl State {
    fn load(&self, x: u32) -> Load {
        Load(x, Token::new(&self.cfg.live))
    }

    fn info(&self, half: u8) -> TransitionInfo {
        let last = self.num == self.cfg.len[half as usize];
        if last {
            TransitionInfo::new_linear_terminating(self.num)
        } else {
            TransitionInfo::new_linear(self.num)
        }
    }

    fn special(&self, half: u8) -> bool {
        self.cfg.at(half, self.num)
    }

    fn comm(&self, half: u8) -> CommunicationInfo<Id> {
        let others = self.cfg.others(&self.me);
        let mut info = CommunicationInfo::regular(&others);
        let Some(silent) = self.cfg.silent else { return info };
        if !self.special(half) {
            return info;
        }
        if silent == self.me {
            info.message_destinations.clear();
            if self.cfg.kinds[1] {
                info.echo_round_participation = EchoRoundParticipation::Receive { echo_targets: others };
            }
        } else {
            info.expecting_messages_from.remove(&silent);
        }
        info
    }

    fn value(&self, half: u8, kind: usize) -> Msg {
        if self.cfg.mistake == Mistake::Serialization(kind) && self.cfg.faulty == self.me && self.special(half) {
            return Msg(BAD);
        }
        Msg(self.me.0 * 100 + half as u32 * 10 + self.num as u32)
    }

    fn next<const H: u8>(
        mut self,
        rng: &mut impl CryptoRngCore,
        payloads: impl Iterator<Item = Load>,
    ) -> Result<FinalizeOutcome<Id, Mini<H>>, LocalError> {
        self.sum = payloads.fold(self.sum, |a, b| a.wrapping_add(b.0));
        let faulty = self.cfg.faulty == self.me;
        let special = self.special(H);
        if faulty && special {
            match self.cfg.mistake {
                Mistake::Result => return Ok(FinalizeOutcome::Result(self.sum)),
                Mistake::Successor(num) => {
                    self.num = num;
                    return Ok(FinalizeOutcome::AnotherRound(self.round::<H>(rng)));
                }
                Mistake::Again => return Ok(FinalizeOutcome::AnotherRound(self.round::<H>(rng))),
                _ => {}
            }
        }
        if self.num == self.cfg.len[H as usize] {
            return Ok(FinalizeOutcome::Result(self.sum));
        }
        self.num += 1;
        Ok(FinalizeOutcome::AnotherRound(self.round::<H>(rng)))
    }

    /// The round object for the state.
    fn round<const H: u8>(self, _rng: &mut impl CryptoRngCore) -> BoxedRound<Id, Mini<H>> {
        if self.num == 4 {
            return BoxedRound::new(Erring::<H>::new(self));
        }
        if !self.special(H) {
            return BoxedRound::new(Plain::<H>::new(self));
        }
        let mut kinds = self.cfg.kinds.map(|k| k as u8);
        if self.cfg.faulty == self.me {
            match self.cfg.mistake {
                Mistake::Omit(which) => {
                    for (k, omit) in kinds.iter_mut().zip(which) {
                        if *k == 1 && omit {
                            *k = 2;
                        }
                    }
                }
                Mistake::Artifact => kinds[0] = 3,
                _ => {}
            }
        }
        special_round::<H>(kinds, self)
    }
}

/// What the rounds differ in: the size, and the contents.
#[derive(Debug)]
pub(crate) struct Pad<const N: usize>([u16; N]);

impl<const N: usize> Pad<N> {
    fn new(half: u8) -> Self {
        Self([half as u16 * 1000 + N as u16; N])
    }
    fn check(&self, half: u8) {
        if self.0.iter().any(|x| *x != half as u16 * 1000 + N as u16) {
            crate::spec::damage("a method of a round was called with something else");
        }
    }
}

impl<const N: usize> Drop for Pad<N> {
    fn drop(&mut self) {
        if self.0.iter().any(|x| x % 1000 != N as u16) {
            crate::spec::damage("something else was dropped as a round");
        }
    }
}

// The special rounds

macro_rules! kind {
    (0) => { NoMessage };
    (1) => { Msg };
    (2) => { Msg };
    (3) => { NoMessage };
}
macro_rules! artifact {
    (0) => { NoArtifact };
    (1) => { Load };
    (2) => { Load };
    (3) => { Load };
}
macro_rules! make_direct {
    (1) => {
        fn make_direct_message(
            &self,
            _rng: &mut impl CryptoRngCore,
            _destination: &Id,
        ) -> Result<(Msg, Load), LocalError> {
            Ok((self.0.value(H, 0), self.0.load(1)))
        }
    };
    ($x:tt) => {};
}
macro_rules! make_echo {
    (1) => {
        fn make_echo_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<Msg, LocalError> {
            Ok(self.0.value(H, 1))
        }
    };
    ($x:tt) => {};
}
macro_rules! make_normal {
    (1) => {
        fn make_normal_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<Msg, LocalError> {
            Ok(self.0.value(H, 2))
        }
    };
    ($x:tt) => {};
}
macro_rules! got {
    (1, $m:expr) => { $m.0 };
    (2, $m:expr) => { $m.0 };
    ($x:tt, $m:expr) => {{
        let _ = $m;
        0
    }};
}

macro_rules! special {
    ($name:ident, $d:tt, $e:tt, $n:tt) => {
        #[derive(Debug)]
        pub(crate) struct $name<const H: u8>(State, Pad<{ 1 + $d * 9 + $e * 3 + $n }>);
        impl<const H: u8> $name<H> {
            fn new(state: State) -> Self {
                Self(state, Pad::new(H))
            }
        }
        impl<const H: u8> Round<Id> for $name<H> {
            type Protocol = Mini<H>;
            type ProtocolError = NoProtocolErrors<Self>;
            type DirectMessage = kind!($d);
            type EchoBroadcast = kind!($e);
            type NormalBroadcast = kind!($n);
            type Payload = Load;
            type Artifact = artifact!($d);
            fn transition_info(&self) -> TransitionInfo {
                self.1.check(H);
                let mut info = self.0.info(H);
                if self.0.cfg.mistake == Mistake::Result && self.0.cfg.faulty == self.0.me {
                    info.may_produce_result = false;
                }
                info
            }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                self.0.comm(H)
            }
            make_direct!($d);
            make_echo!($e);
            make_normal!($n);
            fn receive_message(
                &self,
                _from: &Id,
                m: ProtocolMessage<Id, Self>,
            ) -> Result<Load, ReceiveError<Id, Self>> {
                let d: u32 = got!($d, m.direct_message);
                let e: u32 = got!($e, m.echo_broadcast);
                let n: u32 = got!($n, m.normal_broadcast);
                Ok(self.0.load(d.wrapping_add(e).wrapping_add(n)))
            }
            fn finalize(
                self,
                rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<Id, Load>,
                _artifacts: BTreeMap<Id, Self::Artifact>,
            ) -> Result<FinalizeOutcome<Id, Mini<H>>, LocalError> {
                self.1.check(H);
                self.0.next::<H>(rng, payloads.into_values())
            }
        }
    };
}

macro_rules! specials {
    ($(($name:ident, $d:tt, $e:tt, $n:tt)),* $(,)?) => {
        $(special!($name, $d, $e, $n);)*
        fn special_round<const H: u8>(kinds: [u8; 3], state: State) -> BoxedRound<Id, Mini<H>> {
            match kinds {
                $([$d, $e, $n] => BoxedRound::new($name::<H>::new(state)),)*
                _ => unreachable!("probe-free: no such round"),
            }
        }
    };
}

specials!(
    (S000, 0, 0, 0), (S001, 0, 0, 1), (S002, 0, 0, 2), (S010, 0, 1, 0), (S011, 0, 1, 1), (S012, 0, 1, 2),
    (S020, 0, 2, 0), (S021, 0, 2, 1), (S022, 0, 2, 2), (S100, 1, 0, 0), (S101, 1, 0, 1), (S102, 1, 0, 2),
    (S110, 1, 1, 0), (S111, 1, 1, 1), (S112, 1, 1, 2), (S120, 1, 2, 0), (S121, 1, 2, 1), (S122, 1, 2, 2),
    (S200, 2, 0, 0), (S201, 2, 0, 1), (S202, 2, 0, 2), (S210, 2, 1, 0), (S211, 2, 1, 1), (S212, 2, 1, 2),
    (S220, 2, 2, 0), (S221, 2, 2, 1), (S222, 2, 2, 2), (S300, 3, 0, 0), (S301, 3, 0, 1), (S310, 3, 1, 0),
    (S311, 3, 1, 1),
);

// The other rounds

macro_rules! simple {
    ($name:ident, $pad:expr, $err:ty, $check:expr) => {
        #[derive(Debug)]
        pub(crate) struct $name<const H: u8>(State, Pad<{ $pad }>);
        impl<const H: u8> $name<H> {
            fn new(state: State) -> Self {
                Self(state, Pad::new(H))
            }
        }
        impl<const H: u8> Round<Id> for $name<H> {
            type Protocol = Mini<H>;
            type ProtocolError = $err;
            type DirectMessage = Msg;
            type EchoBroadcast = NoMessage;
            type NormalBroadcast = Msg;
            type Payload = Load;
            type Artifact = Load;
            fn transition_info(&self) -> TransitionInfo {
                self.1.check(H);
                self.0.info(H)
            }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                CommunicationInfo::regular(&self.0.cfg.others(&self.0.me))
            }
            fn make_direct_message(
                &self,
                _rng: &mut impl CryptoRngCore,
                destination: &Id,
            ) -> Result<(Msg, Load), LocalError> {
                let st = &self.0;
                if st.num == 4 && st.cfg.sender == Some(st.me) && *destination == st.cfg.faulty {
                    return Ok((Msg(77777), st.load(1)));
                }
                Ok((st.value(H, 0), st.load(1)))
            }
            fn make_normal_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<Msg, LocalError> {
                Ok(self.0.value(H, 2))
            }
            fn receive_message(
                &self,
                from: &Id,
                m: ProtocolMessage<Id, Self>,
            ) -> Result<Load, ReceiveError<Id, Self>> {
                let check: fn(&Self, &Id, &ProtocolMessage<Id, Self>) -> Result<(), ReceiveError<Id, Self>> = $check;
                check(self, from, &m)?;
                Ok(self.0.load(m.direct_message.0.wrapping_add(m.normal_broadcast.0)))
            }
            fn finalize(
                self,
                rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<Id, Load>,
                _artifacts: BTreeMap<Id, Load>,
            ) -> Result<FinalizeOutcome<Id, Mini<H>>, LocalError> {
                self.1.check(H);
                self.0.next::<H>(rng, payloads.into_values())
            }
        }
    };
}

simple!(Plain, 40, NoProtocolErrors<Self>, |_, _, _| Ok(()));
simple!(Erring, 50, MErr<H>, |this, _from, m| {
    if m.direct_message.0 == 77777 {
        let Mistake::Error { round, part, bad_error } = this.0.cfg.mistake else {
            return Err(ReceiveError::Protocol(MErr { round: 1, part: 4, bad: Flag(false) }));
        };
        return Err(ReceiveError::Protocol(MErr { round, part, bad: Flag(bad_error) }));
    }
    Ok(())
});

#[derive(Debug, Clone, Copy, Deserialize)]
pub(crate) struct Flag(bool);
impl Serialize for Flag {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0 {
            return Err(serde::ser::Error::custom("refusing to serialize"));
        }
        s.serialize_newtype_struct("Flag", &self.0)
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub(crate) struct MErr<const H: u8> {
    round: RoundNum,
    part: u8,
    bad: Flag,
}

impl<const H: u8> ProtocolError<Id> for MErr<H> {
    type Round = Erring<H>;
    fn description(&self) -> String {
        "an unexpected value".into()
    }
    fn required_messages(&self, _round_id: &RoundId) -> RequiredMessages {
        let this = RequiredMessageParts::direct_message();
        let previous = |p| RequiredMessages::new(this, Some([(RoundId::new(self.round), p)].into()), None);
        match self.part {
            0 => previous(RequiredMessageParts::direct_message()),
            1 => previous(RequiredMessageParts::echo_broadcast()),
            2 => previous(RequiredMessageParts::normal_broadcast()),
            3 => RequiredMessages::new(this, None, Some([RoundId::new(self.round)].into())),
            _ => RequiredMessages::new(this, None, None),
        }
    }
    fn verify_evidence(
        &self,
        _round_id: &RoundId,
        from: &Id,
        _shared_randomness: &[u8],
        shared: &Arc<Cfg>,
        messages: EvidenceMessages<'_, Id, Erring<H>>,
    ) -> Result<(), EvidenceError> {
        let want = |h: u8| Msg(from.0 * 100 + h as u32 * 10 + self.round as u32);
        let got = match self.part {
            0 => messages.previous_direct_message::<S111<H>>(self.round)? == want(H),
            1 => messages.previous_echo_broadcast::<S111<H>>(self.round)? == want(H),
            2 => messages.previous_normal_broadcast::<S111<H>>(self.round)? == want(H),
            3 => messages.combined_echos::<S111<H>>(self.round)?.keys().all(|k| shared.ids.contains(k)),
            _ => true,
        };
        if got && messages.direct_message()? == Msg(77777) {
            Ok(())
        } else {
            Err(EvidenceError::InvalidEvidence("the expected value".into()))
        }
    }
}

// The entry points

#[derive(Debug)]
pub(crate) struct MiniEntry<const H: u8> {
    pub(crate) cfg: Arc<Cfg>,
    pub(crate) sum: u32,
}
impl<const H: u8> EntryPoint<Id> for MiniEntry<H> {
    type Protocol = Mini<H>;
    fn entry_round_id() -> RoundId {
        RoundId::new(1)
    }
    fn make_round(
        self,
        rng: &mut impl CryptoRngCore,
        _shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Mini<H>>, LocalError> {
        let mut num = 1;
        if self.cfg.faulty == *id && self.cfg.half == H {
            match self.cfg.mistake {
                Mistake::Entry => num = 2,
                Mistake::MakeRound => return Err(LocalError::new("injected")),
                _ => {}
            }
        }
        Ok(State { token: Token::new(&self.cfg.live), cfg: self.cfg, me: *id, num, sum: self.sum }.round::<H>(rng))
    }
}

#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub(crate) struct MCh;
impl ChainedMarker for MCh {}
impl ChainedProtocol<Id> for MCh {
    type Protocol1 = Mini<0>;
    type Protocol2 = Mini<1>;
}
#[derive(Debug)]
pub(crate) struct MChEntry(pub(crate) Arc<Cfg>);
impl ChainedMarker for MChEntry {}
impl ChainedSplit<Id> for MChEntry {
    type Protocol = MCh;
    type EntryPoint = MiniEntry<0>;
    fn make_entry_point1(self) -> (Self::EntryPoint, impl ChainedJoin<Id, Protocol = Self::Protocol>) {
        (MiniEntry { cfg: self.0.clone(), sum: 0 }, MChJoin(self.0))
    }
}
#[derive(Debug)]
pub(crate) struct MChJoin(Arc<Cfg>);
impl ChainedMarker for MChJoin {}
impl ChainedJoin<Id> for MChJoin {
    type Protocol = MCh;
    type EntryPoint = MiniEntry<1>;
    fn make_entry_point2(self, sum: u32) -> Self::EntryPoint {
        MiniEntry { cfg: self.0, sum }
    }
}

// The executions

enum Phase<P: Protocol<Id>, SP: Params> {
    Live { session: Box<Session<P, SP>>, accum: Box<RoundAccumulator<P, SP>>, todo: Vec<Id> },
    Ended(Box<SessionReport<P, SP>>),
    /// The failed call, with the message; the report, if the call allowed it
    Failed(&'static str, String, Option<Box<SessionReport<P, SP>>>),
    Panicked(&'static str, String),
}

struct Driver<'a, P: Protocol<Id>, SP: Params> {
    cfg: Arc<Cfg>,
    parties: BTreeMap<Id, Phase<P, SP>>,
    pool: Vec<(Id, Id, Message<Id>)>,
    waiting: Vec<(Id, VerifiedMessage<Id>)>,
    rng: &'a mut ChaCha8Rng,
    log: Vec<String>,
    /// The message processed twice
    twice: bool,
    /// Which of the opportunities to add an artifact or a message once again to use
    skip: u32,
}

impl<P: Protocol<Id>, SP: Params> Driver<'_, P, SP> {
    /// Follows a failure: the session which is still available is terminated.
    fn fail(
        &mut self,
        me: Id,
        call: &'static str,
        fault: Fault_,
        session: Option<(Box<Session<P, SP>>, Box<RoundAccumulator<P, SP>>)>,
    ) {
        self.log.push(format!("{me:?} fails in {call}"));
        let phase = match fault {
            Fault_::Panic(p) => Phase::Panicked(call, p),
            Fault_::Local(e) => match session.map(|(s, a)| guard(|| s.terminate(*a))) {
                None => Phase::Failed(call, e, None),
                Some(Ok(r)) => Phase::Failed(call, e, Some(Box::new(r))),
                Some(Err(Fault_::Panic(p))) => Phase::Panicked("terminate", p),
                Some(Err(Fault_::Local(e))) => Phase::Failed("terminate", e, None),
            },
        };
        self.parties.insert(me, phase);
    }

    fn enter(&mut self, me: Id, session: Box<Session<P, SP>>, cached: Vec<VerifiedMessage<Id>>) {
        self.log.push(format!("{me:?} enters {:?}", session.round_id()));
        let accum = Box::new(session.make_accumulator());
        let mut todo: Vec<Id> = session.message_destinations().iter().copied().collect();
        todo.shuffle(self.rng);
        self.waiting.extend(cached.into_iter().map(|m| (me, m)));
        self.parties.insert(me, Phase::Live { session, accum, todo });
    }

    fn once(&mut self, me: Id, what: Mistake) -> bool {
        if self.cfg.faulty != me || self.cfg.mistake != what || self.twice {
            return false;
        }
        if self.skip > 0 {
            self.skip -= 1;
            return false;
        }
        self.twice = true;
        true
    }

    fn take(&mut self, me: Id) -> Option<(Box<Session<P, SP>>, Box<RoundAccumulator<P, SP>>, Vec<Id>)> {
        match self.parties.remove(&me) {
            Some(Phase::Live { session, accum, todo }) => Some((session, accum, todo)),
            Some(p) => {
                self.parties.insert(me, p);
                None
            }
            None => None,
        }
    }

    fn make(&mut self, me: Id) {
        let Some((session, mut accum, mut todo)) = self.take(me) else { return };
        let Some(dest) = todo.pop() else { unreachable!() };
        let again = self.once(me, Mistake::SecondArtifact);
        for i in 0..1 + again as u32 {
            match guard(|| session.make_message(self.rng, &dest)) {
                Err(f) => {
                    // The same call does not make things worse
                    let f = match guard(|| session.make_message(self.rng, &dest)) {
                        Err(Fault_::Panic(p)) => Fault_::Panic(p),
                        _ => f,
                    };
                    return self.fail(me, "make_message", f, Some((session, accum)));
                }
                Ok((message, artifact)) => {
                    if i == 0 {
                        self.pool.push((me, dest, message));
                    }
                    if let Err(f) = guard(|| session.add_artifact(&mut accum, artifact)) {
                        return self.fail(me, "add_artifact", f, Some((session, accum)));
                    }
                }
            }
        }
        self.parties.insert(me, Phase::Live { session, accum, todo });
    }

    fn deliver(&mut self, from: Id, me: Id, message: Message<Id>) {
        let Some((session, mut accum, todo)) = self.take(me) else { return };
        match guard(|| session.preprocess_message(&mut accum, &from, message)) {
            Err(f) => return self.fail(me, "preprocess_message", f, Some((session, accum))),
            Ok(PreprocessOutcome::ToProcess(m)) => self.waiting.push((me, *m)),
            Ok(PreprocessOutcome::Cached) => {}
            Ok(PreprocessOutcome::Error(e)) => self.log.push(format!("{me:?} rejects from {from:?}: {e:?}")),
        }
        self.parties.insert(me, Phase::Live { session, accum, todo });
    }

    fn process(&mut self, me: Id, message: VerifiedMessage<Id>) {
        let Some((session, mut accum, todo)) = self.take(me) else { return };
        let bad = self.cfg.mistake == Mistake::SecondError
            && format!("{message:?}").contains(&format!("from: {:?}", self.cfg.sender.unwrap()))
            && format!("{:?}", session.round_id()).contains("round: 4");
        let again = self.once(me, Mistake::SecondMessage) || (bad && self.once(me, Mistake::SecondError));
        let mut processed = Vec::new();
        for _ in 0..1 + again as u32 {
            match guard(|| Ok(session.process_message(message.clone()))) {
                Err(f) => return self.fail(me, "process_message", f, Some((session, accum))),
                Ok(p) => processed.push(p),
            }
        }
        for p in processed {
            if let Err(f) = guard(|| session.add_processed_message(&mut accum, p)) {
                return self.fail(me, "add_processed_message", f, Some((session, accum)));
            }
        }
        self.parties.insert(me, Phase::Live { session, accum, todo });
    }

    fn finalize(&mut self, me: Id) {
        let Some((session, accum, _)) = self.take(me) else { return };
        match guard(|| session.finalize_round(self.rng, *accum)) {
            Err(f) => self.fail(me, "finalize_round", f, None),
            Ok(RoundOutcome::Finished(r)) => {
                self.log.push(format!("{me:?} finishes"));
                self.parties.insert(me, Phase::Ended(Box::new(r)));
            }
            Ok(RoundOutcome::AnotherRound { session, cached_messages }) => self.enter(me, session, cached_messages),
        }
    }

    fn can_finalize(&self, me: Id) -> bool {
        match &self.parties[&me] {
            Phase::Live { session, accum, todo } => {
                todo.is_empty()
                    && !self.waiting.iter().any(|w| w.0 == me)
                    && session.can_finalize(accum) == CanFinalize::Yes
            }
            _ => false,
        }
    }

    fn run(&mut self) {
        loop {
            // 0 - make, 1 - deliver, 2 - process, 3 - finalize
            let mut options: Vec<(u8, usize)> = Vec::new();
            let ids = self.cfg.ids.clone();
            for (i, id) in ids.iter().enumerate() {
                if matches!(&self.parties[id], Phase::Live { todo, .. } if !todo.is_empty()) {
                    options.push((0, i));
                }
                if self.can_finalize(*id) {
                    options.push((3, i));
                }
            }
            options.extend((0..self.pool.len()).map(|i| (1, i)));
            options.extend((0..self.waiting.len()).map(|i| (2, i)));
            let Some((what, i)) = options.choose(self.rng).copied() else { break };
            match what {
                0 => self.make(ids[i]),
                1 => {
                    let (from, to, m) = self.pool.swap_remove(i);
                    self.deliver(from, to, m);
                }
                2 => {
                    let (to, m) = self.waiting.swap_remove(i);
                    self.process(to, m);
                }
                _ => self.finalize(ids[i]),
            }
        }
        // Those that are waiting for the others
        for id in self.cfg.ids.clone() {
            if let Some((session, accum, _)) = self.take(id) {
                match guard(|| session.terminate(*accum)) {
                    Ok(r) => {
                        self.log.push(format!("{id:?} terminates"));
                        self.parties.insert(id, Phase::Ended(Box::new(r)));
                    }
                    Err(f) => self.fail(id, "terminate", f, None),
                }
            }
        }
    }
}

/// The same mistakes under the synchronous runner, which has to pass on the error
fn execute_sync<P, SP, EP>(
    cfg: Arc<Cfg>,
    shared: &P::SharedData,
    entry: impl Fn() -> EP,
    rng: &mut ChaCha8Rng,
    o: &mut Outcome,
    debug: bool,
) where
    P: Protocol<Id, Result = u32> + Debug,
    SP: Params,
    EP: EntryPoint<Id, Protocol = P>,
{
    let (name, expected, mut evidence) = expectation(&cfg, false);
    if cfg.mistake == Mistake::SecondError {
        evidence = cfg.sender;
    }
    let signers = cfg.ids.iter().map(|id| {
        let mut signer = Signer::new(*id);
        if let (Mistake::Signing(n), true) = (cfg.mistake, cfg.faulty == *id) {
            signer.fail_after = Some(Arc::new(AtomicI64::new(n)));
        }
        (signer, entry())
    });
    let parties = signers.collect();
    let res = guard(|| manul::dev::run_sync::<EP, SP>(rng, parties));
    let mon = &mut o.mon;
    let what = format!("{:?} with run_sync", cfg.mistake);
    o.trace = crate::check::hash64((format!("{cfg:?}"), "run_sync"));
    o.shape = crate::check::hash64(format!("{:?}", (&cfg.mistake, cfg.kinds, cfg.half, cfg.pos, cfg.len, cfg.halves, "run_sync")));
    if debug {
        o.text.push(format!("{cfg:#?}\nrun_sync: {}", if res.is_ok() { "reports" } else { "failure" }));
    }
    mon.count("mistakes_followed");
    mon.count("mistakes_under_run_sync");
    mon.count(&format!("mistake: {name}"));
    let reports = match res {
        Err(Fault_::Panic(p)) => return mon.bad("C17", format!("{what}: panic: {p}")),
        Err(Fault_::Local(e)) => {
            if expected.is_empty() {
                mon.bad("C17", format!("{what}: unexpected failure: {e}"));
            }
            return;
        }
        Ok(r) if !expected.is_empty() => {
            let outcomes: Vec<_> = r.reports.values().map(|r| format!("{:?}", r.outcome)).collect();
            return mon.bad("C17", format!("{what}: no local error ({outcomes:?})"));
        }
        Ok(r) => r.reports,
    };
    for (id, r) in &reports {
        let guilty: BTreeSet<Id> = r.provable_errors.keys().chain(r.unprovable_errors.keys()).copied().collect();
        let wanted: BTreeSet<Id> = if *id == cfg.faulty { evidence.into_iter().collect() } else { BTreeSet::new() };
        if guilty != wanted {
            mon.bad("C17", format!("{what}: {id:?}: errors against {guilty:?}, expected {wanted:?}: {}", describe(r)));
        }
        for e in r.provable_errors.values() {
            if !matches!(guard_any(|| e.verify(shared)), Ok(Ok(()))) {
                mon.bad("C17", format!("{what}: {id:?}: evidence does not verify"));
            }
        }
        if cfg.sender.is_none() && !matches!(r.outcome, SessionOutcome::Result(_)) {
            mon.bad("C17", format!("{what}: {id:?}: no result without mistakes: {:?}", r.outcome));
        }
    }
}

fn describe<P: Protocol<Id>, SP: Params>(r: &SessionReport<P, SP>) -> String {
    format!(
        "provable {:?}, unprovable {:?}, missing {:?}",
        r.provable_errors.values().map(|e| e.description()).collect::<Vec<_>>(),
        r.unprovable_errors,
        r.missing_messages
    )
}

fn execute<P, SP, EP>(
    cfg: Arc<Cfg>,
    shared: &P::SharedData,
    entry: impl Fn() -> EP,
    rng: &mut ChaCha8Rng,
    o: &mut Outcome,
    debug: bool,
) where
    P: Protocol<Id, Result = u32> + Debug,
    SP: Params,
    EP: EntryPoint<Id, Protocol = P>,
{
    let sid = SessionId::random::<SP>(rng);
    let skip = if cfg.mistake == Mistake::SecondError { 0 } else { rng.gen_range(0..6) };
    let mut d = Driver::<P, SP> {
        cfg: cfg.clone(),
        parties: BTreeMap::new(),
        pool: Vec::new(),
        waiting: Vec::new(),
        rng,
        log: Vec::new(),
        twice: false,
        skip,
    };
    for id in &cfg.ids {
        let mut signer = Signer::new(*id);
        if let (Mistake::Signing(n), true) = (cfg.mistake, cfg.faulty == *id) {
            signer.fail_after = Some(Arc::new(AtomicI64::new(n)));
        }
        match guard(|| Session::<P, SP>::new(d.rng, sid.clone(), signer, entry())) {
            Ok(s) => d.enter(*id, Box::new(s), Vec::new()),
            Err(f) => d.fail(*id, "new", f, None),
        }
    }
    d.run();
    let mon = &mut o.mon;
    o.trace = crate::check::hash64((&d.log, format!("{cfg:?}")));
    o.shape = crate::check::hash64(format!("{:?}", (&cfg.mistake, cfg.kinds, cfg.half, cfg.pos, cfg.len, cfg.halves)));
    if debug {
        o.text.push(format!("{cfg:#?}\n{:#?}", d.log));
    }
    judge(&d, shared, mon, debug, &mut o.text);
}

/// What must happen to the affected party: the name of the mistake; the calls which may report it (none, if nothing
/// must); the party which the affected one has to accuse
fn expectation(cfg: &Cfg, twice: bool) -> (&'static str, Vec<&'static str>, Option<Id>) {
    let silent = cfg.silent == Some(cfg.faulty);
    let mut expected: Vec<&str> = Vec::new();
    let mut evidence = None;
    let at_entry = cfg.halves == 1 || cfg.half == 0;
    let creation = if cfg.pos == 1 && at_entry { "new" } else { "finalize_round" };
    let name = match cfg.mistake {
        Mistake::None => "none",
        Mistake::Omit(which) => {
            let omits = |k: usize| cfg.kinds[k] && which[k];
            if !silent {
                if omits(1) || omits(2) {
                    expected = vec![creation];
                } else if omits(0) {
                    expected = vec!["make_message"];
                }
            }
            "omitted creation"
        }
        Mistake::Artifact => {
            if !silent {
                expected = vec!["make_message"];
            }
            "artifact without a message"
        }
        Mistake::Signing(_) => {
            expected = vec!["new", "make_message", "finalize_round"];
            "signing"
        }
        Mistake::Serialization(k) => {
            if cfg.kinds[k] && !silent {
                expected = vec![if k == 0 { "make_message" } else { creation }];
            }
            "serialization"
        }
        Mistake::Error { round, part, bad_error } => {
            let available = match part {
                4.. => true,
                _ if round == cfg.pos => {
                    // The silent party sent nothing
                    let sent = cfg.silent != cfg.sender;
                    match part {
                        3 => cfg.kinds[1],
                        p => cfg.kinds[p as usize] && sent,
                    }
                }
                // The other rounds have direct messages and normal broadcasts
                0 | 2 => round >= 1 && round < 4,
                _ => false,
            };
            if available && !bad_error {
                evidence = cfg.sender;
            } else {
                expected = vec!["add_processed_message"];
            }
            if available { "error with available messages" } else { "error with unavailable messages" }
        }
        Mistake::SecondArtifact => {
            if twice {
                expected = vec!["add_artifact"];
            }
            "second artifact"
        }
        Mistake::SecondMessage => {
            if twice {
                expected = vec!["add_processed_message"];
            }
            "second message"
        }
        Mistake::SecondError => {
            if twice {
                expected = vec!["add_processed_message"];
                evidence = cfg.sender;
            }
            "second message with an error"
        }
        Mistake::Successor(_) | Mistake::Again => {
            expected = vec!["finalize_round"];
            "undeclared successor"
        }
        Mistake::Entry | Mistake::Result => {
            expected = vec!["finalize_round"];
            "undeclared continuation of a chain"
        }
        Mistake::MakeRound => {
            expected = vec![if at_entry { "new" } else { "finalize_round" }];
            "failing entry point"
        }
    };
    (name, expected, evidence)
}

fn judge<P: Protocol<Id, Result = u32> + Debug, SP: Params>(
    d: &Driver<P, SP>,
    shared: &P::SharedData,
    mon: &mut Mon,
    debug: bool,
    text: &mut Vec<String>,
) {
    let cfg = &d.cfg;
    let (name, expected, evidence) = expectation(cfg, d.twice);
    mon.count(&format!("mistake: {name}"));
    mon.count("mistakes_followed");
    let fail = |mon: &mut Mon, t: String| {
        let t = format!("{:?}: {t}", cfg.mistake);
        mon.bad("C17", t);
    };
    for (id, phase) in &d.parties {
        let affected = *id == cfg.faulty;
        let mut report = None;
        match phase {
            Phase::Live { .. } => unreachable!(),
            Phase::Panicked(call, p) => fail(mon, format!("{id:?}: panic in {call}: {p}")),
            Phase::Failed(call, e, r) => {
                report = r.as_ref();
                if debug {
                    text.push(format!("{id:?}: {call}: {e}"));
                }
                if !affected || expected.is_empty() {
                    fail(mon, format!("{id:?}: unexpected failure in {call}: {e}"));
                } else if !expected.contains(call) {
                    fail(mon, format!("{id:?}: failed in {call}, expected in {expected:?}: {e}"));
                } else {
                    mon.count(&format!("local_error: {call}"));
                }
                if let Some(r) = r {
                    mon.count("terminated_after_failure");
                    if !matches!(r.outcome, SessionOutcome::Terminated) {
                        fail(mon, format!("{id:?}: unexpected outcome after termination: {:?}", r.outcome));
                    }
                }
            }
            Phase::Ended(r) => {
                report = Some(r);
                if affected && !expected.is_empty() {
                    fail(mon, format!("{id:?}: no local error ({:?})", r.outcome));
                }
            }
        }
        if let Some(r) = report {
            mon.count("reports_without_accusations_checked");
            let guilty: BTreeSet<Id> = r.provable_errors.keys().chain(r.unprovable_errors.keys()).copied().collect();
            let wanted: BTreeSet<Id> = if affected { evidence.into_iter().collect() } else { BTreeSet::new() };
            if guilty != wanted {
                fail(mon, format!("{id:?}: errors against {guilty:?}, expected {wanted:?}: {}", describe(r)));
            }
            for e in r.provable_errors.values() {
                match guard_any(|| e.verify(shared)) {
                    Ok(Ok(())) => mon.count("control_evidence_verified"),
                    x => fail(mon, format!("{id:?}: evidence does not verify: {x:?}")),
                }
            }
        }
    }
    // In the absence of failures everyone gets to the end
    if expected.is_empty() && cfg.sender.is_none() {
        let mut results = BTreeSet::new();
        for (id, phase) in &d.parties {
            match phase {
                Phase::Ended(r) => match &r.outcome {
                    SessionOutcome::Result(x) => {
                        results.insert(*x);
                    }
                    x => fail(mon, format!("{id:?}: no result without mistakes: {x:?}")),
                },
                _ => {}
            }
        }
        mon.count("runs_without_failures");
    }
}

fn config(rng: &mut ChaCha8Rng) -> Cfg {
    let n = rng.gen_range(2..=4);
    let ids: Vec<Id> = (0..n).map(|i| Id(i + 1)).collect();
    let halves = rng.gen_range(1..=2u8);
    let mut len = [rng.gen_range(1..=3), rng.gen_range(1..=3)];
    let mut half = rng.gen_range(0..halves);
    let mut pos = rng.gen_range(1..=len[half as usize]);
    let mut kinds = [rng.gen(), rng.gen(), rng.gen()];
    let faulty = *ids.choose(rng).unwrap();
    let mut silent = (n > 2 && rng.gen_bool(0.25)).then(|| *ids.choose(rng).unwrap());
    let mut sender = None;
    let mistake = match rng.gen_range(0..20) {
        0 | 1 => Mistake::None,
        2..=5 => {
            let which = [rng.gen(), rng.gen(), rng.gen()];
            Mistake::Omit(which)
        }
        6 => {
            kinds[0] = false;
            Mistake::Artifact
        }
        7 | 8 => {
            // Every round sends at least the (possibly empty) broadcasts, which are signed
            let rounds = if halves == 1 { len[0] } else { len[0] + len[1] } as i64;
            Mistake::Signing(rng.gen_range(0..2 * rounds))
        }
        9 | 10 => Mistake::Serialization(rng.gen_range(0..3)),
        11..=13 => {
            // The erring round is the fourth one of the last part
            half = halves - 1;
            len[half as usize] = rng.gen_range(4..=5);
            pos = rng.gen_range(1..=3);
            sender = ids.iter().copied().filter(|i| *i != faulty).collect::<Vec<_>>().choose(rng).copied();
            Mistake::Error {
                round: if rng.gen_bool(0.6) { pos } else { rng.gen_range(0..=6) },
                part: rng.gen_range(0..5),
                bad_error: rng.gen_bool(0.15),
            }
        }
        14 if rng.gen() => {
            half = halves - 1;
            len[half as usize] = rng.gen_range(4..=5);
            sender = ids.iter().copied().filter(|i| *i != faulty).collect::<Vec<_>>().choose(rng).copied();
            pos = rng.gen_range(1..=3);
            Mistake::SecondError
        }
        14 => Mistake::SecondArtifact,
        15 => Mistake::SecondMessage,
        16 => {
            silent = silent.filter(|s| *s != faulty);
            Mistake::Successor(
                *[0, pos, pos + 2, pos + 3, 200].iter().filter(|x| **x != 4 && **x != pos + 1).collect::<Vec<_>>()
                    .choose(rng)
                    .copied()
                    .unwrap(),
            )
        }
        17 if halves == 2 && len[1] > 1 => {
            half = 1;
            pos = rng.gen_range(1..=len[1]);
            Mistake::Entry
        }
        18 if halves == 2 && len[0] > 1 => {
            half = 0;
            pos = rng.gen_range(1..len[0]);
            Mistake::Result
        }
        19 => Mistake::MakeRound,
        _ => Mistake::Again,
    };
    // Nobody can get more than one round ahead of the silent party
    let silent = silent.filter(|_| kinds[1] || (half == 0 && pos == 1));
    Cfg { live: new_live(), ids, len, halves, half, pos, kinds, silent, faulty, sender, mistake }
}

pub fn run(seed: u64, debug: bool) -> Outcome {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let mut o = Outcome::default();
    let cfg = Arc::new(config(&mut rng));
    fn go<SP: Params>(cfg: Arc<Cfg>, rng: &mut ChaCha8Rng, o: &mut Outcome, debug: bool) {
        let sync = rng.gen_bool(0.2);
        if cfg.halves == 1 {
            let entry = || MiniEntry::<0> { cfg: cfg.clone(), sum: 0 };
            if sync {
                return execute_sync::<Mini<0>, SP, _>(cfg.clone(), &cfg, entry, rng, o, debug);
            }
            execute::<Mini<0>, SP, _>(cfg.clone(), &cfg, entry, rng, o, debug);
        } else {
            let shared = ChainedSharedData { protocol1: cfg.clone(), protocol2: cfg.clone() };
            if sync {
                return execute_sync::<MCh, SP, _>(cfg.clone(), &shared, || MChEntry(cfg.clone()), rng, o, debug);
            }
            execute::<MCh, SP, _>(cfg.clone(), &shared, || MChEntry(cfg.clone()), rng, o, debug);
        }
    }
    if rng.gen() {
        go::<Sp<Json>>(cfg, &mut rng, &mut o, debug);
    } else {
        go::<Sp<Bin>>(cfg, &mut rng, &mut o, debug);
    }
    o
}

