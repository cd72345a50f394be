//! The instrumented, script-driven protocol executed by all workloads.
//!
//! It knows nothing about the internals of the library: it implements the public traits only and
//! records what it was asked to create, what it was handed, and what it was shown.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicI64, AtomicBool, AtomicU64, AtomicU8, Ordering};
use std::sync::{Arc, Mutex};

use manul::combinators::chain::{ChainedJoin, ChainedMarker, ChainedProtocol, ChainedSharedData, ChainedSplit};
use manul::protocol::{
    BoxedRound, CommunicationInfo, EchoRoundParticipation, EntryPoint, EvidenceError, EvidenceMessages,
    FinalizeOutcome, LocalError, NoArtifact, NoMessage, Protocol, ProtocolError, ProtocolMessage, ReceiveError,
    RemoteError, RequiredMessageParts, RequiredMessages, Round, RoundId, RoundInfo, TransitionInfo,
};
use rand_core::CryptoRngCore;
use serde::{Deserialize, Serialize};

use crate::sp::Id;

pub const D: usize = 0;
pub const E: usize = 1;
pub const N: usize = 2;

/// Bits of the round number which define the message kinds of the round: D=1, E=2, N=4.
pub fn combo_has(num: u8, kind: usize) -> bool {
    (num % 8) & (1 << kind) != 0
}

/// Message content. Every one is unique.
#[derive(Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct Part {
    pub half: u8,
    pub num: u8,
    pub kind: u8,
    pub from: Id,
    pub to: Option<Id>,
    pub uniq: u64,
    /// 0 - valid, 1 - invalid (unprovable), 2 - invalid (provable from this part),
    /// 3 - invalid (provable, with all the messages available requested)
    pub fault: u8,
    /// Claims about the sender's own parts in previous rounds.
    pub refs: Vec<(u8, u8, u64)>,
    /// Claims about echo broadcasts the sender received from others in previous rounds.
    pub claims: Vec<(u8, Vec<(Id, u64)>)>,
    pub blob: Vec<u8>,
}

impl Debug for Part {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}/{}{}:{:?}", self.half, self.num, ["D", "E", "N"][self.kind as usize % 3], self.from)?;
        if let Some(to) = self.to {
            write!(f, ">{to:?}")?;
        }
        write!(f, "#{:x}", self.uniq & 0xffff)?;
        if self.fault != 0 {
            write!(f, "!{}", self.fault)?;
        }
        Ok(())
    }
}

pub type Parts = [Option<Part>; 3];

#[derive(Clone, Debug)]
pub enum EchoRole {
    Default,
    Send,
    Receive(BTreeSet<Id>),
}

#[derive(Clone, Debug)]
pub enum Step {
    Round(usize),
    Result,
}

#[derive(Clone, Debug)]
pub struct PartySpec {
    pub dests: BTreeSet<Id>,
    pub expects: BTreeSet<Id>,
    pub echo: EchoRole,
    pub next: Step,
}

#[derive(Clone, Debug)]
pub struct RoundSpec {
    pub num: u8,
    pub parents: BTreeSet<u8>,
    pub siblings: BTreeSet<u8>,
    pub children: BTreeSet<u8>,
    pub may_produce_result: bool,
    pub per: BTreeMap<Id, PartySpec>,
    /// The rounds (previous ones and this one, by number) whose contents are referred to in this round's messages.
    pub refs: Vec<u8>,
    /// Previous rounds (by number) whose echo broadcasts are claimed in this round's messages.
    pub claims: Vec<u8>,
    pub blob: usize,
}

#[derive(Clone, Debug)]
pub struct Script {
    pub parties: BTreeSet<Id>,
    pub rounds: Vec<RoundSpec>,
}

impl Script {
    pub fn by_num(&self, num: u8) -> Option<&RoundSpec> {
        self.rounds.iter().find(|r| r.num == num)
    }
    /// The rounds a party goes through, in order.
    pub fn path(&self, me: Id) -> Vec<usize> {
        let mut res = vec![0];
        let mut at = 0;
        loop {
            match self.rounds[at].per[&me].next {
                Step::Result => return res,
                Step::Round(i) => {
                    at = i;
                    res.push(i)
                }
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Fault {
    /// `fault` field set to the given value in the given part kind
    Content(usize, u8),
    /// A wrong reference (in a part of the given kind) to own part (round number, kind)
    BadRef(usize, u8, u8),
    /// A wrong claim (in a part of the given kind) about echo broadcasts received in the given round
    BadClaim(usize, u8),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Method {
    MakeDirect,
    MakeEcho,
    MakeNormal,
    Receive,
    Finalize,
    WrongSuccessor,
    NextEntry,
}

/// What an extension does in the rounds of a certain type.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Act {
    /// Sets the `fault` value in the messages of the given kind
    Fault(usize, u8),
    /// Fails to make a message of the given kind
    MakeFails(usize),
    FinalizeFails,
    /// Ignores the payload from the given party
    Drop(Id),
}

#[derive(Clone, Debug)]
pub enum RecvOut {
    Ok(u64),
    Unprovable,
    Provable(ErrBody),
    Local,
}

#[derive(Clone, Debug)]
pub enum Ev {
    Entry { me: Id, half: u8, shared: Vec<u8>, input: Option<u64> },
    Made { me: Id, half: u8, num: u8, kind: usize, to: Option<Id>, part: Part, art: Option<u64> },
    Recv { me: Id, half: u8, num: u8, from: Id, parts: Parts, out: RecvOut },
    Fin { me: Id, half: u8, num: u8, pays: Vec<(Id, u64)>, arts: Vec<(Id, Id, u64)>, inst: u64 },
    Shown(Box<Shown>),
    /// A local failure was injected
    Injected { me: Id, half: u8, num: u8, method: Method },
}

/// What a protocol error was shown when verifying evidence.
#[derive(Clone, Debug)]
pub struct Shown {
    pub half: u8,
    pub round: Option<u8>,
    pub from: Id,
    pub shared: Vec<u8>,
    pub run: u64,
    pub body: ErrBody,
    pub this: Parts,
    pub prev: Vec<(u8, Parts)>,
    pub echos: Vec<(u8, BTreeMap<Id, Part>)>,
    pub errors: Vec<String>,
}

/// How many of the objects handed over to the library (rounds, payloads, artifacts) exist.
#[derive(Debug, Default)]
pub struct Live {
    created: AtomicI64,
    existing: AtomicI64,
    /// Objects dropped in a state other than the one they were created in
    damaged: AtomicI64,
}

const MAGIC: u64 = 0x6d616e756c206f6b;

thread_local! {
    /// All the counters created by this thread
    static LIVES: std::cell::RefCell<Vec<Arc<Live>>> = const { std::cell::RefCell::new(Vec::new()) };
}

pub fn new_live() -> Arc<Live> {
    let live = Arc::new(Live::default());
    LIVES.with(|l| l.borrow_mut().push(live.clone()));
    live
}

thread_local! {
    /// What a protocol noticed in the arguments of its methods
    static NOTICED: std::cell::RefCell<Vec<(&'static str, String)>> = const { std::cell::RefCell::new(Vec::new()) };
}

fn notice(prop: &'static str, what: String) {
    NOTICED.with(|x| x.borrow_mut().push((prop, what)));
}

pub fn take_noticed() -> Vec<(&'static str, String)> {
    NOTICED.with(|x| std::mem::take(&mut *x.borrow_mut()))
}

static DAMAGE: Mutex<Vec<String>> = Mutex::new(Vec::new());

/// Notes that an object was found in an impossible state.
pub fn damage(what: &str) {
    DAMAGE.lock().unwrap().push(what.to_string());
}

/// Checks that all the objects counted by the counters of this thread were dropped exactly once.
/// Returns the number of objects and the problems.
pub fn account_objects() -> (u64, Vec<String>) {
    let mut problems = std::mem::take(&mut *DAMAGE.lock().unwrap());
    let mut total = 0;
    for live in LIVES.with(|l| std::mem::take(&mut *l.borrow_mut())) {
        let (c, e, d) = (
            live.created.load(Ordering::SeqCst),
            live.existing.load(Ordering::SeqCst),
            live.damaged.load(Ordering::SeqCst),
        );
        total += c as u64;
        if e != 0 || d != 0 {
            problems.push(format!("of {c} rounds, payloads and artifacts, {e} were not dropped exactly once, {d} were damaged"));
        }
    }
    (total, problems)
}

/// A part of the objects handed over to the library.
#[derive(Debug)]
pub struct Token {
    live: Arc<Live>,
    magic: u64,
}

impl Token {
    pub fn new(live: &Arc<Live>) -> Self {
        live.created.fetch_add(1, Ordering::Relaxed);
        live.existing.fetch_add(1, Ordering::Relaxed);
        Self { live: live.clone(), magic: MAGIC }
    }
}

impl Clone for Token {
    fn clone(&self) -> Self {
        Self::new(&self.live)
    }
}

impl Drop for Token {
    fn drop(&mut self) {
        if self.magic != MAGIC {
            self.live.damaged.fetch_add(1, Ordering::Relaxed);
        }
        self.magic = 0xdead;
        self.live.existing.fetch_sub(1, Ordering::Relaxed);
    }
}

/// One execution (possibly only as seen by one persona of a corrupt party).
pub struct Run {
    pub live: Arc<Live>,
    pub id: u64,
    pub scripts: Vec<Script>,
    pub log: Mutex<Vec<Ev>>,
    pub faults: BTreeMap<Id, Vec<(u8, u8, Fault)>>,
    pub local_faults: BTreeSet<(Id, u8, u8, Method)>,
    pub counter: AtomicU64,
    /// Payloads ignored in finalization: (party, half, round number, sender)
    pub drops: BTreeSet<(Id, u8, u8, Id)>,
    /// Set while an extension makes a message: the `fault` value to use
    pub forced: AtomicU8,
    /// What the extensions do instead of the regular methods: (party, half, round type, what)
    pub acts: Vec<(Id, u8, u8, Act)>,
    /// The round types (a bit mask) extended without overriding anything
    pub ext_types: u8,
    /// Makes all the evidence verification by protocol errors fail
    pub reject: AtomicBool,
    /// Microseconds to sleep in message creation and processing (for async workloads)
    pub delay_us: AtomicU64,
}

impl Debug for Run {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Run({})", self.id)
    }
}

static RUN_ID: AtomicU64 = AtomicU64::new(1);

impl Run {
    pub fn new(scripts: Vec<Script>) -> Self {
        Run {
            live: new_live(),
            id: RUN_ID.fetch_add(1, Ordering::Relaxed),
            scripts,
            log: Mutex::new(Vec::new()),
            faults: BTreeMap::new(),
            local_faults: BTreeSet::new(),
            counter: AtomicU64::new(1),
            delay_us: AtomicU64::new(0),
            drops: BTreeSet::new(),
            forced: AtomicU8::new(0),
            acts: Vec::new(),
            ext_types: crate::scen::EXT_TYPES.with(|x| x.get()),
            reject: AtomicBool::new(false),
        }
    }
    pub fn ev(&self, ev: Ev) {
        self.log.lock().unwrap().push(ev);
    }
    pub fn log_len(&self) -> usize {
        self.log.lock().unwrap().len()
    }
    pub fn take_log(&self) -> Vec<Ev> {
        self.log.lock().unwrap().clone()
    }
    fn next(&self) -> u64 {
        self.counter.fetch_add(1, Ordering::Relaxed)
    }
    fn stall(&self) {
        let us = self.delay_us.load(Ordering::Relaxed);
        if us > 0 {
            let us = (self.next().wrapping_mul(0x9E3779B97F4A7C15) >> 40) % us;
            std::thread::sleep(std::time::Duration::from_micros(us));
        }
    }
    fn local(&self, me: Id, half: u8, num: u8, m: Method) -> Result<(), LocalError> {
        if self.local_faults.contains(&(me, half, num, m)) {
            self.ev(Ev::Injected { me, half, num, method: m });
            Err(LocalError::new(format!("injected local failure in {m:?}")))
        } else {
            Ok(())
        }
    }
}

#[derive(Debug, Clone)]
pub struct Pay {
    pub token: Token,
    pub uniq: u64,
    pub from: Id,
    pub parts: Parts,
}

#[derive(Debug, Clone)]
pub struct Art {
    pub token: Token,
    pub uniq: u64,
    pub to: Id,
    pub part_uniq: u64,
}

/// History as known to the protocol: round number -> party -> parts.
type Hist = BTreeMap<u8, BTreeMap<Id, Parts>>;

#[derive(Debug)]
pub struct Core {
    pub token: Token,
    pub run: Arc<Run>,
    pub me: Id,
    pub half: u8,
    pub ri: usize,
    pub shared: Vec<u8>,
    pub hist: Hist,
    pub sent: BTreeMap<u8, BTreeMap<Id, u64>>,
    pub input: Option<Box<SpecResult>>,
    /// An unique ID of this object
    pub inst: u64,
}

/// The result of the protocol: everything the party saw.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SpecResult {
    pub half: u8,
    pub me: Id,
    pub shared: Vec<u8>,
    /// (round number, party) -> parts
    pub recs: Vec<(u8, Id, Parts)>,
    /// (round number, destination, uniq of the direct message from the artifact)
    pub sent: Vec<(u8, Id, u64)>,
    pub uniq: u64,
    pub input: Option<Box<SpecResult>>,
}

fn own_part(run: &Run, me: Id, half: u8, num: u8, kind: usize, to: Option<Id>) -> Option<u64> {
    let log = run.log.lock().unwrap();
    log.iter().rev().find_map(|ev| match ev {
        Ev::Made { me: m, half: h, num: n, kind: k, to: t, part, .. }
            if *m == me && *h == half && *n == num && *k == kind && (kind != D || *t == to) =>
        {
            Some(part.uniq)
        }
        _ => None,
    })
}

impl Core {
    pub fn spec(&self) -> &RoundSpec {
        &self.run.scripts[self.half as usize].rounds[self.ri]
    }
    fn mine(&self) -> &PartySpec {
        &self.spec().per[&self.me]
    }
    pub fn num(&self) -> u8 {
        self.spec().num
    }

    fn transition(&self) -> TransitionInfo {
        let s = self.spec();
        let before: BTreeSet<u8> = if s.num > 1 { [s.num - 1].into() } else { [].into() };
        if s.parents == before && (s.may_produce_result || s.children.contains(&(s.num + 1))) && self.me.0 % 4 != 0 {
            // Use the helpers where they describe the same position
            let info = if s.may_produce_result {
                TransitionInfo::new_linear_terminating(s.num)
            } else {
                TransitionInfo::new_linear(s.num)
            };
            let mut children = s.children.clone();
            if !s.may_produce_result && self.me.0 % 2 == 0 {
                children.remove(&(s.num + 1));
            }
            let info = match (children.len(), self.me.0 % 2) {
                (0, _) => info,
                (1, _) | (_, 0) => info.with_children(children),
                _ => children.into_iter().fold(info, |info, c| info.with_children([c].into())),
            };
            return if s.siblings.is_empty() { info } else { info.with_siblings(s.siblings.clone()) };
        }
        TransitionInfo {
            id: RoundId::new(s.num),
            parents: s.parents.iter().map(|x| RoundId::new(*x)).collect(),
            siblings: s.siblings.iter().map(|x| RoundId::new(*x)).collect(),
            children: s.children.iter().map(|x| RoundId::new(*x)).collect(),
            may_produce_result: s.may_produce_result,
        }
    }

    fn communication(&self) -> CommunicationInfo<Id> {
        let p = self.mine();
        CommunicationInfo {
            message_destinations: p.dests.clone(),
            expecting_messages_from: p.expects.clone(),
            echo_round_participation: match &p.echo {
                EchoRole::Default => EchoRoundParticipation::Default,
                EchoRole::Send => EchoRoundParticipation::Send,
                EchoRole::Receive(t) => EchoRoundParticipation::Receive { echo_targets: t.clone() },
            },
        }
    }

    fn make(
        &self,
        rng: &mut impl CryptoRngCore,
        kind: usize,
        to: Option<Id>,
        with_art: bool,
    ) -> Result<(Part, Option<Art>), LocalError> {
        let m = [Method::MakeDirect, Method::MakeEcho, Method::MakeNormal][kind];
        self.run.local(self.me, self.half, self.num(), m)?;
        self.run.stall();
        let s = self.spec();
        let none = Vec::new();
        let faults: Vec<Fault> = self
            .run
            .faults
            .get(&self.me)
            .unwrap_or(&none)
            .iter()
            .filter(|(h, n, _)| *h == self.half && *n == s.num)
            .map(|x| x.2)
            .collect();
        let script = &self.run.scripts[self.half as usize];
        let mut refs = Vec::new();
        for prev in &s.refs {
            if script.by_num(*prev).map(|r| r.per.contains_key(&self.me)) != Some(true) {
                continue;
            }
            for k in [D, E, N] {
                if !combo_has(*prev, k) || (kind != D && k == D) || (*prev == s.num && k == kind) {
                    continue;
                }
                if let Some(u) = own_part(&self.run, self.me, self.half, *prev, k, to) {
                    let bad = faults.contains(&Fault::BadRef(kind, *prev, k as u8));
                    refs.push((*prev, k as u8, if bad { u ^ 1 } else { u }));
                }
            }
        }
        let mut claims = Vec::new();
        for prev in &s.claims {
            if let Some(h) = self.hist.get(prev) {
                let bad = faults.contains(&Fault::BadClaim(kind, *prev));
                let mut v: Vec<(Id, u64)> =
                    h.iter().filter_map(|(id, p)| p[E].as_ref().map(|p| (*id, p.uniq))).collect();
                if bad {
                    for x in v.iter_mut() {
                        x.1 ^= 1;
                    }
                }
                claims.push((*prev, v));
            }
        }
        let fault = faults
            .iter()
            .find_map(|f| if let Fault::Content(k, v) = f { (*k == kind).then_some(*v) } else { None })
            .unwrap_or(0);
        let fault = match self.run.forced.load(Ordering::Relaxed) {
            0 => fault,
            f => f,
        };
        let mut blob = vec![0u8; s.blob];
        rng.fill_bytes(&mut blob);
        let part = Part {
            half: self.half,
            num: s.num,
            kind: kind as u8,
            from: self.me,
            to,
            uniq: match s.num / 8 % 3 {
                0 => rng.next_u64(),
                1 => rng.next_u32() as u64 | (rng.next_u32() as u64) << 32,
                _ => {
                    let mut x = [0; 8];
                    rng.try_fill_bytes(&mut x).map_err(|_| LocalError::new("the generator fails"))?;
                    u64::from_le_bytes(x)
                }
            },
            fault,
            refs,
            claims,
            blob,
        };
        let art = with_art.then(|| Art { token: Token::new(&self.run.live), uniq: self.run.next(), to: to.unwrap(), part_uniq: part.uniq });
        self.run.ev(Ev::Made {
            me: self.me,
            half: self.half,
            num: s.num,
            kind,
            to,
            part: part.clone(),
            art: art.as_ref().map(|a| a.uniq),
        });
        Ok((part, art))
    }

    /// Checks the content; `None` if it is valid.
    fn judge(&self, from: Id, parts: &Parts) -> Option<Result<ErrBody, ()>> {
        let num = self.num();
        // Content which is not what it should be at all (e.g. copied from somewhere else)
        for (k, p) in parts.iter().enumerate() {
            if let Some(p) = p {
                if p.half != self.half || p.num != num || p.kind as usize != k || p.from != from {
                    return Some(Err(()));
                }
                if k == D && p.to != Some(self.me) {
                    return Some(Err(()));
                }
            }
        }
        for p in parts.iter().flatten() {
            let kind = p.kind as usize % 3;
            let mut body = ErrBody { why: Why::Content, kind: kind as u8, this: [false; 3], prev: Vec::new(), echos: Vec::new(), at: self.num() };
            body.this[kind] = true;
            match p.fault {
                0 => {}
                2 => return Some(Ok(body)),
                3 => {
                    for k in [D, E, N] {
                        body.this[k] = combo_has(num, k);
                    }
                    for (prev, h) in &self.hist {
                        if let Some(pp) = h.get(&from) {
                            let need = [pp[D].is_some(), pp[E].is_some(), pp[N].is_some()];
                            if need.iter().any(|x| *x) {
                                body.prev.push((*prev, need));
                            }
                        }
                        if self.echoed_by(*prev, from) {
                            body.echos.push(*prev);
                        }
                    }
                    return Some(Ok(body));
                }
                _ => return Some(Err(())),
            }
            for (prev, k, u) in &p.refs {
                // Not a reference (in an altered part): `verify_evidence()` would not take it for one
                if *k > 2 || (kind != D && *k as usize == D) {
                    continue;
                }
                if *prev == num {
                    // About another part of the same message
                    let k = *k as usize;
                    if parts[k].as_ref().is_some_and(|x| x.uniq != *u) {
                        body.why = Why::Ref(num, k as u8);
                        body.this[k] = true;
                        return Some(Ok(body));
                    }
                    continue;
                }
                if let Some(pp) = self.hist.get(prev).and_then(|h| h.get(&from)).and_then(|x| x[*k as usize % 3].as_ref()) {
                    if pp.uniq != *u {
                        body.why = Why::Ref(*prev, *k);
                        let mut need = [false; 3];
                        need[*k as usize % 3] = true;
                        body.prev.push((*prev, need));
                        return Some(Ok(body));
                    }
                }
            }
            for (prev, claim) in &p.claims {
                // (those about rounds which are not over are also the result of alterations)
                if !self.hist.contains_key(prev) || !self.echoed_by(*prev, from) {
                    continue;
                }
                for (id, u) in claim {
                    let known = if *id == self.me {
                        own_part(&self.run, self.me, self.half, *prev, E, None)
                    } else {
                        self.hist.get(prev).and_then(|h| h.get(id)).and_then(|x| x[E].as_ref()).map(|x| x.uniq)
                    };
                    if let Some(k) = known {
                        if k != *u {
                            body.why = Why::Claim(*prev);
                            body.echos.push(*prev);
                            return Some(Ok(body));
                        }
                    }
                }
            }
        }
        None
    }

    /// Whether this node has received an echo pack from `from` for the given round.
    fn echoed_by(&self, prev: u8, from: Id) -> bool {
        let script = &self.run.scripts[self.half as usize];
        let Some(r) = script.by_num(prev) else { return false };
        let Some(p) = r.per.get(&self.me) else { return false };
        if !combo_has(prev, E) {
            return false;
        }
        match &p.echo {
            EchoRole::Default => !p.dests.is_empty() && p.dests.contains(&from),
            EchoRole::Send => false,
            EchoRole::Receive(t) => t.contains(&from),
        }
    }

    fn receive(&self, from: Id, parts: Parts) -> Result<Pay, Fail> {
        self.run.stall();
        let num = self.num();
        if self.run.local_faults.contains(&(self.me, self.half, num, Method::Receive)) {
            self.run.ev(Ev::Injected { me: self.me, half: self.half, num, method: Method::Receive });
            self.run.ev(Ev::Recv { me: self.me, half: self.half, num, from, parts, out: RecvOut::Local });
            return Err(Fail::Local(LocalError::new("injected local failure in Receive")));
        }
        let (out, res) = match self.judge(from, &parts) {
            None => {
                let uniq = self.run.next();
                (RecvOut::Ok(uniq), Ok(Pay { token: Token::new(&self.run.live), uniq, from, parts: parts.clone() }))
            }
            Some(Err(())) => (RecvOut::Unprovable, Err(Fail::Unprovable(RemoteError::new("invalid content")))),
            Some(Ok(body)) => (RecvOut::Provable(body.clone()), Err(Fail::Protocol(body))),
        };
        self.run.ev(Ev::Recv { me: self.me, half: self.half, num, from, parts, out });
        res
    }

    fn finalize<const H: u8>(
        mut self,
        rng: &mut impl CryptoRngCore,
        mut pays: BTreeMap<Id, Pay>,
        arts: BTreeMap<Id, Art>,
    ) -> Result<FinalizeOutcome<Id, Spec<H>>, LocalError> {
        let num = self.num();
        self.run.local(self.me, self.half, num, Method::Finalize)?;
        pays.retain(|id, _| !self.run.drops.contains(&(self.me, self.half, num, *id)));
        self.run.ev(Ev::Fin {
            me: self.me,
            half: self.half,
            num,
            pays: pays.iter().map(|(id, p)| (*id, p.uniq)).collect(),
            arts: arts.iter().map(|(id, a)| (*id, a.to, a.uniq)).collect(),
            inst: self.inst,
        });
        self.hist.insert(num, pays.into_iter().map(|(id, p)| (id, p.parts)).collect());
        self.sent.insert(num, arts.into_iter().map(|(id, a)| (id, a.part_uniq)).collect());
        if self.run.local_faults.contains(&(self.me, self.half, num, Method::WrongSuccessor)) {
            // A round that was not declared as a successor
            self.run.ev(Ev::Injected { me: self.me, half: self.half, num, method: Method::WrongSuccessor });
            let script = &self.run.scripts[self.half as usize];
            let wrong = (0..script.rounds.len())
                .find(|i| {
                    let r = &script.rounds[*i];
                    !self.spec().children.contains(&r.num) && r.per.contains_key(&self.me)
                })
                .expect("there is always the current round");
            self.ri = wrong;
            self.inst = self.run.next();
            return Ok(FinalizeOutcome::AnotherRound(make_round::<H>(self)));
        }
        match self.mine().next.clone() {
            Step::Round(i) => {
                self.ri = i;
                self.inst = self.run.next();
                Ok(FinalizeOutcome::AnotherRound(make_round::<H>(self)))
            }
            Step::Result => Ok(FinalizeOutcome::Result(SpecResult {
                half: self.half,
                me: self.me,
                shared: self.shared,
                recs: self
                    .hist
                    .into_iter()
                    .flat_map(|(n, h)| h.into_iter().map(move |(id, p)| (n, id, p)))
                    .collect(),
                sent: self
                    .sent
                    .into_iter()
                    .flat_map(|(n, h)| h.into_iter().map(move |(id, u)| (n, id, u)))
                    .collect(),
                uniq: rng.next_u64(),
                input: self.input,
            })),
        }
    }
}

pub enum Fail {
    Local(LocalError),
    Unprovable(RemoteError),
    Protocol(ErrBody),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub enum Why {
    Content,
    Ref(u8, u8),
    Claim(u8),
}

#[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
pub struct ErrBody {
    pub why: Why,
    /// The kind of the part at fault
    pub kind: u8,
    /// Required messages
    pub this: [bool; 3],
    pub prev: Vec<(u8, [bool; 3])>,
    pub echos: Vec<u8>,
    /// The round it belongs to
    pub at: u8,
}

pub struct SpecError<R>(pub ErrBody, pub PhantomData<fn() -> R>);

impl<R> Debug for SpecError<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "SpecError({:?})", self.0)
    }
}
impl<R> Clone for SpecError<R> {
    fn clone(&self) -> Self {
        Self(self.0.clone(), PhantomData)
    }
}
impl<R> Serialize for SpecError<R> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(s)
    }
}
impl<'de, R> Deserialize<'de> for SpecError<R> {
    fn deserialize<De: serde::Deserializer<'de>>(d: De) -> Result<Self, De::Error> {
        ErrBody::deserialize(d).map(|b| Self(b, PhantomData))
    }
}

pub trait MaybePart {
    fn part(self) -> Option<Part>;
}
impl MaybePart for Part {
    fn part(self) -> Option<Part> {
        Some(self)
    }
}
impl MaybePart for NoMessage {
    fn part(self) -> Option<Part> {
        None
    }
}

/// `flip` - the parts are named in another order.
fn parts_of(x: [bool; 3], flip: bool) -> Option<RequiredMessageParts> {
    let mut res: Option<RequiredMessageParts> = None;
    let order = if flip { [N, E, D] } else { [D, E, N] };
    for k in order.into_iter().filter(|k| x[*k]) {
        res = Some(match (res, k) {
            (None, D) => RequiredMessageParts::direct_message(),
            (None, E) => RequiredMessageParts::echo_broadcast(),
            (None, _) => RequiredMessageParts::normal_broadcast(),
            (Some(r), D) => r.and_direct_message(),
            (Some(r), E) => r.and_echo_broadcast(),
            (Some(r), _) => r.and_normal_broadcast(),
        });
    }
    res
}

/// Identifies the number of a round given its public identifier.
pub fn round_num(id: &RoundId) -> Option<u8> {
    (0..=255u8).find(|n| *id == *n).filter(|n| id == *n && *id == RoundId::from(*n))
}

impl<const H: u8, R> ProtocolError<Id> for SpecError<R>
where
    R: Round<Id, ProtocolError = SpecError<R>, Protocol = Spec<H>> + HalfOf<H>,
    R::DirectMessage: MaybePart,
    R::EchoBroadcast: MaybePart,
    R::NormalBroadcast: MaybePart,
{
    type Round = R;

    fn description(&self) -> String {
        format!("spec error {:?}", self.0.why)
    }

    fn required_messages(&self, round_id: &RoundId) -> RequiredMessages {
        if round_num(round_id) != Some(self.0.at) {
            notice("C06", format!("an error from the round {} was asked for its messages as one from {round_id:?}", self.0.at));
        }
        let prev: BTreeMap<RoundId, RequiredMessageParts> =
            self.0.prev.iter().filter_map(|(n, x)| parts_of(*x, n / 8 % 2 == 1).map(|p| (RoundId::new(*n), p))).collect();
        let echos: BTreeSet<RoundId> = self.0.echos.iter().map(|n| RoundId::new(*n)).collect();
        RequiredMessages::new(
            parts_of(self.0.this, self.0.at / 8 % 2 == 1).unwrap_or(RequiredMessageParts::normal_broadcast()),
            (!prev.is_empty()).then_some(prev),
            (!echos.is_empty()).then_some(echos),
        )
    }

    fn verify_evidence(
        &self,
        round_id: &RoundId,
        from: &Id,
        shared_randomness: &[u8],
        shared_data: &Shared,
        messages: EvidenceMessages<'_, Id, R>,
    ) -> Result<(), EvidenceError> {
        let mut shown = Shown {
            half: H,
            round: round_num(round_id),
            from: *from,
            shared: shared_randomness.to_vec(),
            run: shared_data.0.id,
            body: self.0.clone(),
            this: [None, None, None],
            prev: Vec::new(),
            echos: Vec::new(),
            errors: Vec::new(),
        };
        let mut get = |what: &str, r: Result<Option<Part>, EvidenceError>| match r {
            Ok(p) => p,
            Err(e) => {
                shown.errors.push(format!("{what}: {e:?}"));
                None
            }
        };
        if self.0.this[D] {
            shown.this[D] = get("direct", messages.direct_message().map(|x| x.part()));
        }
        if self.0.this[E] {
            shown.this[E] = get("echo", messages.echo_broadcast().map(|x| x.part()));
        }
        if self.0.this[N] {
            shown.this[N] = get("normal", messages.normal_broadcast().map(|x| x.part()));
        }
        for (n, need) in &self.0.prev {
            let mut p: Parts = [None, None, None];
            if need[D] {
                p[D] = get("prev direct", messages.previous_direct_message::<R7<H>>(*n).map(Some));
            }
            if need[E] {
                p[E] = get("prev echo", messages.previous_echo_broadcast::<R7<H>>(*n).map(Some));
            }
            if need[N] {
                p[N] = get("prev normal", messages.previous_normal_broadcast::<R7<H>>(*n).map(Some));
            }
            shown.prev.push((*n, p));
        }
        for n in &self.0.echos {
            match messages.combined_echos::<R7<H>>(*n) {
                Ok(m) => shown.echos.push((*n, m)),
                Err(e) => {
                    shown.errors.push(format!("combined echos: {e:?}"));
                }
            }
        }
        let main = shown.this[self.0.kind as usize % 3].clone();
        let verdict = match (&self.0.why, &main) {
            (_, None) => false,
            (Why::Content, Some(p)) => p.fault == 2 || p.fault == 3,
            (Why::Ref(n, k), Some(p)) => {
                let k_ = *k as usize % 3;
                let prev = if shown.round == Some(*n) {
                    shown.this[k_].as_ref()
                } else {
                    shown.prev.iter().find(|x| x.0 == *n).and_then(|x| x.1[k_].as_ref())
                };
                match prev {
                    None => false,
                    // References to direct messages are to the ones for the same destination
                    Some(prev) => {
                        (prev.kind as usize != D || prev.to == p.to)
                            && p.refs.iter().any(|(rn, rk, u)| rn == n && rk == k && *u != prev.uniq)
                    }
                }
            }
            (Why::Claim(n), Some(p)) => match shown.echos.iter().find(|x| x.0 == *n) {
                None => false,
                Some((_, m)) => p
                    .claims
                    .iter()
                    .any(|(cn, c)| cn == n && c.iter().any(|(id, u)| m.get(id).is_none_or(|e| e.uniq != *u))),
            },
        };
        let complete = shown.errors.is_empty();
        shared_data.0.ev(Ev::Shown(Box::new(shown)));
        if verdict && complete && !shared_data.0.reject.load(Ordering::Relaxed) {
            Ok(())
        } else {
            Err(EvidenceError::InvalidEvidence(format!("does not prove anything (complete: {complete})")))
        }
    }
}

/// Shared data for evidence verification.
#[derive(Clone, Debug)]
pub struct Shared(pub Arc<Run>);

/// The protocol; `H` distinguishes several instances (for chaining).
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Spec<const H: u8>;

pub trait HalfOf<const H: u8> {}

pub trait CoreRound: Round<Id> {
    fn core(&self) -> &Core;
    fn from_core(core: Core) -> Self;
}

fn conv<R, const H: u8>(f: Fail) -> ReceiveError<Id, R>
where
    R: Round<Id, ProtocolError = SpecError<R>, Protocol = Spec<H>>,
{
    match f {
        Fail::Local(e) => ReceiveError::Local(e),
        Fail::Unprovable(e) => ReceiveError::Unprovable(e),
        Fail::Protocol(b) => ReceiveError::Protocol(SpecError(b, PhantomData)),
    }
}

macro_rules! direct {
    (1) => {
        type DirectMessage = Part;
        type Artifact = Art;
        fn make_direct_message(
            &self,
            rng: &mut impl CryptoRngCore,
            destination: &Id,
        ) -> Result<(Part, Art), LocalError> {
            let (p, a) = self.0.make(rng, D, Some(*destination), true)?;
            Ok((p, a.unwrap()))
        }
    };
    (0) => {
        type DirectMessage = NoMessage;
        type Artifact = NoArtifact;
    };
}
macro_rules! echo {
    (1) => {
        type EchoBroadcast = Part;
        fn make_echo_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Part, LocalError> {
            Ok(self.0.make(rng, E, None, false)?.0)
        }
    };
    (0) => {
        type EchoBroadcast = NoMessage;
    };
}
macro_rules! normal {
    (1) => {
        type NormalBroadcast = Part;
        fn make_normal_broadcast(&self, rng: &mut impl CryptoRngCore) -> Result<Part, LocalError> {
            Ok(self.0.make(rng, N, None, false)?.0)
        }
    };
    (0) => {
        type NormalBroadcast = NoMessage;
    };
}
macro_rules! arts {
    (1, $a:expr) => {
        $a
    };
    (0, $a:expr) => {{
        let _ = $a;
        BTreeMap::new()
    }};
}

macro_rules! round_type {
    ($name:ident, $d:tt, $e:tt, $n:tt) => {
        #[derive(Debug)]
        pub struct $name<const H: u8>(pub Core);
        impl<const H: u8> HalfOf<H> for $name<H> {}
        impl<const H: u8> CoreRound for $name<H> {
            fn core(&self) -> &Core {
                &self.0
            }
            fn from_core(core: Core) -> Self {
                Self(core)
            }
        }
        impl<const H: u8> Round<Id> for $name<H> {
            type Protocol = Spec<H>;
            type ProtocolError = SpecError<Self>;
            type Payload = Pay;
            direct!($d);
            echo!($e);
            normal!($n);
            fn transition_info(&self) -> TransitionInfo {
                self.0.transition()
            }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                self.0.communication()
            }
            fn receive_message(
                &self,
                from: &Id,
                m: ProtocolMessage<Id, Self>,
            ) -> Result<Pay, ReceiveError<Id, Self>> {
                self.0
                    .receive(*from, [m.direct_message.part(), m.echo_broadcast.part(), m.normal_broadcast.part()])
                    .map_err(conv::<Self, H>)
            }
            fn finalize(
                self,
                rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<Id, Pay>,
                artifacts: BTreeMap<Id, Self::Artifact>,
            ) -> Result<FinalizeOutcome<Id, Spec<H>>, LocalError> {
                let artifacts: BTreeMap<Id, Art> = arts!($d, artifacts);
                self.0.finalize::<H>(rng, payloads, artifacts)
            }
        }
    };
}

round_type!(R0, 0, 0, 0);
round_type!(R1, 1, 0, 0);
round_type!(R2, 0, 1, 0);
round_type!(R3, 1, 1, 0);
round_type!(R4, 0, 0, 1);
round_type!(R5, 1, 0, 1);
round_type!(R6, 0, 1, 1);
round_type!(R7, 1, 1, 1);

pub fn make_round<const H: u8>(core: Core) -> BoxedRound<Id, Spec<H>> {
    match core.num() % 8 {
        0 => BoxedRound::new(R0::<H>(core)),
        1 => BoxedRound::new(R1::<H>(core)),
        2 => BoxedRound::new(R2::<H>(core)),
        3 => BoxedRound::new(R3::<H>(core)),
        4 => BoxedRound::new(R4::<H>(core)),
        5 => BoxedRound::new(R5::<H>(core)),
        6 => BoxedRound::new(R6::<H>(core)),
        _ => BoxedRound::new(R7::<H>(core)),
    }
}

impl<const H: u8> Protocol<Id> for Spec<H> {
    type Result = SpecResult;
    type SharedData = Shared;
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Id, Self>> {
        let num = round_num(round_id)?;
        if num == 0 || num == 255 {
            return None;
        }
        Some(match num % 8 {
            0 => RoundInfo::new::<R0<H>>(),
            1 => RoundInfo::new::<R1<H>>(),
            2 => RoundInfo::new::<R2<H>>(),
            3 => RoundInfo::new::<R3<H>>(),
            4 => RoundInfo::new::<R4<H>>(),
            5 => RoundInfo::new::<R5<H>>(),
            6 => RoundInfo::new::<R6<H>>(),
            _ => RoundInfo::new::<R7<H>>(),
        })
    }
}

/// Entry point; `EN` is the number of the first round (only relevant in chains).
#[derive(Debug, Clone)]
pub struct SpecEntry<const H: u8, const EN: u8> {
    pub run: Arc<Run>,
    pub input: Option<Box<SpecResult>>,
}

impl<const H: u8, const EN: u8> EntryPoint<Id> for SpecEntry<H, EN> {
    type Protocol = Spec<H>;
    fn entry_round_id() -> RoundId {
        RoundId::new(EN)
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Spec<H>>, LocalError> {
        let num = self.run.scripts[H as usize].rounds[0].num;
        self.run.local(*id, H, num, Method::NextEntry)?;
        self.run.ev(Ev::Entry {
            me: *id,
            half: H,
            shared: shared_randomness.to_vec(),
            input: self.input.as_ref().map(|x| x.uniq),
        });
        let inst = self.run.next();
        Ok(make_round::<H>(Core {
            token: Token::new(&self.run.live),
            run: self.run,
            me: *id,
            half: H,
            ri: 0,
            shared: shared_randomness.to_vec(),
            hist: BTreeMap::new(),
            sent: BTreeMap::new(),
            input: self.input,
            inst,
        }))
    }
}

// Chains

/// Two spec protocols (0, then 1).
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct Ch<const E1: u8, const E2: u8>;
impl<const E1: u8, const E2: u8> ChainedMarker for Ch<E1, E2> {}
impl<const E1: u8, const E2: u8> ChainedProtocol<Id> for Ch<E1, E2> {
    type Protocol1 = Spec<0>;
    type Protocol2 = Spec<1>;
}
#[derive(Debug, Clone)]
pub struct ChEntry<const E1: u8, const E2: u8> {
    pub run: Arc<Run>,
    pub input: Option<Box<SpecResult>>,
}
impl<const E1: u8, const E2: u8> ChainedMarker for ChEntry<E1, E2> {}
impl<const E1: u8, const E2: u8> ChainedSplit<Id> for ChEntry<E1, E2> {
    type Protocol = Ch<E1, E2>;
    type EntryPoint = SpecEntry<0, E1>;
    fn make_entry_point1(self) -> (Self::EntryPoint, impl ChainedJoin<Id, Protocol = Self::Protocol>) {
        (SpecEntry { run: self.run.clone(), input: self.input }, ChJoin::<E1, E2> { run: self.run })
    }
}
#[derive(Debug)]
pub struct ChJoin<const E1: u8, const E2: u8> {
    run: Arc<Run>,
}
impl<const E1: u8, const E2: u8> ChainedMarker for ChJoin<E1, E2> {}
impl<const E1: u8, const E2: u8> ChainedJoin<Id> for ChJoin<E1, E2> {
    type Protocol = Ch<E1, E2>;
    type EntryPoint = SpecEntry<1, E2>;
    fn make_entry_point2(self, result: SpecResult) -> Self::EntryPoint {
        SpecEntry { run: self.run, input: Some(Box::new(result)) }
    }
}

/// (0, 1), then 2
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct ChL<const E1: u8, const E2: u8, const E3: u8>;
impl<const E1: u8, const E2: u8, const E3: u8> ChainedMarker for ChL<E1, E2, E3> {}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedProtocol<Id> for ChL<E1, E2, E3> {
    type Protocol1 = Ch<E1, E2>;
    type Protocol2 = Spec<2>;
}
#[derive(Debug, Clone)]
pub struct ChLEntry<const E1: u8, const E2: u8, const E3: u8> {
    pub run: Arc<Run>,
}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedMarker for ChLEntry<E1, E2, E3> {}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedSplit<Id> for ChLEntry<E1, E2, E3> {
    type Protocol = ChL<E1, E2, E3>;
    type EntryPoint = ChEntry<E1, E2>;
    fn make_entry_point1(self) -> (Self::EntryPoint, impl ChainedJoin<Id, Protocol = Self::Protocol>) {
        (ChEntry { run: self.run.clone(), input: None }, ChLJoin::<E1, E2, E3> { run: self.run })
    }
}
#[derive(Debug)]
pub struct ChLJoin<const E1: u8, const E2: u8, const E3: u8> {
    run: Arc<Run>,
}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedMarker for ChLJoin<E1, E2, E3> {}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedJoin<Id> for ChLJoin<E1, E2, E3> {
    type Protocol = ChL<E1, E2, E3>;
    type EntryPoint = SpecEntry<2, E3>;
    fn make_entry_point2(self, result: SpecResult) -> Self::EntryPoint {
        SpecEntry { run: self.run, input: Some(Box::new(result)) }
    }
}

/// 2, then (0, 1)
#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
pub struct ChR<const E1: u8, const E2: u8, const E3: u8>;
impl<const E1: u8, const E2: u8, const E3: u8> ChainedMarker for ChR<E1, E2, E3> {}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedProtocol<Id> for ChR<E1, E2, E3> {
    type Protocol1 = Spec<2>;
    type Protocol2 = Ch<E1, E2>;
}
#[derive(Debug, Clone)]
pub struct ChREntry<const E1: u8, const E2: u8, const E3: u8> {
    pub run: Arc<Run>,
}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedMarker for ChREntry<E1, E2, E3> {}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedSplit<Id> for ChREntry<E1, E2, E3> {
    type Protocol = ChR<E1, E2, E3>;
    type EntryPoint = SpecEntry<2, E3>;
    fn make_entry_point1(self) -> (Self::EntryPoint, impl ChainedJoin<Id, Protocol = Self::Protocol>) {
        (SpecEntry { run: self.run.clone(), input: None }, ChRJoin::<E1, E2, E3> { run: self.run })
    }
}
#[derive(Debug)]
pub struct ChRJoin<const E1: u8, const E2: u8, const E3: u8> {
    run: Arc<Run>,
}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedMarker for ChRJoin<E1, E2, E3> {}
impl<const E1: u8, const E2: u8, const E3: u8> ChainedJoin<Id> for ChRJoin<E1, E2, E3> {
    type Protocol = ChR<E1, E2, E3>;
    type EntryPoint = ChEntry<E1, E2>;
    fn make_entry_point2(self, result: SpecResult) -> Self::EntryPoint {
        ChEntry { run: self.run, input: Some(Box::new(result)) }
    }
}

/// A protocol (and its entry point) that can be executed by the workloads.
pub trait World: 'static {
    type P: Protocol<Id, Result = SpecResult> + Serialize + for<'de> Deserialize<'de>;
    type EP: EntryPoint<Id, Protocol = Self::P>;
    /// The order in which the spec protocols are executed.
    const HALVES: &'static [u8];
    /// The numbers of the entry rounds for the halves above (`0` for "any").
    const ENTRY: &'static [u8];
    fn entry(run: &Arc<Run>) -> Self::EP;
    fn shared(run: &Arc<Run>) -> <Self::P as Protocol<Id>>::SharedData;
    const NAME: &'static str;
}

pub struct Plain;
impl World for Plain {
    type P = Spec<0>;
    type EP = SpecEntry<0, 8>;
    const HALVES: &'static [u8] = &[0];
    const ENTRY: &'static [u8] = &[0];
    const NAME: &'static str = "plain";
    fn entry(run: &Arc<Run>) -> Self::EP {
        SpecEntry { run: run.clone(), input: None }
    }
    fn shared(run: &Arc<Run>) -> Shared {
        Shared(run.clone())
    }
}

pub struct ChainW<const E1: u8, const E2: u8>;
impl<const E1: u8, const E2: u8> World for ChainW<E1, E2> {
    type P = Ch<E1, E2>;
    type EP = ChEntry<E1, E2>;
    const HALVES: &'static [u8] = &[0, 1];
    const ENTRY: &'static [u8] = &[E1, E2];
    const NAME: &'static str = "chain";
    fn entry(run: &Arc<Run>) -> Self::EP {
        ChEntry { run: run.clone(), input: None }
    }
    fn shared(run: &Arc<Run>) -> ChainedSharedData<Id, Self::P> {
        ChainedSharedData { protocol1: Shared(run.clone()), protocol2: Shared(run.clone()) }
    }
}

pub struct ChainLW<const E1: u8, const E2: u8, const E3: u8>;
impl<const E1: u8, const E2: u8, const E3: u8> World for ChainLW<E1, E2, E3> {
    type P = ChL<E1, E2, E3>;
    type EP = ChLEntry<E1, E2, E3>;
    const HALVES: &'static [u8] = &[0, 1, 2];
    const ENTRY: &'static [u8] = &[E1, E2, E3];
    const NAME: &'static str = "nested-left";
    fn entry(run: &Arc<Run>) -> Self::EP {
        ChLEntry { run: run.clone() }
    }
    fn shared(run: &Arc<Run>) -> ChainedSharedData<Id, Self::P> {
        ChainedSharedData { protocol1: ChainW::<E1, E2>::shared(run), protocol2: Shared(run.clone()) }
    }
}

pub struct ChainRW<const E1: u8, const E2: u8, const E3: u8>;
impl<const E1: u8, const E2: u8, const E3: u8> World for ChainRW<E1, E2, E3> {
    type P = ChR<E1, E2, E3>;
    type EP = ChREntry<E1, E2, E3>;
    const HALVES: &'static [u8] = &[2, 0, 1];
    const ENTRY: &'static [u8] = &[E3, E1, E2];
    const NAME: &'static str = "nested-right";
    fn entry(run: &Arc<Run>) -> Self::EP {
        ChREntry { run: run.clone() }
    }
    fn shared(run: &Arc<Run>) -> ChainedSharedData<Id, Self::P> {
        ChainedSharedData { protocol1: Shared(run.clone()), protocol2: ChainW::<E1, E2>::shared(run) }
    }
}
