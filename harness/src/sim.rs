//! A deterministic simulator driving real sessions one API call at a time,
//! with online monitors comparing what happens with what the properties demand.

use std::any::Any;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

use manul::protocol::{LocalError, RoundId};
use manul::session::{Message, 
    CanFinalize, PreprocessOutcome, RoundAccumulator, RoundOutcome, Session, SessionId, SessionOutcome,
    SessionReport, VerifiedMessage,
};
use rand::Rng;
use crate::light::ChaCha8Rng;
use rand_core::SeedableRng;
use serde_json::Value;

use crate::sp::*;
use crate::spec::*;
use crate::surgery::*;

/// Violations found and events counted.
#[derive(Default, Clone, Debug)]
pub struct Mon {
    pub viol: Vec<(String, String)>,
    pub stats: BTreeMap<String, u64>,
    pub chain: bool,
}

impl Mon {
    pub fn bad(&mut self, prop: &str, what: impl Into<String>) {
        let what = what.into();
        if self.viol.len() < 200 {
            if self.chain {
                self.viol.push(("C12".into(), what.clone()));
            }
            self.viol.push((prop.into(), what));
        }
    }
    pub fn count(&mut self, what: &str) {
        self.add(what, 1)
    }
    pub fn add(&mut self, what: &str, n: u64) {
        if let Some(x) = self.stats.get_mut(what) {
            *x += n;
        } else {
            self.stats.insert(what.to_string(), n);
        }
    }
    pub fn merge(&mut self, o: Mon) {
        self.viol.extend(o.viol);
        for (k, v) in o.stats {
            *self.stats.entry(k).or_default() += v;
        }
    }
}

pub fn panic_text(e: Box<dyn Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// The result of a guarded call.
pub enum Fault_ {
    Local(String),
    Panic(String),
}

pub fn guard<T>(f: impl FnOnce() -> Result<T, LocalError>) -> Result<T, Fault_> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) => Err(Fault_::Local(e.to_string())),
        Err(p) => Err(Fault_::Panic(panic_text(p))),
    }
}

/// Where a party is.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Stage {
    pub half: u8,
    pub ri: usize,
    pub echo: bool,
}

/// The ground truth about an element of an echo pack
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Entry {
    /// Properly signed by the party; the content (with the metadata) it stands for
    Valid(String),
    Invalid,
}
pub type Pack = BTreeMap<Id, Entry>;

#[derive(Clone)]
pub struct Env {
    pub from: Id,
    pub to: Id,
    pub persona: usize,
    pub v: Arc<Value>,
    /// Created by a session (not necessarily an honest one) and not modified since
    pub genuine: bool,
    pub stage: Option<Stage>,
    pub pack: Option<Pack>,
    pub label: String,
    /// Not to be delivered before the given number of other steps have passed.
    pub not_before: u64,
}

#[derive(Clone, Debug)]
pub enum ErrRec {
    /// With the text if known
    Unprovable(Option<String>),
    Protocol(ErrBody),
    Provable,
    /// Not known which of the above
    Some,
}

#[derive(Clone, Debug)]
pub struct Seen {
    pub stage: Stage,
    pub rid: RoundId,
    pub expects: BTreeSet<Id>,
    /// Those that have delivered something for this stage (judging by the metadata)
    pub delivered: BTreeSet<Id>,
    /// Those whose message was processed successfully
    pub done: BTreeSet<Id>,
    pub failed: BTreeSet<Id>,
    /// Accepted and not yet recorded
    pub inflight: BTreeSet<Id>,
    pub fuzzy: bool,
    pub finalized: bool,
}

type S<W, SP> = Session<<W as World>::P, SP>;
type A<W, SP> = RoundAccumulator<<W as World>::P, SP>;
pub type Report<W, SP> = SessionReport<<W as World>::P, SP>;
type ArtFn<W, SP> = Box<dyn FnOnce(&S<W, SP>, &mut A<W, SP>) -> Result<(), LocalError>>;

struct Pending<W: World, SP: Params> {
    from: Option<Id>,
    env: Option<usize>,
    cached: bool,
    msg: VerifiedMessage<Id>,
    ph: std::marker::PhantomData<fn() -> (W, SP)>,
}

struct Done<W: World, SP: Params> {
    from: Option<Id>,
    ok: Option<bool>,
    errs: Vec<(Id, ErrRec)>,
    cached: bool,
    f: ArtFn<W, SP>,
}

pub struct Node<W: World, SP: Params> {
    pub id: Id,
    pub persona: usize,
    pub honest: bool,
    pub run: Arc<Run>,
    rng: ChaCha8Rng,
    st: Option<(S<W, SP>, A<W, SP>)>,
    to_make: Vec<Id>,
    arts: Vec<ArtFn<W, SP>>,
    verified: Vec<Pending<W, SP>>,
    adds: Vec<Done<W, SP>>,
    pub stages: Vec<Seen>,
    /// Senders of the cached messages of the current stage not yet identified
    cached_senders: BTreeSet<Id>,
    cached_left: usize,
    /// Senders of the cached ones for the later stages
    cached: BTreeMap<(RoundId, Id), usize>,
    /// The first accepted message for the given round
    accepted: BTreeMap<(RoundId, Id), usize>,
    /// The banned, with errors in the order of appearance
    pub errs: BTreeMap<Id, Vec<ErrRec>>,
    /// Stage (index) at which the party was banned
    banned_at: BTreeMap<Id, usize>,
    pub got_echo: BTreeMap<(u8, usize), BTreeMap<Id, String>>,
    /// Broadcast parts as sent, and the direct parts
    sent: BTreeMap<(Stage, usize), BTreeSet<String>>,
    pub report: Option<Report<W, SP>>,
    pub failure: Option<String>,
    pub panicked: bool,
    /// How the session was ended
    ended: Option<&'static str>,
    /// Messages from which are known to be delivered twice or more
    pub tainted: BTreeSet<Id>,
    pub unrec: BTreeSet<Id>,
    /// One of several parties was found at fault, and it is not known which one
    maybe_banned: BTreeSet<Id>,
    delivered_ptrs: BTreeSet<usize>,
    /// Faulty echo packs recorded, with the possible culprits
    pub bad_packs: Vec<(Stage, Vec<Id>)>,
    log_pos: usize,
}

#[derive(Clone, Debug)]
pub struct SchedOpts {
    /// 0 - uniform, 1 - LIFO delivery, 2 - local work first, 3 - deliveries first, 4 - starving a party,
    /// 5 - FIFO
    pub style: u8,
    /// Probability of delivering genuine messages between honest parties twice
    pub dup_honest: f64,
    /// Probability of losing a genuine message
    pub lose: f64,
    /// Probability of terminating a node at any point
    pub terminate: f64,
    /// Probability of not terminating a hopeless session for some time
    pub linger: f64,
    /// How the messages are transferred: 0 - as they are, 1 - the wire format, 2 - Postcard, 3 - JSON, 4 - mixed
    pub transport: u8,
}

impl Default for SchedOpts {
    fn default() -> Self {
        Self { style: 0, dup_honest: 0.0, lose: 0.0, terminate: 0.0, linger: 0.5, transport: 0 }
    }
}

/// Chooses what the misbehaving parties do.
pub trait Adversary<W: World, SP: Params> {
    /// Called for every message created by a session of a corrupt party; returns what is put on the wire.
    fn outgoing(&mut self, env: Env, sim: &mut Sim<W, SP>) -> Vec<Env>;
    /// Called before every step.
    fn inject(&mut self, sim: &mut Sim<W, SP>) -> Vec<Env>;
}

pub struct NoAdversary;
impl<W: World, SP: Params> Adversary<W, SP> for NoAdversary {
    fn outgoing(&mut self, env: Env, _sim: &mut Sim<W, SP>) -> Vec<Env> {
        vec![env]
    }
    fn inject(&mut self, _sim: &mut Sim<W, SP>) -> Vec<Env> {
        Vec::new()
    }
}

pub struct Sim<W: World, SP: Params> {
    pub rng: ChaCha8Rng,
    pub sid: SessionId,
    pub scripts: Vec<Script>,
    pub parties: BTreeSet<Id>,
    pub nodes: Vec<Node<W, SP>>,
    pub bag: Vec<Env>,
    /// All the envelopes ever put on the wire
    pub envs: Vec<Env>,
    pub ledger: Ledger,
    pub mon: Mon,
    pub steps: u64,
    pub rids: BTreeMap<RoundId, Stage>,
    pub rid_of: BTreeMap<Stage, RoundId>,
    pub sched: SchedOpts,
    pub starved: Option<Id>,
    pub honest: BTreeSet<Id>,
    /// Which persona of the given corrupt party talks to the given party
    pub audience: BTreeMap<(Id, Id), usize>,
    pub sign_log: SignLog,
    /// Hash of the sequence of actions (to count the distinct interleavings)
    pub trace: u64,
    pub has_local_faults: bool,
    pub messages: Vec<Env>,
}

/// Round IDs of the halves of a world with an arbitrary number.
pub fn half_ids<W: World, SP: Params>() -> BTreeMap<u8, RoundId> {
    static CACHE: Mutex<Option<BTreeMap<&'static str, BTreeMap<u8, String>>>> = Mutex::new(None);
    if let Some(x) = CACHE.lock().unwrap().get_or_insert_with(BTreeMap::new).get(W::NAME) {
        return x.iter().map(|(h, s)| (*h, serde_json::from_str(s).unwrap())).collect();
    }
    // Run a single party through all the halves
    let mut rng = ChaCha8Rng::seed_from_u64(1);
    let ps = crate::gen::parties(1);
    let mut scripts = BTreeMap::new();
    for (i, h) in W::HALVES.iter().enumerate() {
        let mut s = crate::gen::uniform_script(1, &[1], 0);
        s.parties = ps.clone();
        if W::ENTRY[i] != 0 {
            s.rounds[0].num = W::ENTRY[i];
        }
        scripts.insert(*h, s);
    }
    let run = Arc::new(Run::new(scripts.into_values().collect()));
    let sid = SessionId::from_seed::<SP>(b"probe");
    let mut session = Session::<W::P, SP>::new(&mut rng, sid, Signer::new(Id(1)), W::entry(&run)).expect("probe: a lone honest party must be able to run");
    let mut res = BTreeMap::new();
    loop {
        let half = match run.take_log().iter().rev().find(|e| matches!(e, Ev::Entry { .. })) {
            Some(Ev::Entry { half, .. }) => *half,
            _ => unreachable!(),
        };
        res.entry(half).or_insert_with(|| main_of(&session.round_id()));
        let accum = session.make_accumulator();
        match session.finalize_round(&mut rng, accum).expect("probe: a lone honest party must be able to run") {
            RoundOutcome::Finished(_) => break,
            RoundOutcome::AnotherRound { session: s, .. } => session = *s,
        }
    }
    let text = res.iter().map(|(h, r)| (*h, serde_json::to_string(r).unwrap())).collect();
    CACHE.lock().unwrap().as_mut().unwrap().insert(W::NAME, text);
    res
}

/// The identifiers of all the rounds.
pub fn round_ids<W: World, SP: Params>(scripts: &[Script]) -> BTreeMap<RoundId, Stage> {
    let ids = half_ids::<W, SP>();
    let mut rids = BTreeMap::new();
    for h in W::HALVES {
        for (ri, r) in scripts[*h as usize].rounds.iter().enumerate() {
            for echo in [false, true] {
                let mut id = with_num(&ids[h], r.num);
                if echo {
                    id = echo_of(&id);
                }
                rids.insert(id, Stage { half: *h, ri, echo });
            }
        }
    }
    rids
}

/// The same ID with a different number.
pub fn with_num(id: &RoundId, num: u8) -> RoundId {
    let probe = serde_json::to_value(RoundId::new(177)).unwrap();
    let paths = find(&probe, |x| x.as_u64() == Some(177));
    assert_eq!(paths.len(), 1);
    let mut v = serde_json::to_value(id).unwrap();
    *at_mut(&mut v, &paths[0]).unwrap() = Value::from(num);
    serde_json::from_value(v).unwrap()
}

/// The same ID on another place of the tree of chained protocols.
pub fn with_groups(id: &RoundId, groups: &[u8]) -> RoundId {
    let mut v = serde_json::to_value(id).unwrap();
    let lists = find(&v, |x| x.is_array());
    if lists.len() == 1 {
        *at_mut(&mut v, &lists[0]).unwrap() = serde_json::json!(groups);
    }
    serde_json::from_value(v).unwrap_or_else(|_| id.clone())
}

/// Groups that no, or perhaps another part of the protocol has.
pub fn odd_groups(id: &RoundId, rng: &mut impl rand::Rng) -> RoundId {
    let n = [0, 0, 1, 1, 2, 3, 40][rng.gen_range(0..7)];
    let groups: Vec<u8> = (0..n).map(|_| if rng.gen_bool(0.9) { rng.gen_range(1..3) } else { rng.gen() }).collect();
    with_groups(id, &groups)
}

pub fn echo_peers(spec: &RoundSpec, me: Id) -> Option<BTreeSet<Id>> {
    let p = &spec.per[&me];
    match &p.echo {
        EchoRole::Default => (combo_has(spec.num, E) && !p.dests.is_empty()).then(|| p.dests.clone()),
        EchoRole::Send => None,
        EchoRole::Receive(t) => Some(t.clone()),
    }
}

/// Who has sent the message, if that can be told (only the debug representation is available).
fn sender_hint(m: &VerifiedMessage<Id>) -> Option<Id> {
    let text = format!("{m:?}");
    let rest = &text[text.find("from: P")? + 7..];
    let end = rest.find(|c: char| !c.is_ascii_digit())?;
    rest[..end].parse().ok().map(Id)
}

pub fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29)
}

impl<W: World, SP: Params> Sim<W, SP> {
    pub fn new(
        seed: u64,
        sid: SessionId,
        scripts: Vec<Script>,
        honest: BTreeSet<Id>,
        runs: Vec<(Id, Arc<Run>)>,
        sched: SchedOpts,
        ledger: Ledger,
    ) -> Self {
        let mut rng = ChaCha8Rng::seed_from_u64(seed);
        let rids = round_ids::<W, SP>(&scripts);
        let rid_of = rids.iter().map(|(r, s)| (*s, r.clone())).collect();
        let parties = scripts[0].parties.clone();
        let sign_log = SignLog::default();
        let starved = (sched.style == 4).then(|| *parties.iter().nth(rng.gen_range(0..parties.len())).unwrap());
        let mut sim = Self {
            rng,
            sid,
            scripts,
            parties,
            nodes: Vec::new(),
            bag: Vec::new(),
            envs: Vec::new(),
            ledger,
            mon: Mon { chain: W::HALVES.len() > 1, ..Mon::default() },
            steps: 0,
            rids,
            rid_of,
            sched,
            starved,
            honest,
            audience: BTreeMap::new(),
            sign_log,
            trace: 0,
            has_local_faults: false,
            messages: Vec::new(),
        };
        let mut personas: BTreeMap<Id, usize> = BTreeMap::new();
        for (id, run) in runs {
            let k = personas.entry(id).or_default();
            sim.start_node(id, *k, run);
            *k += 1;
        }
        for c in &sim.parties.clone() {
            let n = *personas.get(c).unwrap_or(&0);
            if n > 1 {
                for x in &sim.parties.clone() {
                    let k = sim.rng.gen_range(0..n);
                    sim.audience.insert((*c, *x), k);
                }
            }
        }
        sim
    }

    fn spec(&self, st: &Stage) -> &RoundSpec {
        &self.scripts[st.half as usize].rounds[st.ri]
    }

    fn start_node(&mut self, id: Id, persona: usize, run: Arc<Run>) {
        let seed = self.rng.gen();
        let honest = self.honest.contains(&id);
        let mut node = Node::<W, SP> {
            id,
            persona,
            honest,
            run: run.clone(),
            rng: ChaCha8Rng::seed_from_u64(seed),
            st: None,
            to_make: Vec::new(),
            arts: Vec::new(),
            verified: Vec::new(),
            adds: Vec::new(),
            stages: Vec::new(),
            cached_senders: BTreeSet::new(),
            cached_left: 0,
            cached: BTreeMap::new(),
            accepted: BTreeMap::new(),
            errs: BTreeMap::new(),
            banned_at: BTreeMap::new(),
            got_echo: BTreeMap::new(),
            sent: BTreeMap::new(),
            report: None,
            failure: None,
            panicked: false,
            ended: None,
            tainted: BTreeSet::new(),
            unrec: BTreeSet::new(),
            maybe_banned: BTreeSet::new(),
            delivered_ptrs: BTreeSet::new(),
            bad_packs: Vec::new(),
            log_pos: 0,
        };
        let signer = if honest { Signer::with_log(id, self.sign_log.clone()) } else { Signer::new(id) };
        let sid = self.sid.clone();
        let res = guard(|| Session::<W::P, SP>::new(&mut node.rng, sid, signer, W::entry(&run)));
        self.nodes.push(node);
        let i = self.nodes.len() - 1;
        match res {
            Ok(s) => self.enter(i, s, Vec::new()),
            Err(f) => self.fail(i, f, "Session::new"),
        }
    }

    /// A session call of a node has failed
    fn fail(&mut self, i: usize, f: Fault_, what: &str) {
        let node = &mut self.nodes[i];
        let faults = !node.run.local_faults.is_empty();
        let id = node.id;
        let text = match f {
            Fault_::Local(e) => e,
            Fault_::Panic(e) => {
                node.panicked = true;
                format!("PANIC {e}")
            }
        };
        node.failure = Some(format!("{what}: {text}"));
        if !node.honest {
            node.st = None;
            return;
        }
        let injected = faults && self.nodes[i].run.local_faults.iter().any(|x| x.0 == id);
        if injected {
            if self.nodes[i].panicked {
                self.mon.bad("C17", format!("{id:?} panicked in {what}: {text}"));
                self.nodes[i].st = None;
            } else {
                self.mon.count("local_failures_reported");
                // The session may still be ended to obtain the report
                self.end(i, "terminate");
            }
            return;
        }
        self.nodes[i].st = None;
        self.mon.bad("C08", format!("{id:?}: {what} ended with a local failure: {text}"));
        if self.honest.len() == self.parties.len() {
            self.mon.bad("C03", format!("{id:?}: {what} ended with a local failure among honest parties: {text}"));
        }
    }

    /// The node is entering a new stage.
    fn enter(&mut self, i: usize, s: S<W, SP>, cached: Vec<VerifiedMessage<Id>>) {
        let rid = s.round_id();
        let Some(stage) = self.rids.get(&rid).copied() else {
            let id = self.nodes[i].id;
            self.mon.bad("C03", format!("{id:?} entered an unknown round {rid:?}"));
            self.nodes[i].st = None;
            self.nodes[i].failure = Some("unknown round".into());
            return;
        };
        let me = self.nodes[i].id;
        let spec = self.spec(&stage).clone();
        let honest = self.nodes[i].honest;
        let faulty = self.nodes[i].run.local_faults.iter().any(|x| x.0 == me);
        // Is this the right one?
        if honest && !faulty {
            let ok = match self.nodes[i].stages.last() {
                None => stage.half == W::HALVES[0] && stage.ri == 0 && !stage.echo,
                Some(p) => {
                    let ps = self.spec(&p.stage);
                    if !p.stage.echo && echo_peers(ps, me).is_some() {
                        stage == Stage { echo: true, ..p.stage }
                    } else {
                        match ps.per[&me].next {
                            Step::Round(r) => stage == Stage { half: p.stage.half, ri: r, echo: false },
                            Step::Result => {
                                let k = W::HALVES.iter().position(|h| *h == p.stage.half).unwrap();
                                W::HALVES.get(k + 1) == Some(&stage.half) && stage.ri == 0 && !stage.echo
                            }
                        }
                    }
                }
            };
            if !ok {
                let from = self.nodes[i].stages.last().map(|s| s.rid.clone());
                self.mon.bad("C03", format!("{me:?} went from {from:?} to {rid:?}"));
            }
        }
        if faulty {
            if let Some(prev) = self.nodes[i].stages.last().map(|s| s.stage) {
                let num = self.spec(&prev).num;
                let run = self.nodes[i].run.clone();
                let bad = run.log.lock().unwrap().iter().any(|e| {
                    matches!(e, Ev::Injected { me: m, half, num: n, method: Method::WrongSuccessor }
                        if *m == me && *half == prev.half && *n == num)
                });
                if bad {
                    self.mon.bad("C17", format!("{me:?} moved from {prev:?} to the undeclared {stage:?}"));
                }
            }
        }
        let p = &spec.per[&me];
        let (expects, dests) = if stage.echo {
            let peers = echo_peers(&spec, me).unwrap_or_default();
            (peers.clone(), peers)
        } else {
            (p.expects.clone(), p.dests.clone())
        };
        if honest && *s.message_destinations() != dests {
            self.mon.bad(
                "C16",
                format!("{me:?} in {rid:?} sends to {:?} instead of {dests:?}", s.message_destinations()),
            );
        }
        let accum = match guard(|| Ok(s.make_accumulator())) {
            Ok(a) => a,
            Err(f) => return self.fail(i, f, "make_accumulator"),
        };
        let node = &mut self.nodes[i];
        node.to_make = s.message_destinations().iter().copied().collect();
        node.arts.clear();
        node.verified.clear();
        node.adds.clear();
        let mut seen = Seen {
            stage,
            rid: rid.clone(),
            expects: expects.clone(),
            delivered: BTreeSet::new(),
            done: BTreeSet::new(),
            failed: BTreeSet::new(),
            inflight: BTreeSet::new(),
            fuzzy: false,
            finalized: false,
        };
        let here: Vec<Id> = node.cached.keys().filter(|(r, _)| *r == rid).map(|(_, f)| *f).collect();
        seen.delivered.extend(here.iter().copied());
        node.cached_senders =
            here.into_iter().filter(|f| expects.contains(f) && !node.banned_at.contains_key(f)).collect();
        node.cached_left = cached.len();
        seen.inflight = node.cached_senders.clone();
        let excess = cached.len() > node.cached_senders.len();
        let banned_here: Vec<Id> =
            node.cached.keys().filter(|(r, f)| *r == rid && node.banned_at.contains_key(f)).map(|x| x.1).collect();
        if excess && honest && !banned_here.is_empty() {
            self.mon.bad(
                "C09",
                format!("{me:?} in {rid:?}: a message set aside is up for processing, but the senders {banned_here:?} are at fault"),
            );
        }
        let node = &mut self.nodes[i];
        if cached.len() != node.cached_senders.len() {
            // Either a message was lost or one which should not be here was not dropped;
            // the consequences will be judged.
            seen.fuzzy = true;
        }
        // Not caring about the ones for the other rounds anymore
        node.cached.retain(|(r, _), _| *r != rid);
        node.verified = cached
            .into_iter()
            .map(|msg| {
                let from = sender_hint(&msg).filter(|f| node.accepted.contains_key(&(rid.clone(), *f)));
                let env = from.and_then(|f| node.accepted.get(&(rid.clone(), f)).copied());
                Pending { from, env, cached: true, msg, ph: std::marker::PhantomData }
            })
            .collect();
        node.stages.push(seen);
        node.st = Some((s, accum));
        self.mon.count("stages_entered");
    }

    pub fn end(&mut self, i: usize, how: &'static str) {
        let node = &mut self.nodes[i];
        let Some((s, a)) = node.st.take() else { return };
        let res = guard(move || if how == "errors" { s.terminate_due_to_errors(a) } else { s.terminate(a) });
        match res {
            Ok(r) => {
                self.mon.count(&format!("ended_{how}"));
                self.nodes[i].report = Some(r);
                self.nodes[i].ended = Some(how);
            }
            Err(f) => self.fail(i, f, "terminate"),
        }
    }

    /// Possibly simultaneous rounds, as far as the transitions of the protocol are concerned.
    fn may_be_active(&self, st: &Stage, other: &Stage) -> bool {
        let spec = self.spec(st);
        let o = self.spec(other);
        if st.half == other.half {
            st.ri == other.ri
                || spec.parents.contains(&o.num)
                || spec.siblings.contains(&o.num)
                || spec.children.contains(&o.num)
        } else {
            let k = W::HALVES.iter().position(|h| *h == st.half).unwrap();
            let l = W::HALVES.iter().position(|h| *h == other.half).unwrap();
            (l == k + 1 && spec.may_produce_result && other.ri == 0)
                || (l + 1 == k && o.may_produce_result && st.ri == 0)
        }
    }

    fn make_one(&mut self, i: usize) -> Vec<Env> {
        let k = self.rng.gen_range(0..self.nodes[i].to_make.len());
        let node = &mut self.nodes[i];
        let to = node.to_make.swap_remove(k);
        let (s, _) = node.st.as_ref().unwrap();
        let rng = &mut node.rng;
        let res = guard(|| s.make_message(rng, &to));
        match res {
            Ok((m, art)) => {
                node.arts.push(Box::new(move |s, a| s.add_artifact(a, art)));
                let v = to_value(&m);
                let id = node.id;
                let stage = node.stages.last().unwrap().stage;
                let honest = node.honest;
                let schema = Schema::get::<SP>();
                self.ledger.add::<SP>(id, &v);
                self.mon.count("messages_made");
                let node = &mut self.nodes[i];
                if honest {
                    for kind in [D, E, N] {
                        let text = schema.part(&v, kind).to_string();
                        let set = node.sent.entry((stage, kind)).or_default();
                        let new = set.insert(text);
                        let n = set.len();
                        if kind == D && !new {
                            self.mon.bad("C16", format!("{id:?} sent identical direct parts twice in {stage:?}"));
                        }
                        if kind != D && n > 1 {
                            self.mon.bad(
                                "C16",
                                format!("{id:?} sent different broadcasts (kind {kind}) to its destinations in {stage:?}"),
                            );
                        }
                    }
                    if *m.destination() != to {
                        self.mon.bad("C16", format!("{id:?} created a message for {:?} instead of {to:?}", m.destination()));
                    }
                }
                let node = &mut self.nodes[i];
                let mut pack = None;
                if !stage.echo {
                    let e = schema.part(&v, E);
                    if schema.payload_bytes(e).is_some() {
                        node.got_echo.entry((stage.half, stage.ri)).or_default().insert(id, schema.content(e));
                    }
                } else {
                    let own = node.got_echo.get(&(stage.half, stage.ri)).cloned().unwrap_or_default();
                    pack = Some(
                        own.into_iter().filter(|x| x.0 != id).map(|(k, c)| (k, Entry::Valid(c))).collect::<Pack>(),
                    );
                }
                vec![Env {
                    from: id,
                    to,
                    persona: node.persona,
                    v: Arc::new(v),
                    genuine: true,
                    stage: Some(stage),
                    pack,
                    label: "genuine".into(),
                    not_before: 0,
                }]
            }
            Err(f) => {
                self.fail(i, f, "make_message");
                Vec::new()
            }
        }
    }

    pub fn post(&mut self, env: Env) {
        self.messages.push(env.clone());
        self.bag.push(env);
    }

    /// Whether the echo pack is good for the given node: `Ok(true)`, or the errors to be expected
    fn judge_pack(&self, i: usize, stage: &Stage, from: Id, pack: &Pack) -> Result<(), Vec<(Id, ErrRec)>> {
        let node = &self.nodes[i];
        let spec = self.spec(stage);
        let mut exp: BTreeSet<Id> = spec.per[&node.id].expects.clone();
        if matches!(spec.per[&node.id].echo, EchoRole::Default) {
            exp.insert(node.id);
        }
        exp.remove(&from);
        let keys: BTreeSet<Id> = pack.keys().copied().collect();
        if keys != exp {
            return Err(vec![(from, ErrRec::Unprovable(None))]);
        }
        let empty = BTreeMap::new();
        let own = node.got_echo.get(&(stage.half, stage.ri)).unwrap_or(&empty);
        let mut errs: Vec<(Id, ErrRec)> = Vec::new();
        for (s, e) in pack {
            match e {
                Entry::Invalid => errs.push((from, ErrRec::Provable)),
                Entry::Valid(c) => {
                    let Some(o) = own.get(s) else { continue };
                    if c == o {
                        continue;
                    }
                    if self.same_metadata(c, o) {
                        errs.push((*s, ErrRec::Provable));
                    } else {
                        errs.push((from, ErrRec::Provable));
                    }
                }
            }
        }
        if errs.is_empty() {
            Ok(())
        } else {
            Err(errs)
        }
    }

    fn same_metadata(&self, a: &str, b: &str) -> bool {
        let s = Schema::get::<SP>();
        let a: Value = serde_json::from_str(a).unwrap();
        let b: Value = serde_json::from_str(b).unwrap();
        at(&a, &s.sid) == at(&b, &s.sid) && at(&a, &s.rid) == at(&b, &s.rid)
    }

    fn ban(&mut self, i: usize, whom: Id, rec: ErrRec) {
        let node = &mut self.nodes[i];
        let at = node.stages.len().saturating_sub(1);
        node.banned_at.entry(whom).or_insert(at);
        node.errs.entry(whom).or_default().push(rec);
        self.mon.count("errors_recorded");
    }

    fn transfer(&mut self, m: Message<Id>) -> Result<Message<Id>, (Message<Id>, String)> {
        let mode = match self.sched.transport {
            4 => 1 + (self.steps % 3) as u8,
            x => x,
        };
        if mode != 0 {
            self.mon.count("transported");
        }
        let res = match mode {
            0 => return Ok(m),
            1 => de::<SP, Message<Id>>(&ser::<SP, _>(&m)),
            2 => postcard::to_allocvec(&m).and_then(|b| postcard::from_bytes(&b)).map_err(|e| e.to_string()),
            _ => serde_json::to_vec(&m).and_then(|b| serde_json::from_slice(&b)).map_err(|e| e.to_string()),
        };
        res.map_err(|e| (m, e))
    }

    fn deliver(&mut self, i: usize, env: Env) {
        self.mon.count("deliveries");
        let Some(msg) = to_message(&env.v) else {
            self.mon.count("undecodable_messages");
            return;
        };
        // In the canonical form
        let v = to_value(&msg);
        let msg = match self.transfer(msg) {
            Ok(m) => m,
            Err((m, e)) => {
                self.mon.bad("C14", format!("a message cannot be transferred: {e}: {}", env.v));
                m
            }
        };
        let schema = Schema::get::<SP>();
        let ps: Vec<Value> = [D, E, N].iter().map(|k| schema.part(&v, *k).clone()).collect();
        let rids: Vec<Option<RoundId>> = ps.iter().map(|p| schema.rid(p)).collect();
        let sids: Vec<Option<SessionId>> =
            ps.iter().map(|p| serde_json::from_value(at(p, &schema.sid).unwrap().clone()).ok()).collect();
        let meta_ok = rids.iter().all(|r| *r == rids[0]) && sids.iter().all(|s| *s == sids[0]);
        let sid_ok = sids[0].as_ref() == Some(&self.sid);
        let auth = (0..3).all(|k| self.ledger.is_authentic::<SP>(env.from, k, &ps[k]));
        let rid = rids[0].clone().unwrap();
        let node = &mut self.nodes[i];
        let me = node.id;
        let honest = node.honest;
        let stage = node.stages.last().unwrap().stage;
        let cur = node.stages.last().unwrap().rid.clone();
        let from = env.from;
        let banned = node.banned_at.contains_key(&from);
        let unsure = node.maybe_banned.contains(&from) && !banned;
        let before = node.accepted.contains_key(&(rid.clone(), from));
        if meta_ok && sid_ok && rid == cur {
            node.stages.last_mut().unwrap().delivered.insert(from);
        }
        let expected = node.stages.last().unwrap().expects.contains(&from);
        let again = !node.delivered_ptrs.insert(Arc::as_ptr(&env.v) as usize);
        if again || !env.genuine {
            node.tainted.insert(from);
        }
        let (s, a) = node.st.as_mut().unwrap();
        let res = guard(|| s.preprocess_message(a, &from, msg));
        let out = match res {
            Ok(o) => o,
            Err(f) => return self.fail(i, f, &format!("preprocess_message ({} from {from:?})", env.label)),
        };
        let (kind, text) = match &out {
            PreprocessOutcome::ToProcess(_) => ("process", None),
            PreprocessOutcome::Cached => ("cached", None),
            PreprocessOutcome::Error(e) => ("error", Some(e.to_string())),
        };
        self.mon.count(&format!("preprocess_{kind}"));
        if !env.genuine {
            self.mon.count("hostile_deliveries");
        }
        let eidx = self.envs.len();
        let describe = || format!("{me:?} at {cur:?}: {} message from {from:?} for {rid:?}", env.label);
        if honest {
            if banned {
                if kind == "process" {
                    self.mon.bad("C09", format!("{} let through though the sender is at fault already", describe()));
                }
            } else if !auth || !meta_ok || !sid_ok {
                if kind != "error" {
                    self.mon.bad(
                        "C01",
                        format!(
                            "{} was accepted ({kind}); authentic: {auth}, consistent: {meta_ok}, session: {sid_ok}",
                            describe()
                        ),
                    );
                } else {
                    self.mon.count("forgeries_rejected");
                }
            } else if rid == cur {
                if before && kind == "process" {
                    self.mon.bad("C02", format!("{} accepted for the second time", describe()));
                }
                if before {
                    self.mon.count("duplicates_seen");
                }
                if !before && expected && kind != "process" && !unsure {
                    if self.honest.contains(&from) {
                        self.mon.bad("C03", format!("{} was not accepted: {kind} {text:?}", describe()));
                    } else {
                        // Nothing happened before, so it's the first valid message from this party
                        self.mon.bad(
                            "C02",
                            format!("{} is the first valid one for the round, but was not accepted: {kind} {text:?}", describe()),
                        );
                    }
                }
            } else {
                let legit = self.rids.get(&rid).is_some_and(|o| self.may_be_active(&stage, o));
                if !legit && kind != "error" {
                    self.mon.bad("C01", format!("{} from an unrelated round was accepted ({kind})", describe()));
                }
                if kind == "process" {
                    self.mon.bad("C01", format!("{} is to be processed in another round", describe()));
                }
                self.mon.count("other_round_messages");
            }
        }
        // Update the model
        let node = &mut self.nodes[i];
        match out {
            PreprocessOutcome::ToProcess(m) => {
                node.accepted.entry((rid.clone(), from)).or_insert(eidx);
                node.verified.push(Pending { from: Some(from), env: Some(eidx), cached: false, msg: *m, ph: std::marker::PhantomData });
                let seen = node.stages.last_mut().unwrap();
                seen.inflight.insert(from);
            }
            PreprocessOutcome::Cached => {
                node.accepted.entry((rid.clone(), from)).or_insert(eidx);
                node.cached.insert((rid.clone(), from), eidx);
            }
            PreprocessOutcome::Error(_) => {
                if !banned {
                    self.ban(i, from, if unsure { ErrRec::Some } else { ErrRec::Unprovable(text) });
                    if !auth || !meta_ok || !sid_ok {
                        self.nodes[i].unrec.insert(from);
                    }
                }
            }
        }
        self.envs.push(env);
    }

    fn process_one(&mut self, i: usize) {
        let k = self.rng.gen_range(0..self.nodes[i].verified.len());
        let node = &mut self.nodes[i];
        let p = node.verified.swap_remove(k);
        let me = node.id;
        let honest = node.honest;
        let stage = node.stages.last().unwrap().stage;
        let cur = node.stages.last().unwrap().rid.clone();
        let at = node.stages.len() - 1;
        let before = node.run.log_len();
        let (s, _) = node.st.as_ref().unwrap();
        let msg = p.msg;
        let res = guard(|| Ok(s.process_message(msg)));
        let done = match res {
            Ok(d) => d,
            Err(f) => return self.fail(i, f, "process_message"),
        };
        let is_cached = p.cached;
        let news: Vec<Ev> = node.run.log.lock().unwrap()[before..].to_vec();
        let mut from = p.from;
        let mut ok = None;
        let mut errs = Vec::new();
        let mut n_recv = 0;
        for ev in &news {
            let Ev::Recv { half, num, from: f, parts, out, me: m } = ev else { continue };
            if m != &me {
                continue;
            }
            n_recv += 1;
            self.mon.count("received_by_protocol");
            let spec = self.spec(&stage);
            if honest {
                if stage.echo || *half != stage.half || *num != spec.num {
                    self.mon.bad("C01", format!("{me:?} at {stage:?} was handed a message in round {half}/{num}"));
                }
                if p.from.is_some_and(|x| x != *f) {
                    self.mon.bad("C01", format!("{me:?}: message from {:?} presented as one from {f:?}", p.from));
                }
                if is_cached && !self.nodes[i].cached_senders.contains(f) {
                    if self.nodes[i].banned_at.get(f).is_some_and(|b| *b < at) {
                        self.mon.bad("C09", format!("{me:?}: set aside message from {f:?} processed in {cur:?} after a fault"));
                    } else if !self.nodes[i].banned_at.contains_key(f) {
                        self.mon.bad("C02", format!("{me:?}: an unexpected cached message from {f:?} processed in {cur:?}"));
                    }
                }
                self.check_recv(i, &cur, *f, parts);
            }
            from = Some(*f);
            match out {
                RecvOut::Ok(_) => ok = Some(true),
                RecvOut::Unprovable => {
                    ok = Some(false);
                    errs.push((*f, ErrRec::Unprovable(Some("invalid content".into()))));
                }
                RecvOut::Provable(b) => {
                    ok = Some(false);
                    errs.push((*f, ErrRec::Protocol(b.clone())));
                }
                RecvOut::Local => {}
            }
        }
        if n_recv > 1 && honest {
            self.mon.bad("C02", format!("{me:?} processed one message {n_recv} times in {cur:?}"));
        }
        let node = &mut self.nodes[i];
        if is_cached {
            if let Some(f) = from {
                node.cached_senders.remove(&f);
            }
            node.cached_left -= 1;
        }
        if n_recv == 0 {
            if !stage.echo {
                // Could not be decoded into what was expected
                ok = Some(false);
                if let Some(f) = from {
                    errs.push((f, ErrRec::Some));
                    self.mon.count("malformed_messages");
                    let env = p.env.map(|e| &self.envs[e]);
                    let schema = Schema::get::<SP>();
                    let num = self.spec(&stage).num;
                    if env.is_some_and(|e| [D, E, N].iter().any(|k| !combo_has(num, *k) && schema.payload_bytes(schema.part(&e.v, *k)).is_some())) {
                        self.mon.count("undeclared_parts");
                    }
                }
            } else if let Some(f) = from {
                let env = p.env.map(|e| self.envs[e].clone());
                let schema = Schema::get::<SP>();
                let surplus = env.as_ref().is_some_and(|e| [D, E].iter().any(|k| schema.payload_bytes(schema.part(&e.v, *k)).is_some()));
                match env.as_ref().and_then(|e| e.pack.as_ref()) {
                    _ if surplus => {
                        // An echo consists of a normal broadcast only
                        self.mon.count("undeclared_parts");
                        ok = Some(false);
                        errs.push((f, ErrRec::Some));
                        self.nodes[i].unrec.insert(f);
                    }
                    None => {}
                    Some(pack) => {
                        self.mon.count("echo_packs_judged");
                        match self.judge_pack(i, &stage, f, pack) {
                            Ok(()) => ok = Some(true),
                            Err(e) => {
                                self.mon.count("bad_echo_packs");
                                ok = Some(false);
                                errs = e;
                            }
                        }
                    }
                }
            } else {
                // Cached echo packs - the senders are not known individually
                if node_good_batch(self, i, &stage, &cur) {
                    ok = Some(true);
                }
            }
        }
        self.nodes[i].adds.push(Done {
            from,
            ok,
            errs,
            cached: is_cached,
            f: Box::new(move |s, a| s.add_processed_message(a, done)),
        });
    }

    /// The protocol was handed a message.
    fn check_recv(&mut self, i: usize, cur: &RoundId, from: Id, parts: &Parts) {
        let me = self.nodes[i].id;
        let schema = Schema::get::<SP>();
        let Some(eidx) = self.nodes[i].accepted.get(&(cur.clone(), from)).copied() else {
            self.mon.bad("C01", format!("{me:?} in {cur:?} was handed a message from {from:?} it never accepted: {parts:?}"));
            return;
        };
        let env = &self.envs[eidx];
        for k in [D, E, N] {
            let part = schema.part(&env.v, k);
            let text = schema.payload_bytes(part);
            let got = parts[k].clone();
            let want = text.as_ref().and_then(|b| de::<SP, Part>(b).ok());
            if got.is_none() && text.is_some() {
                self.mon.bad("C01", format!("{me:?} in {cur:?}: processed a message from {from:?} with the undeclared part {k}"));
            }
            if got != want {
                self.mon.bad(
                    "C02",
                    format!("{me:?} in {cur:?}: kind {k} from {from:?} is {got:?}, the accepted message has {want:?}"),
                );
                if got.is_some() {
                    self.mon.bad(
                        "C01",
                        format!("{me:?} in {cur:?}: was handed {got:?} for kind {k} from {from:?}, which sent {want:?}"),
                    );
                }
            }
            if got.is_some() && !self.ledger.is_authentic::<SP>(from, k, part) {
                self.mon.bad("C01", format!("{me:?} in {cur:?}: was handed inauthentic {got:?} from {from:?}"));
            }
        }
        self.mon.count("receptions_checked");
    }

    fn add_one(&mut self, i: usize) {
        let k = self.rng.gen_range(0..self.nodes[i].adds.len());
        let d = self.nodes[i].adds.swap_remove(k);
        let node = &mut self.nodes[i];
        let (s, a) = node.st.as_mut().unwrap();
        let f = d.f;
        let res = guard(|| f(s, a));
        if let Err(f) = res {
            return self.fail(i, f, &format!("add_processed_message (from {:?})", d.from));
        }
        let node = &mut self.nodes[i];
        let stage = node.stages.last().unwrap().stage;
        let seen = node.stages.last_mut().unwrap();
        match (d.from, d.ok) {
            (Some(f), Some(true)) => {
                seen.inflight.remove(&f);
                seen.done.insert(f);
            }
            (Some(f), Some(false)) => {
                seen.inflight.remove(&f);
                seen.failed.insert(f);
            }
            (Some(f), None) => {
                seen.inflight.remove(&f);
                seen.fuzzy = true;
            }
            (None, _) => {}
        }
        if d.cached {
            let left = node.verified.iter().any(|p| p.cached) || node.adds.iter().any(|a| a.cached);
            if !left {
                // All the cached messages were applied
                let rest = std::mem::take(&mut node.cached_senders);
                let at = node.stages.len() - 1;
                let seen = node.stages.last_mut().unwrap();
                for f in rest {
                    seen.inflight.remove(&f);
                    if stage.echo {
                        if d.from.is_none() && d.ok == Some(true) {
                            seen.done.insert(f);
                        } else {
                            seen.fuzzy = true;
                        }
                    } else {
                        seen.failed.insert(f);
                        node.banned_at.entry(f).or_insert(at);
                        node.errs.entry(f).or_default().push(ErrRec::Some);
                    }
                }
            } else if stage.echo && d.ok != Some(true) && d.from.is_none() {
                node.stages.last_mut().unwrap().fuzzy = true;
            }
        }
        if stage.echo && d.ok.is_none() {
            // Anybody not honest could have been found at fault
            let corrupt: Vec<Id> = self.parties.difference(&self.honest).copied().chain(d.from).collect();
            self.nodes[i].maybe_banned.extend(corrupt);
        }
        if stage.echo && d.ok == Some(false) && !d.errs.is_empty() {
            let culprits = d.errs.iter().map(|x| x.0).collect();
            self.nodes[i].bad_packs.push((stage, culprits));
        }
        // Record the E part received
        if let (Some(f), Some(true), false) = (d.from, d.ok, stage.echo) {
            let rid = self.nodes[i].stages.last().unwrap().rid.clone();
            if let Some(e) = self.nodes[i].accepted.get(&(rid, f)) {
                let schema = Schema::get::<SP>();
                let part = schema.part(&self.envs[*e].v, E);
                if schema.payload_bytes(part).is_some() {
                    let c = schema.content(part);
                    self.nodes[i].got_echo.entry((stage.half, stage.ri)).or_default().insert(f, c);
                }
            }
        }
        if d.errs.len() == 1 {
            let (f, e) = d.errs[0].clone();
            // A party could have been found guilty by several echoers
            let known = self.nodes[i].banned_at.contains_key(&f);
            if !(known && stage.echo) {
                self.ban(i, f, e);
            }
        } else if d.errs.len() > 1 {
            // One of these will be reported
            self.nodes[i].stages.last_mut().unwrap().fuzzy = true;
            self.nodes[i].maybe_banned.extend(d.errs.iter().map(|x| x.0));
        }
    }

    fn verdict(&self, i: usize) -> Option<CanFinalize> {
        let node = &self.nodes[i];
        let seen = node.stages.last()?;
        if seen.fuzzy {
            return None;
        }
        let lacking: BTreeSet<Id> = seen.expects.difference(&seen.done).copied().collect();
        Some(if lacking.is_empty() {
            CanFinalize::Yes
        } else if lacking.iter().all(|x| {
            seen.failed.contains(x) || (node.banned_at.contains_key(x) && !seen.inflight.contains(x))
        }) {
            CanFinalize::Never
        } else {
            CanFinalize::NotYet
        })
    }

    fn check_verdict(&mut self, i: usize) -> Option<CanFinalize> {
        let node = &self.nodes[i];
        let (s, a) = node.st.as_ref()?;
        let real = match guard(|| Ok(s.can_finalize(a))) {
            Ok(x) => x,
            Err(f) => {
                self.fail(i, f, "can_finalize");
                return None;
            }
        };
        if node.honest {
            self.mon.count(&format!("verdict_{real:?}"));
            if let Some(want) = self.verdict(i) {
                self.mon.count("verdicts_checked");
                if want != real {
                    let node = &self.nodes[i];
                    let seen = node.stages.last().unwrap();
                    let (me, errs) = (node.id, &node.errs);
                    self.mon.bad(
                        "C10",
                        format!(
                            "{me:?} at {:?}: verdict {real:?} instead of {want:?}; expecting {:?}, done {:?}, failed {:?}, in flight {:?}, at fault {:?}",
                            seen.rid, seen.expects, seen.done, seen.failed, seen.inflight, errs.keys().collect::<Vec<_>>()
                        ),
                    );
                }
            }
        }
        Some(real)
    }

    fn finalize(&mut self, i: usize) {
        let node = &mut self.nodes[i];
        let (s, a) = node.st.take().unwrap();
        let rng = &mut node.rng;
        let res = guard(|| s.finalize_round(rng, a));
        match res {
            Ok(RoundOutcome::Finished(r)) => {
                let node = &mut self.nodes[i];
                node.stages.last_mut().unwrap().finalized = true;
                node.report = Some(r);
                node.ended = Some("finished");
                self.mon.count("sessions_finished");
            }
            Ok(RoundOutcome::AnotherRound { session, cached_messages }) => {
                self.nodes[i].stages.last_mut().unwrap().finalized = true;
                self.enter(i, *session, cached_messages)
            }
            Err(f) => self.fail(i, f, "finalize_round"),
        }
    }

    pub fn active(&self, i: usize) -> bool {
        self.nodes[i].st.is_some()
    }

    /// Runs until nothing more can happen.
    pub fn run(&mut self, adv: &mut dyn Adversary<W, SP>, max_steps: u64) {
        loop {
            self.steps += 1;
            if self.steps > max_steps {
                self.mon.count("step_limit_reached");
                break;
            }
            for e in adv.inject(self) {
                self.post(e);
            }
            if !self.step(adv) {
                break;
            }
        }
        for i in 0..self.nodes.len() {
            self.end(i, "terminate");
        }
        self.mon.add("steps", self.steps);
    }

    fn ready(&self) -> Vec<usize> {
        (0..self.bag.len()).filter(|i| self.bag[*i].not_before <= self.steps).collect()
    }

    fn step(&mut self, adv: &mut dyn Adversary<W, SP>) -> bool {
        // (weight, action)
        enum Act {
            Make(usize),
            Art(usize),
            Process(usize),
            Add(usize),
            Finalize(usize),
            Never(usize),
            Deliver,
        }
        let style = self.sched.style;
        let mut acts: Vec<(f64, Act)> = Vec::new();
        for i in 0..self.nodes.len() {
            if self.nodes[i].st.is_none() {
                continue;
            }
            let p = self.sched.terminate;
            if p > 0.0 && self.nodes[i].honest && self.rng.gen_bool(p) {
                self.end(i, "terminate");
                continue;
            }
            let verdict = self.check_verdict(i);
            let node = &self.nodes[i];
            if node.st.is_none() {
                continue;
            }
            let mut w = match style {
                2 => 10.0,
                3 => 0.1,
                _ => 1.0,
            };
            if self.starved == Some(node.id) {
                w *= 0.02;
            }
            if !node.to_make.is_empty() {
                acts.push((w, Act::Make(i)));
            }
            if !node.arts.is_empty() {
                acts.push((w, Act::Art(i)));
            }
            if !node.verified.is_empty() {
                acts.push((w, Act::Process(i)));
            }
            if !node.adds.is_empty() {
                acts.push((w, Act::Add(i)));
            }
            match verdict {
                Some(CanFinalize::Yes) if node.to_make.is_empty() && node.arts.is_empty() => {
                    acts.push((w, Act::Finalize(i)))
                }
                Some(CanFinalize::Never) => acts.push((w * (1.0 - self.sched.linger * 0.95), Act::Never(i))),
                _ => {}
            }
        }
        let mut ready = self.ready();
        if ready.is_empty() && acts.is_empty() && !self.bag.is_empty() {
            ready = (0..self.bag.len()).collect();
        }
        if !ready.is_empty() {
            acts.push((if style == 3 { 10.0 } else { 0.6 + 0.2 * ready.len() as f64 }, Act::Deliver));
        }
        if acts.is_empty() {
            return false;
        }
        let total: f64 = acts.iter().map(|a| a.0).sum();
        let mut x = self.rng.gen_range(0.0..total);
        let mut k = 0;
        while k + 1 < acts.len() && x >= acts[k].0 {
            x -= acts[k].0;
            k += 1;
        }
        let (code, n) = match &acts[k].1 {
            Act::Make(i) => (1, *i),
            Act::Art(i) => (2, *i),
            Act::Process(i) => (3, *i),
            Act::Add(i) => (4, *i),
            Act::Finalize(i) => (5, *i),
            Act::Never(i) => (6, *i),
            Act::Deliver => (7, 0),
        };
        self.trace = mix(self.trace, (code * 1000 + n) as u64);
        match acts[k].1 {
            Act::Make(i) => {
                let honest = self.nodes[i].honest;
                for env in self.make_one(i) {
                    if honest {
                        if self.sched.lose > 0.0 && self.rng.gen_bool(self.sched.lose) {
                            self.mon.count("lost_messages");
                            self.messages.push(env);
                            continue;
                        }
                        if self.sched.dup_honest > 0.0 && self.rng.gen_bool(self.sched.dup_honest) {
                            for n in &mut self.nodes {
                                if n.id == env.to {
                                    n.tainted.insert(env.from);
                                }
                            }
                            let mut e = env.clone();
                            e.label = "duplicated".into();
                            self.post(e);
                        }
                        self.post(env);
                    } else {
                        let (f, t) = (env.from, env.to);
                        if self.audience.get(&(f, t)).is_some_and(|p| *p != env.persona) {
                            // Another persona talks to this one
                            self.messages.push(env);
                            continue;
                        }
                        for e in adv.outgoing(env, self) {
                            self.post(e);
                        }
                    }
                }
            }
            Act::Art(i) => {
                let k = self.rng.gen_range(0..self.nodes[i].arts.len());
                let f = self.nodes[i].arts.swap_remove(k);
                let (s, a) = self.nodes[i].st.as_mut().unwrap();
                if let Err(f) = guard(|| f(s, a)) {
                    self.fail(i, f, "add_artifact");
                }
            }
            Act::Process(i) => self.process_one(i),
            Act::Add(i) => self.add_one(i),
            Act::Finalize(i) => self.finalize(i),
            Act::Never(i) => self.end(i, "errors"),
            Act::Deliver => {
                let mut pick = match style {
                    1 => *ready.last().unwrap(),
                    5 => ready[0],
                    _ => ready[self.rng.gen_range(0..ready.len())],
                };
                if style == 1 && self.rng.gen_bool(0.2) {
                    pick = ready[self.rng.gen_range(0..ready.len())];
                }
                if let Some(s) = self.starved {
                    if self.bag[pick].to == s && self.rng.gen_bool(0.9) {
                        pick = ready[self.rng.gen_range(0..ready.len())];
                    }
                }
                let env = self.bag.remove(pick);
                self.trace = mix(self.trace, (env.from.0 * 100 + env.to.0) as u64);
                let targets: Vec<usize> = (0..self.nodes.len()).filter(|i| self.nodes[*i].id == env.to).collect();
                for i in targets {
                    if self.nodes[i].st.is_some() {
                        self.deliver(i, env.clone());
                    }
                }
            }
        }
        true
    }
}

/// Whether all the cached echo packs of the stage are known to be good
fn node_good_batch<W: World, SP: Params>(sim: &Sim<W, SP>, i: usize, stage: &Stage, cur: &RoundId) -> bool {
    let node = &sim.nodes[i];
    node.cached_senders.iter().all(|f| {
        node.accepted
            .get(&(cur.clone(), *f))
            .and_then(|e| sim.envs[*e].pack.as_ref())
            .is_some_and(|p| sim.judge_pack(i, stage, *f, p).is_ok())
    })
}

pub fn outcome_name<W: World, SP: Params>(r: &Report<W, SP>) -> &'static str {
    match r.outcome {
        SessionOutcome::Result(_) => "result",
        SessionOutcome::NotEnoughMessages => "not enough messages",
        SessionOutcome::Terminated => "terminated",
    }
}

impl<W: World, SP: Params> Node<W, SP> {
    pub fn ended(&self) -> Option<&'static str> {
        self.ended
    }
    pub fn accepted_env(&self, rid: &RoundId, from: Id) -> Option<usize> {
        self.accepted.get(&(rid.clone(), from)).copied()
    }
    pub fn new_log(&mut self) -> Vec<Ev> {
        let l = self.run.take_log();
        let p = self.log_pos;
        self.log_pos = l.len();
        l[p..].to_vec()
    }
}
