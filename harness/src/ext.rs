//! The development toolkit: round extensions, the evidence-checking helpers, the synchronous runner.

use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::atomic::Ordering;
use std::sync::Arc;

use manul::combinators::chain::{ChainedJoin, ChainedMarker, ChainedSharedData, ChainedSplit};
use manul::dev::{
    check_evidence, check_evidence_with_extension, check_evidence_with_extensions, extend_one, run_sync,
    ExecutionResult, ExtendableEntryPoint, RoundExtension,
};
use manul::protocol::{EntryPoint, FinalizeOutcome, LocalError, Protocol, Round};
use manul::session::{Evidence, SessionOutcome, SessionReport};
use rand::seq::SliceRandom;
use rand::Rng;
use crate::light::ChaCha8Rng;
use rand_core::{CryptoRngCore, SeedableRng};

use crate::gen::*;
use crate::oracle::{self, guard_any};
use crate::scen::{self, Outcome, Profile};
use crate::sim::*;
use crate::sp::*;
use crate::spec::*;

// The extensions

fn act_for(core: &Core, want: impl Fn(&Act) -> bool) -> Option<Act> {
    let ty = core.num() % 8;
    core.run.acts.iter().find(|(id, h, t, a)| *id == core.me && *h == core.half && *t == ty && want(a)).map(|x| x.3)
}

fn making<T>(core: &Core, kind: usize, f: impl FnOnce() -> Result<T, LocalError>) -> Result<T, LocalError> {
    let act = act_for(core, |a| matches!(a, Act::Fault(k, _) | Act::MakeFails(k) if *k == kind));
    match act {
        Some(Act::Fault(_, v)) => {
            core.run.forced.store(v, Ordering::Relaxed);
            let res = f();
            core.run.forced.store(0, Ordering::Relaxed);
            res
        }
        Some(_) => {
            let method = [Method::MakeDirect, Method::MakeEcho, Method::MakeNormal][kind];
            core.run.ev(Ev::Injected { me: core.me, half: core.half, num: core.num(), method });
            Err(LocalError::new(format!("injected local failure in {method:?}")))
        }
        None => f(),
    }
}

macro_rules! method {
    (normal) => {
        fn make_normal_broadcast(
            &self,
            rng: &mut impl CryptoRngCore,
            round: &R,
        ) -> Result<<R as Round<Id>>::NormalBroadcast, LocalError> {
            making(round.core(), N, || round.make_normal_broadcast(rng))
        }
    };
    (echo) => {
        fn make_echo_broadcast(
            &self,
            rng: &mut impl CryptoRngCore,
            round: &R,
        ) -> Result<<R as Round<Id>>::EchoBroadcast, LocalError> {
            making(round.core(), E, || round.make_echo_broadcast(rng))
        }
    };
    (direct) => {
        fn make_direct_message(
            &self,
            rng: &mut impl CryptoRngCore,
            round: &R,
            destination: &Id,
        ) -> Result<(<R as Round<Id>>::DirectMessage, <R as Round<Id>>::Artifact), LocalError> {
            making(round.core(), D, || round.make_direct_message(rng, destination))
        }
    };
    (finalize) => {
        fn finalize(
            &self,
            rng: &mut impl CryptoRngCore,
            round: R,
            mut payloads: BTreeMap<Id, <R as Round<Id>>::Payload>,
            artifacts: BTreeMap<Id, <R as Round<Id>>::Artifact>,
        ) -> Result<FinalizeOutcome<Id, <R as Round<Id>>::Protocol>, LocalError> {
            match act_for(round.core(), |a| matches!(a, Act::FinalizeFails | Act::Drop(_))) {
                Some(Act::Drop(id)) => {
                    payloads.remove(&id);
                }
                Some(_) => {
                    let core = round.core();
                    let method = Method::Finalize;
                    core.run.ev(Ev::Injected { me: core.me, half: core.half, num: core.num(), method });
                    return Err(LocalError::new("injected local failure in Finalize"));
                }
                None => {}
            }
            round.finalize(rng, payloads, artifacts)
        }
    };
}

macro_rules! extension {
    ($name:ident, $($m:ident),*) => {
        struct $name<R>(PhantomData<fn() -> R>);
        impl<R> Clone for $name<R> {
            fn clone(&self) -> Self {
                Self(PhantomData)
            }
        }
        impl<R> Debug for $name<R> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, stringify!($name))
            }
        }
        impl<R: CoreRound> RoundExtension<Id> for $name<R> {
            type Round = R;
            $(method!($m);)*
        }
    };
}

extension!(ExtNone,);
extension!(ExtNormal, normal);
extension!(ExtEcho, echo);
extension!(ExtDirect, direct);
extension!(ExtFinalize, finalize);
extension!(ExtAll, normal, echo, direct, finalize);

macro_rules! with_type {
    ($ty:expr, $h:expr, $r:ident, $body:expr) => {
        match $ty {
            0 => {
                type $r = R0<$h>;
                $body
            }
            1 => {
                type $r = R1<$h>;
                $body
            }
            2 => {
                type $r = R2<$h>;
                $body
            }
            3 => {
                type $r = R3<$h>;
                $body
            }
            4 => {
                type $r = R4<$h>;
                $body
            }
            5 => {
                type $r = R5<$h>;
                $body
            }
            6 => {
                type $r = R6<$h>;
                $body
            }
            _ => {
                type $r = R7<$h>;
                $body
            }
        }
    };
}

/// Which methods of the extended rounds of the given type are overridden by the acts: 0 - no,
/// 1-3 - the message of the kind (N, E, D), 4 - finalization, 5 - several.
fn variant(acts: &[Act]) -> u8 {
    let set: BTreeSet<u8> = acts
        .iter()
        .map(|a| match a {
            Act::Fault(k, _) | Act::MakeFails(k) => [3, 2, 1][*k],
            Act::FinalizeFails | Act::Drop(_) => 4,
        })
        .collect();
    match set.len() {
        0 => 0,
        1 => *set.first().unwrap(),
        _ => 5,
    }
}

macro_rules! register {
    ($name:ident, $h:expr) => {
        fn $name<EP: EntryPoint<Id, Protocol = Spec<$h>>>(
            mut ep: ExtendableEntryPoint<Id, EP>,
            run: &Arc<Run>,
            act: Option<Id>,
            order: bool,
        ) -> ExtendableEntryPoint<Id, EP> {
            let mut types: Vec<u8> = (0..8).collect();
            if order {
                types.reverse();
            }
            for ty in types {
                let acts: Vec<Act> =
                    run.acts.iter().filter(|x| Some(x.0) == act && x.1 == $h && x.2 == ty).map(|x| x.3).collect();
                if acts.is_empty() && run.ext_types & (1 << ty) == 0 {
                    continue;
                }
                let v = if acts.is_empty() && order { 5 } else { variant(&acts) };
                with_type!(ty, $h, R, match v {
                    0 => ep.extend(ExtNone::<R>(PhantomData)),
                    1 => ep.extend(ExtNormal::<R>(PhantomData)),
                    2 => ep.extend(ExtEcho::<R>(PhantomData)),
                    3 => ep.extend(ExtDirect::<R>(PhantomData)),
                    4 => ep.extend(ExtFinalize::<R>(PhantomData)),
                    _ => ep.extend(ExtAll::<R>(PhantomData)),
                });
            }
            ep
        }
    };
}
register!(register0, 0);
register!(register1, 1);

// The protocols with extensions

thread_local! {
    /// The types to be extended in the simulated executions (with the acts taken from the run, if they are not set)
    static TYPES: Cell<(u8, bool)> = const { Cell::new((0, false)) };
}

/// A protocol executed with extended entry points; the corresponding plain one has the same protocol type.
pub trait ExtWorld: World {
    /// `act` - the party the acts of which are performed
    fn ext(run: &Arc<Run>, act: Option<Id>, order: bool) -> Self::EP;
}

pub struct ExtPlain;
impl World for ExtPlain {
    type P = Spec<0>;
    type EP = ExtendableEntryPoint<Id, SpecEntry<0, 8>>;
    const HALVES: &'static [u8] = &[0];
    const ENTRY: &'static [u8] = &[0];
    const NAME: &'static str = "extended";
    fn entry(run: &Arc<Run>) -> Self::EP {
        Self::ext(run, None, TYPES.with(|x| x.get().1))
    }
    fn shared(run: &Arc<Run>) -> Shared {
        Shared(run.clone())
    }
}
impl ExtWorld for ExtPlain {
    fn ext(run: &Arc<Run>, act: Option<Id>, order: bool) -> Self::EP {
        register0(ExtendableEntryPoint::new(Plain::entry(run)), run, act, order)
    }
}

#[derive(Debug)]
pub struct ChXEntry<const E1: u8, const E2: u8> {
    run: Arc<Run>,
    act: Option<Id>,
    order: bool,
}
impl<const E1: u8, const E2: u8> ChainedMarker for ChXEntry<E1, E2> {}
impl<const E1: u8, const E2: u8> ChainedSplit<Id> for ChXEntry<E1, E2> {
    type Protocol = Ch<E1, E2>;
    type EntryPoint = ExtendableEntryPoint<Id, SpecEntry<0, E1>>;
    fn make_entry_point1(self) -> (Self::EntryPoint, impl ChainedJoin<Id, Protocol = Self::Protocol>) {
        let ep = ExtendableEntryPoint::new(SpecEntry { run: self.run.clone(), input: None });
        (register0(ep, &self.run, self.act, self.order), ChXJoin::<E1, E2>(self))
    }
}
#[derive(Debug)]
pub struct ChXJoin<const E1: u8, const E2: u8>(ChXEntry<E1, E2>);
impl<const E1: u8, const E2: u8> ChainedMarker for ChXJoin<E1, E2> {}
impl<const E1: u8, const E2: u8> ChainedJoin<Id> for ChXJoin<E1, E2> {
    type Protocol = Ch<E1, E2>;
    type EntryPoint = ExtendableEntryPoint<Id, SpecEntry<1, E2>>;
    fn make_entry_point2(self, result: SpecResult) -> Self::EntryPoint {
        let ep = ExtendableEntryPoint::new(SpecEntry { run: self.0.run.clone(), input: Some(Box::new(result)) });
        register1(ep, &self.0.run, self.0.act, self.0.order)
    }
}
pub struct ExtChain<const E1: u8, const E2: u8>;
impl<const E1: u8, const E2: u8> World for ExtChain<E1, E2> {
    type P = Ch<E1, E2>;
    type EP = ChXEntry<E1, E2>;
    const HALVES: &'static [u8] = &[0, 1];
    const ENTRY: &'static [u8] = &[E1, E2];
    const NAME: &'static str = "extended-chain";
    fn entry(run: &Arc<Run>) -> Self::EP {
        Self::ext(run, None, TYPES.with(|x| x.get().1))
    }
    fn shared(run: &Arc<Run>) -> ChainedSharedData<Id, Self::P> {
        ChainW::<E1, E2>::shared(run)
    }
}
impl<const E1: u8, const E2: u8> ExtWorld for ExtChain<E1, E2> {
    fn ext(run: &Arc<Run>, act: Option<Id>, order: bool) -> Self::EP {
        ChXEntry { run: run.clone(), act, order }
    }
}

// Comparisons

fn same_event(a: &Ev, b: &Ev) -> bool {
    match (a, b) {
        (Ev::Made { part: x, .. }, Ev::Made { part: y, .. }) if x != y => false,
        (Ev::Recv { parts: x, .. }, Ev::Recv { parts: y, .. }) if x != y => false,
        // The identifiers of the executions differ
        (Ev::Shown(x), Ev::Shown(y)) => {
            (&x.this, &x.prev, &x.echos, &x.body, &x.errors, x.from, x.round)
                == (&y.this, &y.prev, &y.echos, &y.body, &y.errors, y.from, y.round)
        }
        _ => format!("{a:?}") == format!("{b:?}"),
    }
}

fn diff_logs(a: &[Ev], b: &[Ev]) -> Option<String> {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if !same_event(x, y) {
            return Some(format!("event {i}: {x:?} instead of {y:?}"));
        }
    }
    (a.len() != b.len()).then(|| format!("{} events instead of {}: {:?} {:?}", a.len(), b.len(), a.get(b.len()), b.get(a.len())))
}

fn evidence_text<P, SP: Params>(e: &Evidence<P, SP>) -> String
where
    P: Protocol<Id> + serde::Serialize,
{
    serde_json::to_string(e).unwrap_or_default()
}

fn diff_reports<P, SP: Params>(a: &SessionReport<P, SP>, b: &SessionReport<P, SP>) -> Option<String>
where
    P: Protocol<Id, Result = SpecResult> + serde::Serialize,
{
    let outcome = match (&a.outcome, &b.outcome) {
        (SessionOutcome::Result(x), SessionOutcome::Result(y)) => x == y,
        (x, y) => x.brief() == y.brief(),
    };
    let provable = |r: &SessionReport<P, SP>| -> Vec<(Id, String)> {
        r.provable_errors.iter().map(|(id, e)| (*id, evidence_text(e))).collect()
    };
    let rest = |r: &SessionReport<P, SP>| format!("{:?} {:?}", r.unprovable_errors, r.missing_messages);
    if outcome && provable(a) == provable(b) && rest(a) == rest(b) {
        None
    } else {
        Some(format!("{} instead of {}", a.brief(), b.brief()))
    }
}

// Simulated executions, with and without extensions

fn simulated<W: World, X: ExtWorld<P = W::P>, SP: Params>(seed: u64, mon: &mut Mon) -> (u64, u64) {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let profile = *[
        Profile::Honest,
        Profile::Lossy,
        Profile::Content,
        Profile::Content,
        Profile::Equivocate,
        Profile::Hostile,
        Profile::Packs,
        Profile::Local,
    ]
    .choose(&mut rng)
    .unwrap();
    let profile = if profile == Profile::Packs && !SP::HUMAN { Profile::Content } else { profile };
    let types: u8 = *[0, 0xff, rng.gen(), rng.gen()].choose(&mut rng).unwrap();
    let order = rng.gen();
    let s: u64 = rng.gen();
    let plain = scen::simulate::<W, SP>(profile, s, false);
    TYPES.with(|x| x.set((types, order)));
    scen::EXT_TYPES.with(|x| x.set(types));
    let ext = guard_any(|| scen::simulate::<X, SP>(profile, s, false));
    scen::EXT_TYPES.with(|x| x.set(0));
    mon.count("simulations_compared");
    mon.count(&format!("simulations_compared_{}", profile.name()));
    let what = format!("{} {} {profile:?} types {types:08b}", X::NAME, SP::NAME);
    let mut ext = match ext {
        Ok(x) => x,
        Err(e) => {
            mon.bad("C13", format!("{what}: {e}"));
            return (plain.sim.trace, plain.shape);
        }
    };
    let a = &ext.sim;
    let b = &plain.sim;
    let msgs = a.messages.iter().zip(&b.messages).position(|(x, y)| x.from != y.from || x.to != y.to || x.v != y.v);
    mon.add("messages_compared", b.messages.len() as u64);
    if let Some(i) = msgs {
        let (x, y) = (&a.messages[i], &b.messages[i]);
        mon.bad("C13", format!("{what}: message {i} is {:?}>{:?} {} instead of {:?}>{:?} {}", x.from, x.to, x.v, y.from, y.to, y.v));
    } else if a.messages.len() != b.messages.len() {
        mon.bad("C13", format!("{what}: {} messages created instead of {}", a.messages.len(), b.messages.len()));
    }
    if a.trace != b.trace {
        mon.bad("C13", format!("{what}: the execution differs from the plain one"));
    }
    for (x, y) in a.nodes.iter().zip(&b.nodes) {
        if let Some(d) = diff_logs(&x.run.take_log(), &y.run.take_log()) {
            mon.bad("C13", format!("{what}: {:?}: {d}", x.id));
        }
        match (&x.report, &y.report) {
            (Some(p), Some(q)) => {
                mon.count("reports_compared");
                if let Some(d) = diff_reports(p, q) {
                    mon.bad("C13", format!("{what}: the report of {:?}: {d}", x.id));
                }
                mon.add("evidence_compared", q.provable_errors.len() as u64);
                for (id, e) in &p.provable_errors {
                    let v = guard_any(|| e.verify(&X::shared(&x.run)));
                    let w = q.provable_errors.get(id).map(|e| guard_any(|| e.verify(&W::shared(&y.run))));
                    let t = |v: &Result<Result<(), _>, String>| match v {
                        Ok(Ok(())) => "verified".to_string(),
                        Ok(Err(e)) => format!("{e:?}"),
                        Err(p) => format!("panic: {p}"),
                    };
                    if w.as_ref().map(t) != Some(t(&v)) {
                        mon.bad("C13", format!("{what}: evidence against {id:?}: {} instead of {:?}", t(&v), w.as_ref().map(t)));
                    }
                }
            }
            (None, None) => {}
            _ => mon.bad("C13", format!("{what}: {:?} has a report in only one of the executions", x.id)),
        }
        if x.failure != y.failure {
            mon.bad("C13", format!("{what}: {:?} failed with {:?} instead of {:?}", x.id, x.failure, y.failure));
        }
    }
    // The extended execution has all the other properties if the plain one does
    let perfect = ext.perfect;
    oracle::judge(&mut ext.sim, &oracle::Expect { perfect });
    for (p, t) in std::mem::take(&mut ext.sim.mon.viol) {
        mon.bad("C13", format!("{what}: {p}: {t}"));
    }
    (mix(ext.sim.trace, ext.shape), ext.shape)
}

// The synchronous runner

type Res<W, SP> = Result<ExecutionResult<<W as World>::P, SP>, LocalError>;

fn copy_run(r: &Run) -> Run {
    let mut x = Run::new(r.scripts.clone());
    x.faults = r.faults.clone();
    x.local_faults = r.local_faults.clone();
    x.drops = r.drops.clone();
    x.acts = r.acts.clone();
    x.ext_types = r.ext_types;
    x
}

/// The same run where the acts of extensions are performed by the protocol itself.
fn without_acts(r: &Run) -> Run {
    let mut x = copy_run(r);
    for (me, half, ty, act) in std::mem::take(&mut x.acts).into_iter().rev() {
        for round in r.scripts[half as usize].rounds.iter().filter(|y| y.num % 8 == ty) {
            let num = round.num;
            match act {
                Act::Fault(k, v) => x.faults.entry(me).or_default().insert(0, (half, num, Fault::Content(k, v))),
                Act::MakeFails(k) => {
                    let m = [Method::MakeDirect, Method::MakeEcho, Method::MakeNormal][k];
                    x.local_faults.insert((me, half, num, m));
                }
                Act::FinalizeFails => {
                    x.local_faults.insert((me, half, num, Method::Finalize));
                }
                Act::Drop(id) => {
                    x.drops.insert((me, half, num, id));
                }
            }
        }
    }
    x
}

fn pick_acts<W: World>(rng: &mut ChaCha8Rng, scripts: &[Script], me: Id, provable: bool) -> Vec<(Id, u8, u8, Act)> {
    let mut places = Vec::new();
    for h in W::HALVES {
        let s = &scripts[*h as usize];
        for ri in s.path(me) {
            places.push((*h, s.rounds[ri].num % 8, ri));
        }
    }
    let mut res: Vec<(Id, u8, u8, Act)> = Vec::new();
    let n = if provable { 1 } else { rng.gen_range(1..=3) };
    for _ in 0..20 {
        if res.len() == n {
            break;
        }
        let (h, ty, ri) = *places.choose(rng).unwrap();
        let kinds: Vec<usize> = [D, E, N].into_iter().filter(|k| combo_has(ty, *k)).collect();
        let act = if provable {
            match kinds.choose(rng) {
                Some(k) => Act::Fault(*k, rng.gen_range(2..=3)),
                None => continue,
            }
        } else {
            match (rng.gen_range(0..12), kinds.choose(rng)) {
                (0, Some(k)) => Act::MakeFails(*k),
                (1, _) => Act::FinalizeFails,
                (2..=3, _) => {
                    let from = &scripts[h as usize].rounds[ri].per[&me].expects;
                    match from.iter().copied().collect::<Vec<_>>().choose(rng) {
                        Some(f) => Act::Drop(*f),
                        None => continue,
                    }
                }
                (_, Some(k)) => Act::Fault(*k, rng.gen_range(1..=3)),
                _ => continue,
            }
        };
        let clash = |a: &Act| match (a, &act) {
            (Act::Fault(k, _) | Act::MakeFails(k), Act::Fault(l, _) | Act::MakeFails(l)) => k == l,
            (Act::FinalizeFails | Act::Drop(_), Act::FinalizeFails | Act::Drop(_)) => true,
            _ => false,
        };
        if !res.iter().any(|x| x.1 == h && x.2 == ty && clash(&x.3)) {
            res.push((me, h, ty, act));
        }
    }
    res
}

/// Whether the delivery was in order for every sender.
fn check_order(log: &[Ev], mon: &mut Mon) {
    // (half, number) of the round -> when the party entered it
    let mut entered: BTreeMap<(Id, u8, u8), usize> = BTreeMap::new();
    let mut last: BTreeMap<Id, usize> = BTreeMap::new();
    let mut made: BTreeMap<Id, Vec<(Id, u8, u8, usize)>> = BTreeMap::new();
    let mut recv: BTreeMap<(Id, Id, u8, u8), usize> = BTreeMap::new();
    for (i, ev) in log.iter().enumerate() {
        match ev {
            Ev::Entry { me, .. } => {
                last.entry(*me).or_insert(i);
            }
            Ev::Fin { me, .. } => {
                last.insert(*me, i);
            }
            Ev::Made { me, half, num, kind, to, .. } => {
                entered.entry((*me, *half, *num)).or_insert(*last.get(me).unwrap_or(&i));
                if *kind == D {
                    made.entry(*me).or_default().push((to.unwrap(), *half, *num, i));
                }
            }
            Ev::Recv { me, half, num, from, .. } => {
                entered.entry((*me, *half, *num)).or_insert(*last.get(me).unwrap_or(&i));
                recv.entry((*from, *me, *half, *num)).or_insert(i);
            }
            _ => {}
        }
    }
    for (from, list) in &made {
        for (i, (x, h1, n1, at)) in list.iter().enumerate() {
            // Would be processed at once
            if !entered.get(&(*x, *h1, *n1)).is_some_and(|e| e < at) {
                continue;
            }
            let Some(r1) = recv.get(&(*from, *x, *h1, *n1)) else { continue };
            for (y, h2, n2, _) in &list[i + 1..] {
                if let Some(r2) = recv.get(&(*from, *y, *h2, *n2)) {
                    mon.count("delivery_pairs_checked");
                    if r2 < r1 {
                        mon.bad("C13", format!("the message of {from:?} to {y:?} ({h2}/{n2}) was delivered before the one to {x:?} ({h1}/{n1}) sent earlier"));
                    }
                }
            }
        }
    }
}

/// Whether all the messages sent were delivered.
fn check_missing<W: World, SP: Params>(scripts: &[Script], log: &[Ev], res: &ExecutionResult<W::P, SP>, mon: &mut Mon) {
    let rids = round_ids::<W, SP>(scripts);
    let mut fin: BTreeSet<(Id, u8, u8)> = BTreeSet::new();
    let mut made: BTreeSet<(Id, u8, u8)> = BTreeSet::new();
    for ev in log {
        match ev {
            Ev::Fin { me, half, num, .. } => {
                fin.insert((*me, *half, *num));
            }
            Ev::Made { me, half, num, .. } => {
                made.insert((*me, *half, *num));
            }
            _ => {}
        }
    }
    for (x, r) in &res.reports {
        if !matches!(r.outcome, SessionOutcome::Terminated) {
            continue;
        }
        for (rid, ids) in &r.missing_messages {
            for id in ids {
                mon.count("missing_checked");
                let sent = match rids.get(rid) {
                    None => false,
                    Some(s) => {
                        let num = scripts[s.half as usize].rounds[s.ri].num;
                        fin.contains(&(*id, s.half, num)) || !s.echo && made.contains(&(*id, s.half, num))
                    }
                };
                if sent {
                    mon.bad("C13", format!("the message of {id:?} to {x:?} for {rid:?} was sent, but never delivered"));
                }
            }
        }
    }
}

/// The verdict the helper is documented to give.
fn verdict<W: World, SP: Params>(
    target: Id,
    reports: &BTreeMap<Id, SessionReport<W::P, SP>>,
    shared: &<W::P as Protocol<Id>>::SharedData,
    description: &str,
) -> Result<(), &'static str> {
    if !reports.contains_key(&target) {
        return Err("no target");
    }
    for (id, r) in reports {
        if *id == target {
            continue;
        }
        if r.provable_errors.is_empty() {
            return Err("no errors");
        }
        if r.provable_errors.len() > 1 {
            return Err("several errors");
        }
        let Some(e) = r.provable_errors.get(&target) else { return Err("wrong party") };
        if !e.description().contains(description) {
            return Err("wrong description");
        }
        if e.verify(shared).is_err() {
            return Err("does not verify");
        }
    }
    Ok(())
}

fn judge_helper(what: &str, got: Result<Result<(), LocalError>, String>, want: Result<(), &'static str>, mon: &mut Mon) {
    mon.count("helper_verdicts_checked");
    mon.count(&format!("helper verdict: {}", want.err().unwrap_or("accepted")));
    match (&got, &want) {
        (Ok(Ok(())), Ok(())) | (Ok(Err(_)), Err(_)) => {}
        _ => mon.bad("C13", format!("{what}: got {got:?} instead of {want:?}")),
    }
}

fn clone_evidence<P, SP: Params>(e: &Evidence<P, SP>) -> Evidence<P, SP>
where
    P: Protocol<Id> + serde::Serialize + for<'de> serde::Deserialize<'de>,
{
    serde_json::from_str(&serde_json::to_string(e).unwrap()).unwrap()
}

/// Hands an execution to the helper, after changing the reports in some way.
fn try_helper<W: World, SP: Params>(
    rng: &mut ChaCha8Rng,
    mut res: ExecutionResult<W::P, SP>,
    run: &Arc<Run>,
    target: Id,
    mon: &mut Mon,
) {
    let ids: Vec<Id> = res.reports.keys().copied().collect();
    let others: Vec<Id> = ids.iter().copied().filter(|x| *x != target).collect();
    let mut description = others
        .iter()
        .flat_map(|x| res.reports[x].provable_errors.get(&target))
        .map(|e| e.description().to_string())
        .next()
        .unwrap_or("spec error".into());
    // (the party, the evidence)
    let pool: Vec<(Id, String)> = res
        .reports
        .values()
        .flat_map(|r| r.provable_errors.iter().map(|(id, e)| (*id, serde_json::to_string(e).unwrap())))
        .collect();
    let mut target_ = target;
    let victim = others.choose(rng).copied();
    let mut how = "none";
    let as_is = verdict::<W, SP>(target, &res.reports, &W::shared(run), &description);
    let change = if as_is.is_ok() && !others.is_empty() && rng.gen_bool(0.5) {
        // Single changes which have to turn the verdict
        *[0, 1, 1, 1, 2, 3, 8].choose(rng).unwrap()
    } else {
        rng.gen_range(0..14)
    };
    match (change, victim) {
        (0, Some(v)) => {
            how = "errors removed";
            res.reports.get_mut(&v).unwrap().provable_errors.clear();
        }
        (1, Some(v)) => {
            how = "another error added";
            let other = *ids.choose(rng).unwrap();
            if let Some(e) = res.reports[&v].provable_errors.values().next().map(clone_evidence) {
                res.reports.get_mut(&v).unwrap().provable_errors.entry(other).or_insert(e);
            }
        }
        (2, Some(v)) if ids.len() > 2 => {
            how = "error moved to another party";
            let other = others.iter().copied().find(|x| *x != v).unwrap();
            let r = res.reports.get_mut(&v).unwrap();
            if let Some(e) = r.provable_errors.remove(&target) {
                r.provable_errors.insert(other, e);
            }
        }
        (3, Some(v)) => {
            how = "evidence changed";
            let r = res.reports.get_mut(&v).unwrap();
            if let Some(e) = r.provable_errors.remove(&target) {
                let mut doc = serde_json::to_value(&e).unwrap();
                let other = ids.iter().find(|x| **x != target).unwrap();
                if let Some(x) = doc.get_mut("guilty_party") {
                    *x = serde_json::to_value(other).unwrap();
                }
                r.provable_errors.insert(target, serde_json::from_value(doc).unwrap_or(e));
            }
        }
        (4, Some(v)) => {
            how = "evidence replaced";
            let mine: Vec<&String> = pool.iter().filter(|x| x.0 == target).map(|x| &x.1).collect();
            if let Some(t) = mine.choose(rng) {
                res.reports.get_mut(&v).unwrap().provable_errors.insert(target, serde_json::from_str(t).unwrap());
            }
        }
        (5, _) => {
            how = "description changed";
            let mut c: Vec<char> = description.chars().collect();
            if let Some(x) = c.last_mut() {
                *x = '~';
            }
            description = c.into_iter().collect();
        }
        (6, _) => {
            how = "part of the description";
            let c: Vec<char> = description.chars().collect();
            let a = rng.gen_range(0..=c.len());
            let b = rng.gen_range(a..=c.len());
            description = c[a..b].iter().collect();
        }
        (7, _) => {
            how = "longer description";
            description.push('x');
        }
        (8, _) => {
            how = "other shared data";
            run.reject.store(true, Ordering::Relaxed);
        }
        (9, _) => {
            how = "another target";
            let ok: Vec<Id> = ids.iter().copied().filter(|x| res.reports[x].provable_errors.is_empty()).collect();
            if let Some(x) = ok.choose(rng) {
                target_ = *x;
            }
        }
        (10, _) => {
            how = "unknown target";
            target_ = Id(1000);
        }
        (11, Some(v)) => {
            how = "the report is absent";
            res.reports.remove(&v);
        }
        (12, _) => {
            how = "only the target";
            res.reports.retain(|x, _| *x == target);
        }
        _ => {}
    }
    // The helper demands it
    if res.reports.get(&target_).is_some_and(|r| !r.provable_errors.is_empty()) {
        return;
    }
    let shared = W::shared(run);
    let want = verdict::<W, SP>(target_, &res.reports, &shared, &description);
    let got = guard_any(|| check_evidence::<W::P, SP>(&target_, res, &shared, &description));
    run.reject.store(false, Ordering::Relaxed);
    judge_helper(&format!("check_evidence ({how})"), got, want, mon);
}

fn run_with<W: World, EP: EntryPoint<Id, Protocol = W::P>, SP: Params>(
    seed: u64,
    order: &[Id],
    ep: impl Fn(Id) -> EP,
) -> Result<Res<W, SP>, String> {
    guard_any(|| {
        let mut rng = ChaCha8Rng::seed_from_u64(seed);
        let eps: Vec<(Signer, EP)> = order.iter().map(|x| (Signer::new(*x), ep(*x))).collect();
        run_sync::<EP, SP>(&mut rng, eps)
    })
}

fn synchronous<W: World, X: ExtWorld<P = W::P>, SP: Params>(seed: u64, mon: &mut Mon, debug: bool) -> (u64, u64) {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let n = *[1usize, 2, 2, 3, 3, 4, 4, 5, 7].choose(&mut rng).unwrap();
    let ps = parties(n);
    let o = GenOpts {
        max_rounds: *[1usize, 2, 3, 3, 4, 5].choose(&mut rng).unwrap(),
        topology: *[0, 0, 1, 1, 2].choose(&mut rng).unwrap(),
        branching: rng.gen_bool(0.5),
        refs: rng.gen_bool(0.8),
        force_echo: rng.gen_bool(0.4),
        blob: 0,
    };
    let scripts = gen_world::<W>(&mut rng, &ps, &o);
    let shape = crate::check::hash64(format!("{scripts:?}"));
    let mut order: Vec<Id> = ps.iter().copied().collect();
    order.shuffle(&mut rng);
    let modified = *order.last().unwrap();
    let mode = rng.gen_range(0..10);
    let mut base = Run::new(scripts.clone());
    base.ext_types = *[0, 0xff, rng.gen(), rng.gen()].choose(&mut rng).unwrap();
    // 0-2 - no misbehavior, 3-5 - by extensions, provable, 6-8 - by extensions, any, 9 - and by the protocol itself
    if mode >= 3 {
        base.acts = pick_acts::<W>(&mut rng, &scripts, modified, mode < 6);
    }
    if mode >= 8 {
        let other = *order.choose(&mut rng).unwrap();
        let f = scen::pick_faults(&mut rng, &scripts, W::HALVES, other);
        base.faults.insert(other, f);
    }
    let quiet = base.acts.is_empty() && base.faults.is_empty();
    let s: u64 = rng.gen();
    let flip: bool = rng.gen();
    let what = format!("run_sync {} {} n={n} {:?}", X::NAME, SP::NAME, base.acts);
    if debug {
        println!("{what} {:?} order {order:?} types {:08b}", base.faults, base.ext_types);
    }

    // The reference: the plain protocol doing what the extensions do
    let plain_run = Arc::new(without_acts(&base));
    let plain = match run_with::<W, _, SP>(s, &order, |_| W::entry(&plain_run)) {
        Ok(x) => x,
        Err(e) => {
            mon.bad("C13", format!("{what}: the plain protocol: panic: {e}"));
            return (seed, shape);
        }
    };
    let plain_log = plain_run.take_log();
    mon.count("run_sync");
    match &plain {
        Err(e) => {
            if !plain_log.iter().any(|e| matches!(e, Ev::Injected { .. })) {
                mon.bad("C13", format!("{what}: run_sync failed: {e:?}"));
            }
        }
        Ok(res) => {
            if res.reports.keys().copied().collect::<BTreeSet<_>>() != ps {
                mon.bad("C13", format!("{what}: reports from {:?} instead of {ps:?}", res.reports.keys()));
            }
            check_order(&plain_log, mon);
            check_missing::<W, SP>(&scripts, &plain_log, res, mon);
            let hists: BTreeMap<Id, oracle::Hist> = ps.iter().map(|x| (*x, oracle::hist(&plain_log, *x))).collect();
            let mut sub = Mon::default();
            if quiet {
                let parties: Vec<_> = ps.iter().map(|x| (*x, res.reports.get(x), String::new())).collect();
                oracle::perfect::<W, SP>(&scripts, &parties, &hists, &mut sub);
            }
            for x in &ps {
                oracle::made_once(&scripts, *x, &hists[x], &mut sub);
                if plain_run.drops.is_empty() {
                    oracle::conservation(&scripts, *x, &hists[x], &mut sub);
                }
            }
            for (p, t) in std::mem::take(&mut sub.viol) {
                mon.bad("C13", format!("{what}: {p}: {t}"));
            }
            mon.merge(sub);
        }
    }

    // Extensions directly
    let run = Arc::new(copy_run(&base));
    let ext = run_with::<X, _, SP>(s, &order, |id| X::ext(&run, (id == modified).then_some(modified), flip));
    mon.count("run_sync_extended");
    let log = run.take_log();
    if !base.acts.is_empty() {
        mon.count("overrides_compared");
    }
    match (&ext, &plain) {
        (Err(e), _) => mon.bad("C13", format!("{what}: extended: panic: {e}")),
        (Ok(Ok(a)), Ok(b)) => {
            for (id, r) in &b.reports {
                mon.count("reports_compared");
                let d = match a.reports.get(id) {
                    None => Some("absent".to_string()),
                    Some(x) => diff_reports(x, r),
                };
                if let Some(d) = d {
                    mon.bad("C13", format!("{what}: extended: the report of {id:?}: {d}"));
                }
            }
        }
        (Ok(Err(_)), Err(_)) => mon.count("run_sync_local_failures"),
        (Ok(a), b) => {
            mon.bad("C13", format!("{what}: extended: {:?} instead of {:?}", a.as_ref().err(), b.as_ref().err()))
        }
    }
    if let Some(d) = diff_logs(&log, &plain_log) {
        mon.bad("C13", format!("{what}: extended: {d}"));
    }
    let mut trace = mix(seed, base.acts.len() as u64);
    for ev in &log {
        if let Ev::Recv { me, from, .. } = ev {
            trace = mix(trace, me.0 as u64 * 1000 + from.0 as u64);
        }
    }

    // The list of results
    if let Ok(Ok(res)) = ext {
        let want: BTreeMap<Id, u64> = res
            .reports
            .iter()
            .filter_map(|(id, r)| if let SessionOutcome::Result(x) = &r.outcome { Some((*id, x.uniq)) } else { None })
            .collect();
        let all = want.len() == res.reports.len();
        if rng.gen_bool(0.3) {
            mon.count("results_checked");
            let got = guard_any(|| res.results());
            let ok = match &got {
                Ok(Ok(m)) => all && m.iter().map(|(id, r)| (*id, r.uniq)).collect::<BTreeMap<_, _>>() == want,
                Ok(Err(_)) => !all,
                Err(_) => false,
            };
            if !ok {
                mon.bad("C13", format!("{what}: the results are {got:?} instead of {want:?}"));
            }
        } else {
            try_helper::<X, SP>(&mut rng, res, &run, modified, mon);
        }
    }
    (trace, shape)
}

/// The helper that extends and runs everything on its own (for plain protocols only).
fn helper_runs<SP: Params>(seed: u64, mon: &mut Mon) -> (u64, u64) {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let n = *[1usize, 2, 2, 3, 3, 4, 4, 5].choose(&mut rng).unwrap();
    let ps = parties(n);
    let o = GenOpts {
        max_rounds: rng.gen_range(1..=3),
        topology: *[0, 0, 0, 1].choose(&mut rng).unwrap(),
        branching: rng.gen_bool(0.2),
        refs: rng.gen_bool(0.8),
        force_echo: rng.gen_bool(0.4),
        blob: 0,
    };
    let scripts = gen_world::<Plain>(&mut rng, &ps, &o);
    let shape = crate::check::hash64(format!("{scripts:?}"));
    let mut order: Vec<Id> = ps.iter().copied().collect();
    order.shuffle(&mut rng);
    let modified = *order.last().unwrap();
    let mut base = Run::new(scripts.clone());
    let provable = rng.gen_bool(0.8);
    base.acts = pick_acts::<Plain>(&mut rng, &scripts, modified, provable);
    if rng.gen_bool(0.15) {
        let other = *order.choose(&mut rng).unwrap();
        if other != modified {
            base.faults.insert(other, scen::pick_faults(&mut rng, &scripts, &[0], other));
        }
    }
    if rng.gen_bool(0.1) {
        base.reject.store(true, Ordering::Relaxed);
    }
    let s: u64 = rng.gen();
    let description = rng.choose_description();
    let reject = base.reject.load(Ordering::Relaxed);
    let fresh = |x: Run| {
        x.reject.store(reject, Ordering::Relaxed);
        Arc::new(x)
    };
    let plain_run = fresh(without_acts(&base));
    let want = match run_with::<Plain, _, SP>(s, &order, |_| Plain::entry(&plain_run)) {
        Ok(Ok(r)) => {
            if !r.reports[&modified].provable_errors.is_empty() {
                return (seed, shape);
            }
            verdict::<Plain, SP>(modified, &r.reports, &Shared(plain_run.clone()), description)
        }
        Ok(Err(_)) => Err("local failure"),
        Err(_) => return (seed, shape),
    };
    let run = fresh(copy_run(&base));
    let eps: Vec<(Signer, SpecEntry<0, 8>)> = order.iter().map(|x| (Signer::new(*x), Plain::entry(&run))).collect();
    let mut r = ChaCha8Rng::seed_from_u64(s);
    let how = rng.gen_range(0..3);
    let single = {
        let mut t: Vec<u8> = base.acts.iter().map(|a| a.2).collect();
        t.dedup();
        t.len() == 1
    };
    let got = match how {
        0 if single => {
            // With a single extension
            let ty = base.acts[0].2;
            mon.count("check_evidence_with_extension");
            let v = variant(&base.acts.iter().map(|a| a.3).collect::<Vec<_>>());
            guard_any(|| {
                let x = (eps, Shared(run.clone()));
                with_type!(ty, 0, R, match v {
                    1 => check_evidence_with_extension::<SP, _>(&mut r, x, ExtNormal::<R>(PhantomData), description),
                    2 => check_evidence_with_extension::<SP, _>(&mut r, x, ExtEcho::<R>(PhantomData), description),
                    3 => check_evidence_with_extension::<SP, _>(&mut r, x, ExtDirect::<R>(PhantomData), description),
                    _ => check_evidence_with_extension::<SP, _>(&mut r, x, ExtAll::<R>(PhantomData), description),
                })
            })
        }
        0 | 1 => {
            mon.count("check_evidence_with_extensions");
            guard_any(|| {
                check_evidence_with_extensions::<SP, _>(
                    &mut r,
                    (eps, Shared(run.clone())),
                    |ep| register0(ep, &run, Some(modified), false),
                    description,
                )
            })
        }
        _ => {
            mon.count("extend_one");
            guard_any(|| {
                let (id, eps) = extend_one::<SP, _>(eps, |ep| register0(ep, &run, Some(modified), false))?;
                if id != modified || eps.iter().map(|x| x.0.id).collect::<Vec<_>>() != order {
                    return Err(LocalError::new("wrong parties"));
                }
                let res = run_sync::<_, SP>(&mut r, eps)?;
                check_evidence::<Spec<0>, SP>(&id, res, &Shared(run.clone()), description)
            })
        }
    };
    judge_helper(&format!("the helper ({how}) {:?}, {description:?}", base.acts), got, want, mon);
    let shown = |log: &[Ev]| log.iter().filter(|e| !matches!(e, Ev::Shown(_))).cloned().collect::<Vec<_>>();
    if let Some(d) = diff_logs(&shown(&run.take_log()), &shown(&plain_run.take_log())) {
        mon.bad("C13", format!("the helper ({how}) {:?}: {d}", base.acts));
    }
    (mix(seed, how), shape)
}

trait Pick {
    fn choose_description(&mut self) -> &'static str;
}
impl Pick for ChaCha8Rng {
    fn choose_description(&mut self) -> &'static str {
        let all = ["spec error", "spec error", "spec error Content", "Content", "", "Ref", "spec error\u{0}", "Spec error"];
        all[self.gen_range(0..all.len())]
    }
}

pub fn run(seed: u64, debug: bool) -> Outcome {
    let mut rng = ChaCha8Rng::seed_from_u64(seed ^ 0x9191);
    let mut mon = Mon::default();
    let s: u64 = rng.gen();
    let (trace, shape) = match rng.gen_range(0..20) {
        0..=2 => simulated::<Plain, ExtPlain, Sp<Json>>(s, &mut mon),
        3 => simulated::<Plain, ExtPlain, Sp<Bin>>(s, &mut mon),
        4 => simulated::<ChainW<15, 15>, ExtChain<15, 15>, Sp<Json>>(s, &mut mon),
        5..=8 => synchronous::<Plain, ExtPlain, Sp<Json>>(s, &mut mon, debug),
        9..=11 => synchronous::<Plain, ExtPlain, Sp<Bin>>(s, &mut mon, debug),
        12..=13 => synchronous::<ChainW<15, 15>, ExtChain<15, 15>, Sp<Bin>>(s, &mut mon, debug),
        14 => synchronous::<ChainW<10, 15>, ExtChain<10, 15>, Sp<Json>>(s, &mut mon, debug),
        15..=17 => helper_runs::<Sp<Json>>(s, &mut mon),
        _ => helper_runs::<Sp<Bin>>(s, &mut mon),
    };
    if seed % 64 == 0 {
        mon.count("empty_lists");
        let got = guard_any(|| extend_one::<Sp<Json>, SpecEntry<0, 8>>(Vec::new(), |x| x).is_err());
        if !matches!(got, Ok(true)) {
            mon.bad("C13", "extend_one: accepted an empty list");
        }
    }
    Outcome { mon, trace, shape, ..Outcome::default() }
}
