//! Small executions which exercise everything that moves, downcasts or shares objects, cheap enough for the
//! interpreter and the sanitizers: all the combinations of message kinds (zero-sized types included), chains, round
//! extensions, evidence, the synchronous and the asynchronous runners, messages created and processed in parallel
//! threads, cancellation.

use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Arc;

use manul::combinators::chain::ChainedSharedData;
use manul::dev::{
    check_evidence, check_evidence_with_extension, check_evidence_with_extensions, extend_one, run_sync,
    tokio::run_async, ExtendableEntryPoint, RoundExtension,
};
use manul::protocol::{
    BoxedRound, CommunicationInfo, EntryPoint, FinalizeOutcome, LocalError, NoArtifact, NoMessage, NoProtocolErrors,
    Protocol, ProtocolMessage, ReceiveError, Round, RoundId, RoundInfo, TransitionInfo,
};
use manul::session::tokio::{par_run_session, run_session, MessageIn, MessageOut};
use manul::session::{CanFinalize, Evidence, PreprocessOutcome, RoundOutcome, Session, SessionId, SessionReport};
use rand::seq::SliceRandom;
use rand::Rng;
use rand_core::{CryptoRngCore, SeedableRng};
use serde::{Deserialize, Serialize};
use tokio::sync::mpsc;
use tokio_util::sync::CancellationToken;

use crate::light::ChaCha8Rng;
use crate::mistake::*;
use crate::scen::Outcome;
use crate::sim::Mon;
use crate::sp::*;
use crate::spec::{damage, new_live, Live, Token};

// A protocol with zero-sized messages, payloads and artifacts

/// Values of `Unit<K>` that appeared and were used up; there can be no more of the latter.
static UNITS: [AtomicI64; 4] = [const { AtomicI64::new(0) }; 4];

/// A zero-sized type of values that have to come from somewhere.
#[derive(Debug)]
pub struct Unit<const K: usize>(());

impl<const K: usize> Unit<K> {
    fn new() -> Self {
        UNITS[K].fetch_add(1, Ordering::SeqCst);
        Self(())
    }
}
impl<const K: usize> Drop for Unit<K> {
    fn drop(&mut self) {
        if UNITS[K].fetch_sub(1, Ordering::SeqCst) <= 0 {
            damage("a zero-sized object was dropped without having been created");
        }
    }
}
impl<const K: usize> Serialize for Unit<K> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_unit_struct("Unit")
    }
}
impl<'de, const K: usize> Deserialize<'de> for Unit<K> {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl serde::de::Visitor<'_> for V {
            type Value = ();
            fn expecting(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("a unit struct")
            }
            fn visit_unit<E: serde::de::Error>(self) -> Result<(), E> {
                Ok(())
            }
        }
        d.deserialize_unit_struct("Unit", V)?;
        Ok(Self::new())
    }
}

#[derive(Debug, Serialize, Deserialize)]
pub struct Zst;

impl Protocol<Id> for Zst {
    type Result = usize;
    type SharedData = ();
    fn round_info(round_id: &RoundId) -> Option<RoundInfo<Id, Self>> {
        Some(if *round_id == 1 {
            RoundInfo::new::<Z1>()
        } else if *round_id == 2 {
            RoundInfo::new::<Z2>()
        } else if *round_id == 3 {
            RoundInfo::new::<Z3>()
        } else {
            return None;
        })
    }
}

#[derive(Debug, Clone)]
struct ZCfg {
    live: Arc<Live>,
    me: Id,
    others: BTreeSet<Id>,
    seen: usize,
}

macro_rules! zround {
    ($name:ident, $num:expr, $direct:ty, $echo:ty, $normal:ty, $payload:ty, $artifact:ty, $make:expr, $next:expr, { $($body:tt)* }) => {
        #[derive(Debug)]
        pub struct $name(ZCfg, #[allow(dead_code)] Token);
        impl From<ZCfg> for $name {
            fn from(x: ZCfg) -> Self {
                let t = Token::new(&x.live);
                Self(x, t)
            }
        }
        impl Round<Id> for $name {
            type Protocol = Zst;
            type ProtocolError = NoProtocolErrors<Self>;
            type DirectMessage = $direct;
            type EchoBroadcast = $echo;
            type NormalBroadcast = $normal;
            type Payload = $payload;
            type Artifact = $artifact;
            fn transition_info(&self) -> TransitionInfo {
                if $num == 3 { TransitionInfo::new_linear_terminating($num) } else { TransitionInfo::new_linear($num) }
            }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                CommunicationInfo::regular(&self.0.others)
            }
            fn receive_message(
                &self,
                _from: &Id,
                m: ProtocolMessage<Id, Self>,
            ) -> Result<$payload, ReceiveError<Id, Self>> {
                let make: fn(ProtocolMessage<Id, Self>) -> $payload = $make;
                Ok(make(m))
            }
            fn finalize(
                self,
                _rng: &mut impl CryptoRngCore,
                payloads: BTreeMap<Id, $payload>,
                artifacts: BTreeMap<Id, $artifact>,
            ) -> Result<FinalizeOutcome<Id, Zst>, LocalError> {
                let mut x = self.0.clone();
                x.seen += payloads.len() + artifacts.len();
                let next: fn(ZCfg) -> FinalizeOutcome<Id, Zst> = $next;
                Ok(next(x))
            }
            $($body)*
        }
    };
}

zround!(Z1, 1, Unit<0>, NoMessage, Unit<1>, Unit<2>, Unit<3>,
    |m| { drop(m); Unit::new() },
    |x| FinalizeOutcome::AnotherRound(BoxedRound::new(Z2::from(x))),
{
    fn make_direct_message(&self, _: &mut impl CryptoRngCore, _: &Id) -> Result<(Unit<0>, Unit<3>), LocalError> {
        Ok((Unit::new(), Unit::new()))
    }
    fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<Unit<1>, LocalError> {
        Ok(Unit::new())
    }
});
zround!(Z2, 2, NoMessage, Unit<0>, (), (), NoArtifact,
    |m| drop(m),
    |x| FinalizeOutcome::AnotherRound(BoxedRound::new(Z3::from(x))),
{
    fn make_echo_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<Unit<0>, LocalError> {
        Ok(Unit::new())
    }
    fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<(), LocalError> {
        Ok(())
    }
});
zround!(Z3, 3, (), Unit<1>, NoMessage, PhantomData<Id>, (),
    |m| { drop(m); PhantomData },
    |x| FinalizeOutcome::Result(x.seen),
{
    fn make_direct_message(&self, _: &mut impl CryptoRngCore, _: &Id) -> Result<((), ()), LocalError> {
        Ok(((), ()))
    }
    fn make_echo_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<Unit<1>, LocalError> {
        Ok(Unit::new())
    }
});

#[derive(Debug)]
struct ZEntry {
    live: Arc<Live>,
    ids: BTreeSet<Id>,
}
impl EntryPoint<Id> for ZEntry {
    type Protocol = Zst;
    fn entry_round_id() -> RoundId {
        RoundId::new(1)
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        _shared_randomness: &[u8],
        id: &Id,
    ) -> Result<BoxedRound<Id, Zst>, LocalError> {
        let others = self.ids.iter().copied().filter(|x| x != id).collect();
        Ok(BoxedRound::new(Z1::from(ZCfg { live: self.live, me: *id, others, seen: 0 })))
    }
}

// The extensions

/// Overrides nothing
struct Ident<R>(PhantomData<fn() -> R>, #[allow(dead_code)] Arc<Token>);
impl<R> Ident<R> {
    fn new(live: &Arc<Live>) -> Self {
        Self(PhantomData, Arc::new(Token::new(live)))
    }
}
impl<R> Clone for Ident<R> {
    fn clone(&self) -> Self {
        Self(PhantomData, self.1.clone())
    }
}
impl<R> Debug for Ident<R> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Ident")
    }
}
impl<R: Round<Id>> RoundExtension<Id> for Ident<R> {
    type Round = R;
}

/// Sends the wrong value in the fourth round
#[derive(Debug, Clone)]
struct Wrong<const H: u8>(#[allow(dead_code)] Arc<Token>);
impl<const H: u8> RoundExtension<Id> for Wrong<H> {
    type Round = Erring<H>;
    fn make_direct_message(
        &self,
        rng: &mut impl CryptoRngCore,
        round: &Erring<H>,
        destination: &Id,
    ) -> Result<(Msg, Load), LocalError> {
        let (_, artifact) = round.make_direct_message(rng, destination)?;
        Ok((Msg(77777), artifact))
    }
}

// The executions

type Entries<EP> = Vec<(Signer, EP)>;

fn note<P: Protocol<Id> + Debug, SP: Params>(r: &SessionReport<P, SP>, mon: &mut Mon)
where
    P::Result: Debug,
{
    mon.count(match &r.outcome {
        manul::session::SessionOutcome::Result(_) => "parties_with_results",
        manul::session::SessionOutcome::NotEnoughMessages => "parties_without_enough_messages",
        manul::session::SessionOutcome::Terminated => "parties_terminated",
    });
    mon.add("provable_errors", r.provable_errors.len() as u64);
    std::hint::black_box(format!("{r:?}"));
}

/// Evidence verified, transferred and verified again
fn follow<P, SP>(reports: &[SessionReport<P, SP>], shared: &P::SharedData, mon: &mut Mon)
where
    P: Protocol<Id> + Debug + Serialize + for<'de> Deserialize<'de>,
    P::Result: Debug,
    SP: Params,
{
    for r in reports {
        note(r, mon);
        for e in r.provable_errors.values() {
            let bytes = ser::<SP, _>(e);
            if e.verify(shared).is_ok() {
                mon.count("evidence_verified");
            }
            if let Ok(copy) = de::<SP, Evidence<P, SP>>(&bytes) {
                if copy.verify(shared).is_ok() {
                    mon.count("transferred_evidence_verified");
                }
            }
            if let Ok(cut) = de::<SP, Evidence<P, SP>>(&bytes[..bytes.len() - 1]) {
                let _ = cut.verify(shared);
            }
        }
    }
}

/// Each message is created and processed by a thread of its own
fn threads<P, SP, EP>(entries: Entries<EP>, rng: &mut ChaCha8Rng, mon: &mut Mon) -> Vec<SessionReport<P, SP>>
where
    P: Protocol<Id>,
    SP: Params,
    EP: EntryPoint<Id, Protocol = P>,
{
    let sid = SessionId::random::<SP>(rng);
    let mut live: BTreeMap<Id, Session<P, SP>> = BTreeMap::new();
    let mut reports = Vec::new();
    for (signer, entry) in entries {
        let id = signer.id;
        if let Ok(s) = Session::<P, SP>::new(rng, sid.clone(), signer, entry) {
            live.insert(id, s);
        }
    }
    let mut early: BTreeMap<Id, Vec<manul::session::VerifiedMessage<Id>>> = BTreeMap::new();
    while !live.is_empty() {
        // Everyone is in the same round
        let mut messages = Vec::new();
        let mut accums = BTreeMap::new();
        for (id, session) in &live {
            let mut accum = session.make_accumulator();
            let seed: u64 = rng.gen();
            let made = std::thread::scope(|sc| {
                let handles: Vec<_> = session
                    .message_destinations()
                    .iter()
                    .enumerate()
                    .map(|(i, dest)| {
                        sc.spawn(move || {
                            let mut rng = ChaCha8Rng::seed_from_u64(seed.wrapping_add(i as u64));
                            (*dest, session.make_message(&mut rng, dest))
                        })
                    })
                    .collect();
                handles.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
            });
            mon.add("made_in_threads", made.len() as u64);
            let mut failed = false;
            for (dest, x) in made {
                match x {
                    Ok((m, artifact)) => {
                        messages.push((*id, dest, m));
                        failed |= session.add_artifact(&mut accum, artifact).is_err();
                    }
                    Err(_) => failed = true,
                }
            }
            accums.insert(*id, (accum, failed));
        }
        messages.shuffle(rng);
        let mut next = BTreeMap::new();
        for (id, session) in std::mem::take(&mut live) {
            let (mut accum, mut failed) = accums.remove(&id).unwrap();
            let mut verified = early.remove(&id).unwrap_or_default();
            for (from, dest, m) in &messages {
                if *dest == id && !failed {
                    match session.preprocess_message(&mut accum, from, m.clone()) {
                        Ok(PreprocessOutcome::ToProcess(m)) => verified.push(*m),
                        Ok(_) => {}
                        Err(_) => failed = true,
                    }
                }
            }
            let session_ref = &session;
            let processed = std::thread::scope(|sc| {
                let handles: Vec<_> =
                    verified.into_iter().map(|m| sc.spawn(move || session_ref.process_message(m))).collect();
                handles.into_iter().map(|h| h.join().unwrap()).collect::<Vec<_>>()
            });
            mon.add("processed_in_threads", processed.len() as u64);
            for p in processed {
                failed |= session.add_processed_message(&mut accum, p).is_err();
            }
            if failed {
                reports.extend(session.terminate(accum));
                continue;
            }
            match session.can_finalize(&accum) {
                CanFinalize::Yes => match session.finalize_round(rng, accum) {
                    Ok(RoundOutcome::Finished(r)) => reports.push(r),
                    Ok(RoundOutcome::AnotherRound { session, cached_messages }) => {
                        early.insert(id, cached_messages);
                        next.insert(id, *session);
                    }
                    Err(_) => mon.count("failed_finalizations"),
                },
                CanFinalize::Never => reports.extend(session.terminate_due_to_errors(accum)),
                CanFinalize::NotYet => reports.extend(session.terminate(accum)),
            }
        }
        live = next;
    }
    reports
}

/// Tasks and channels
fn tasks<P, SP, EP>(entries: Entries<EP>, rng: &mut ChaCha8Rng, mon: &mut Mon) -> Vec<SessionReport<P, SP>>
where
    P: Protocol<Id> + Send,
    P::Result: Send,
    SP: Params,
    EP: EntryPoint<Id, Protocol = P>,
{
    let workers = rng.gen_range(0..3);
    let rt = if workers == 0 {
        tokio::runtime::Builder::new_current_thread().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(workers).build().unwrap()
    };
    let sid = SessionId::random::<SP>(rng);
    let parallel = rng.gen_range(0..3);
    let cancel = rng.gen_bool(0.3);
    let close = rng.gen_bool(0.15);
    let capacity = *[1usize, 2, 50].choose(rng).unwrap();
    let mut reports = Vec::new();
    rt.block_on(async {
        let (tx, mut rx) = mpsc::channel::<MessageOut<SP>>(capacity);
        let mut ins = BTreeMap::new();
        let mut handles = tokio::task::JoinSet::new();
        let mut missing = false;
        let tokens: Vec<_> = entries.iter().map(|_| CancellationToken::new()).collect();
        for (k, (signer, entry)) in entries.into_iter().enumerate() {
            let id = signer.id;
            let mut prng = ChaCha8Rng::seed_from_u64(rng.gen());
            let Ok(session) = Session::<P, SP>::new(&mut prng, sid.clone(), signer, entry) else {
                missing = true;
                continue;
            };
            let (itx, mut irx) = mpsc::channel::<MessageIn<SP>>(1000);
            ins.insert(id, itx);
            let tx = tx.clone();
            let token = tokens[k].clone();
            let par = parallel == 0 || (parallel == 1 && k % 2 == 0);
            mon.count(if par { "parallel_runners" } else { "sequential_runners" });
            handles.spawn(async move {
                if par {
                    par_run_session(&mut prng, &tx, &mut irx, token, session).await
                } else {
                    run_session(&mut prng, &tx, &mut irx, token, session).await
                }
            });
        }
        drop(tx);
        // Everyone is cancelled some time after the chosen one, as there may be nobody to wait for
        let stop = if cancel { rng.gen_range(0..10) } else { usize::MAX };
        let mut count = 0;
        let seed: u64 = rng.gen();
        let all = tokens.clone();
        let router = tokio::spawn(async move {
            let mut rng = ChaCha8Rng::seed_from_u64(seed);
            let mut list: Vec<MessageOut<SP>> = Vec::new();
            while let Some(m) = rx.recv().await {
                list.push(m);
                while let Ok(m) = rx.try_recv() {
                    list.push(m);
                }
                while !list.is_empty() {
                    let i = rng.gen_range(0..list.len());
                    let m = list.swap_remove(i);
                    if count == stop {
                        tokens[0].cancel();
                    }
                    if count == stop.saturating_add(3) {
                        if close {
                            ins.clear();
                        }
                        tokens.iter().for_each(|t| t.cancel());
                    }
                    count += 1;
                    if let Some(tx) = ins.get(&m.to) {
                        let _ = tx.try_send(MessageIn { from: m.from, message: m.message });
                    }
                    if rng.gen_bool(0.5) {
                        tokio::task::yield_now().await;
                    }
                }
                if stop != usize::MAX && count >= stop {
                    tokens.iter().for_each(|t| t.cancel());
                }
            }
        });
        if missing {
            all.iter().for_each(|t| t.cancel());
        }
        while let Some(res) = handles.join_next().await {
            let done = match res.unwrap() {
                Ok(r) => {
                    let done = matches!(r.outcome, manul::session::SessionOutcome::Result(_));
                    reports.push(r);
                    done
                }
                Err(_) => {
                    mon.count("runner_errors");
                    false
                }
            };
            if !done {
                // The others may be waiting for this one
                all.iter().for_each(|t| t.cancel());
            }
        }
        router.await.unwrap();
    });
    reports
}

/// One of the ways to execute
fn drive<P, SP, EP>(
    entries: Entries<EP>,
    honest: bool,
    rng: &mut ChaCha8Rng,
    mon: &mut Mon,
) -> Vec<SessionReport<P, SP>>
where
    P: Protocol<Id> + Send,
    P::Result: Send,
    SP: Params,
    EP: EntryPoint<Id, Protocol = P>,
{
    // The asynchronous runner of the toolkit waits for all the parties
    match rng.gen_range(0..6 + honest as u32) {
        0 | 1 => {
            mon.count("driven: threads");
            threads::<P, SP, EP>(entries, rng, mon)
        }
        2..=4 => {
            mon.count("driven: tasks");
            tasks::<P, SP, EP>(entries, rng, mon)
        }
        5 => {
            mon.count("driven: run_sync");
            run_sync::<_, SP>(rng, entries).map(|r| r.reports.into_values().collect()).unwrap_or_default()
        }
        _ => {
            mon.count("driven: run_async");
            let rt = if rng.gen() {
                tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap()
            } else {
                tokio::runtime::Builder::new_multi_thread().enable_time().worker_threads(2).build().unwrap()
            };
            let offload = rng.gen();
            let res = rt.block_on(run_async::<_, SP>(rng, entries, offload));
            res.map(|r| r.reports.into_values().collect()).unwrap_or_default()
        }
    }
}

/// The extended protocol or the plain one
fn plain_or_extended<P, SP, EP>(
    entries: Entries<EP>,
    extend: impl Fn(ExtendableEntryPoint<Id, EP>) -> ExtendableEntryPoint<Id, EP>,
    honest: bool,
    rng: &mut ChaCha8Rng,
    mon: &mut Mon,
) -> Vec<SessionReport<P, SP>>
where
    P: Protocol<Id> + Send,
    P::Result: Send,
    SP: Params,
    EP: EntryPoint<Id, Protocol = P>,
{
    if rng.gen() {
        mon.count("extended_executions");
        let entries = entries.into_iter().map(|(s, e)| (s, extend(ExtendableEntryPoint::new(e)))).collect();
        drive::<P, SP, _>(entries, honest, rng, mon)
    } else {
        drive::<P, SP, _>(entries, honest, rng, mon)
    }
}

fn config(rng: &mut ChaCha8Rng) -> Cfg {
    let n = if rng.gen_bool(0.7) { 2 } else { 3 };
    let ids: Vec<Id> = (0..n).map(|i| Id(i + 1)).collect();
    let halves = if rng.gen_bool(0.3) { 2 } else { 1 };
    let mut len = [rng.gen_range(1..=2), rng.gen_range(1..=2)];
    let half = rng.gen_range(0..halves);
    let mut pos = rng.gen_range(1..=len[half as usize]);
    let kinds = [rng.gen(), rng.gen(), rng.gen()];
    let faulty = *ids.choose(rng).unwrap();
    let mut sender = None;
    let mistake = match rng.gen_range(0..10) {
        0..=4 => Mistake::None,
        5 => Mistake::Omit([rng.gen(), rng.gen(), rng.gen()]),
        6 => Mistake::Serialization(rng.gen_range(0..3)),
        7 => Mistake::Signing(rng.gen_range(0..5)),
        _ => {
            len[half as usize] = 4;
            pos = rng.gen_range(1..=3);
            sender = ids.iter().copied().find(|i| *i != faulty);
            Mistake::Error { round: if rng.gen_bool(0.8) { pos } else { 1 }, part: rng.gen_range(0..5), bad_error: false }
        }
    };
    Cfg { live: new_live(), ids, len, halves, half, pos, kinds, silent: None, faulty, sender, mistake }
}

fn signers(cfg: &Cfg) -> Vec<Signer> {
    cfg.ids
        .iter()
        .map(|id| {
            let mut s = Signer::new(*id);
            if let (Mistake::Signing(n), true) = (cfg.mistake, cfg.faulty == *id) {
                s.fail_after = Some(Arc::new(AtomicI64::new(n)));
            }
            s
        })
        .collect()
}

fn mini<SP: Params>(rng: &mut ChaCha8Rng, mon: &mut Mon) -> String {
    let cfg = Arc::new(config(rng));
    let text = format!("{cfg:?}");
    let honest = cfg.mistake == Mistake::None;
    if cfg.halves == 2 {
        mon.count("chains");
        let entries = signers(&cfg).into_iter().map(|s| (s, MChEntry(cfg.clone()))).collect();
        let reports = drive::<MCh, SP, _>(entries, honest, rng, mon);
        let shared = ChainedSharedData { protocol1: cfg.clone(), protocol2: cfg.clone() };
        follow(&reports, &shared, mon);
    } else {
        let entries = signers(&cfg).into_iter().map(|s| (s, MiniEntry::<0> { cfg: cfg.clone(), sum: 0 })).collect();
        let which = rng.gen_range(0..8);
        let extend = |e: ExtendableEntryPoint<Id, MiniEntry<0>>| {
            let live = &cfg.live;
            let mut e = e;
            if which & 1 != 0 {
                e = e.with_extension(Ident::<Plain<0>>::new(live));
            }
            if which & 2 != 0 {
                e = e.with_extension(Ident::<Erring<0>>::new(live));
            }
            if which & 4 != 0 {
                // Special rounds of all kinds
                e = e
                    .with_extension(Ident::<S000<0>>::new(live))
                    .with_extension(Ident::<S111<0>>::new(live))
                    .with_extension(Ident::<S100<0>>::new(live))
                    .with_extension(Ident::<S010<0>>::new(live))
                    .with_extension(Ident::<S101<0>>::new(live))
                    .with_extension(Ident::<S110<0>>::new(live))
                    .with_extension(Ident::<S111<0>>::new(live));
            }
            e
        };
        let reports = plain_or_extended::<Mini<0>, SP, _>(entries, extend, honest, rng, mon);
        follow(&reports, &cfg, mon);
    }
    text
}

fn zero_sized<SP: Params>(rng: &mut ChaCha8Rng, mon: &mut Mon) -> String {
    let live = new_live();
    let ids: BTreeSet<Id> = (0..rng.gen_range(1..=3)).map(Id).collect();
    let entries = ids.iter().map(|id| (Signer::new(*id), ZEntry { live: live.clone(), ids: ids.clone() })).collect();
    let which = rng.gen_range(0..8);
    let extend = |e: ExtendableEntryPoint<Id, ZEntry>| {
        let mut e = e;
        if which & 1 != 0 {
            e = e.with_extension(Ident::<Z1>::new(&live));
        }
        if which & 2 != 0 {
            e = e.with_extension(Ident::<Z2>::new(&live));
        }
        if which & 4 != 0 {
            e = e.with_extension(Ident::<Z3>::new(&live));
        }
        e
    };
    let reports = plain_or_extended::<Zst, SP, _>(entries, extend, true, rng, mon);
    follow(&reports, &(), mon);
    mon.count("zero_sized_executions");
    format!("zero-sized {ids:?} {which}")
}

/// The helpers that check evidence
fn helpers<SP: Params>(rng: &mut ChaCha8Rng, mon: &mut Mon) -> String {
    let mut cfg = config(rng);
    cfg.halves = 1;
    cfg.half = 0;
    cfg.len[0] = 4;
    cfg.pos = rng.gen_range(1..=3);
    cfg.sender = None;
    cfg.mistake = Mistake::Error { round: cfg.pos, part: rng.gen_range(0..5), bad_error: false };
    let text = format!("{cfg:?}");
    let cfg = Arc::new(cfg);
    let entries: Entries<MiniEntry<0>> =
        cfg.ids.iter().map(|id| (Signer::new(*id), MiniEntry::<0> { cfg: cfg.clone(), sum: 0 })).collect();
    let wrong = Wrong::<0>(Arc::new(Token::new(&cfg.live)));
    let ident = Ident::<Plain<0>>::new(&cfg.live);
    let what = ["an unexpected value", "something else"][rng.gen_bool(0.2) as usize];
    let res = match rng.gen_range(0..3) {
        0 => check_evidence_with_extension::<SP, _>(rng, (entries, cfg.clone()), wrong, what),
        1 => check_evidence_with_extensions::<SP, _>(
            rng,
            (entries, cfg.clone()),
            |e| e.with_extension(ident).with_extension(wrong),
            what,
        ),
        _ => (|| {
            let (id, entries) = extend_one::<SP, _>(entries, |e| e.with_extension(wrong))?;
            let res = run_sync::<_, SP>(rng, entries)?;
            check_evidence(&id, res, &cfg, what)
        })(),
    };
    mon.count(if res.is_ok() { "helpers_accepted" } else { "helpers_rejected" });
    text
}

pub fn run(seed: u64, debug: bool) -> Outcome {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let mut o = Outcome::default();
    fn go<SP: Params>(rng: &mut ChaCha8Rng, mon: &mut Mon) -> String {
        match rng.gen_range(0..10) {
            0..=5 => mini::<SP>(rng, mon),
            6 | 7 => zero_sized::<SP>(rng, mon),
            _ => helpers::<SP>(rng, mon),
        }
    }
    let text = if rng.gen_bool(if cfg!(miri) { 0.1 } else { 0.5 }) {
        go::<Sp<Json>>(&mut rng, &mut o.mon)
    } else {
        go::<Sp<Bin>>(&mut rng, &mut o.mon)
    };
    o.shape = crate::check::hash64(&text);
    o.trace = crate::check::hash64((&text, rng.gen::<u64>()));
    if debug {
        o.text.push(text);
    }
    o
}

/// Zero-sized objects which were not dropped
pub fn unaccounted() -> i64 {
    UNITS.iter().map(|u| u.load(Ordering::SeqCst)).sum()
}
