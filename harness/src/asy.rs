//! Asynchronous runners: real tasks and threads, bounded channels, a network with its own timing, cancellation,
//! closed channels, local failures. Executed in child processes, so that a hang can be recognized by the whole
//! process being quiescent.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Duration;

use manul::protocol::{EntryPoint, LocalError, Protocol, RoundId};
use manul::session::tokio::{par_run_session, run_session, MessageIn, MessageOut};
use manul::session::{Session, SessionId, SessionReport};
use rand::seq::SliceRandom;
use rand::Rng;
use crate::light::ChaCha8Rng;
use rand_core::SeedableRng;
use serde_json::{json, Value};
use tokio::sync::mpsc;
use tokio_util::sync::CancellationToken;

use crate::gen::*;
use crate::oracle;
use crate::scen::{pick_faults, Outcome};
use crate::sim::*;
use crate::sp::*;
use crate::spec::*;
use crate::surgery::*;

/// What is going on, for the hang detector.
pub static CURRENT: Mutex<String> = Mutex::new(String::new());
static PROGRESS: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Mode {
    Honest,
    Cancel,
    CloseIn,
    CloseOut,
    LocalFail,
    Faulty,
}

/// A message on the wire as recorded by the network.
struct Wire {
    from: Id,
    session_id: SessionId,
    out_from: Id,
    to: Id,
    v: Value,
}

type Report<W, SP> = SessionReport<<W as World>::P, SP>;
type PartyResult<W, SP> = Result<Result<Report<W, SP>, LocalError>, String>;

struct Case {
    mode: Mode,
    victims: BTreeSet<Id>,
    /// Which parties use the parallel runner
    par: BTreeSet<Id>,
    cap_in: usize,
    cap_out: usize,
    /// Act (cancel, close) on the party when it has received or sent this many messages
    at: BTreeMap<Id, usize>,
    net_delay: u8,
    paused: bool,
    workers: usize,
    pre_cancel: bool,
    /// A party whose outgoing messages are taken much slower than those of the others
    slow: Option<Id>,
}

struct Finished<W: World, SP: Params> {
    result: PartyResult<W, SP>,
    at_idle: bool,
}

const SLOW: u8 = 9;

async fn pause(rng: &mut ChaCha8Rng, style: u8) {
    match style {
        0 => {}
        1 => {
            if rng.gen_bool(0.5) {
                tokio::task::yield_now().await
            }
        }
        SLOW => tokio::time::sleep(Duration::from_micros(rng.gen_range(5_000..50_000))).await,
        _ => {
            if rng.gen_bool(0.3) {
                tokio::time::sleep(Duration::from_micros(rng.gen_range(0..1500))).await
            }
        }
    }
}

/// Everything a party is to send (or receive), by stage.
fn traffic<W: World>(scripts: &[Script], me: Id) -> (BTreeMap<Stage, BTreeSet<Id>>, usize) {
    let mut out = BTreeMap::new();
    let mut needed = 0;
    for h in W::HALVES {
        let s = &scripts[*h as usize];
        for ri in s.path(me) {
            let p = &s.rounds[ri].per[&me];
            out.insert(Stage { half: *h, ri, echo: false }, p.dests.clone());
            needed += p.expects.len();
            if let Some(peers) = echo_peers(&s.rounds[ri], me) {
                needed += peers.len();
                out.insert(Stage { half: *h, ri, echo: true }, peers);
            }
        }
    }
    (out, needed)
}

fn case<W: World, SP: Params>(seed: u64, debug: bool) -> Outcome
where
    W::P: Send,
    W::EP: Send,
    <W::P as Protocol<Id>>::Result: Send,
{
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let mode = *[Mode::Honest, Mode::Honest, Mode::Honest, Mode::Cancel, Mode::Cancel, Mode::CloseIn, Mode::CloseOut, Mode::LocalFail, Mode::Faulty, Mode::Faulty]
        .choose(&mut rng)
        .unwrap();
    let large = W::HALVES.len() == 1 && matches!(mode, Mode::Honest | Mode::Cancel) && rng.gen_bool(if mode == Mode::Cancel { 0.09 } else { 0.03 });
    let n = if large {
        rng.gen_range(102..125)
    } else {
        *[1usize, 2, 3, 3, 4, 4, 5, 6, 8].choose(&mut rng).unwrap()
    };
    let n = match mode {
        Mode::Faulty if rng.gen_bool(0.4) => rng.gen_range(5..=8),
        Mode::Faulty => n.max(2),
        _ => n,
    };
    let ps = parties(n);
    let mut scripts = if large {
        vec![uniform_script(n, &[*[1u8, 4, 4].choose(&mut rng).unwrap()], 0)]
    } else {
        let o = GenOpts {
            max_rounds: rng.gen_range(1..=4),
            topology: rng.gen_bool(0.7) as u8,
            branching: rng.gen_bool(0.5),
            refs: rng.gen_bool(0.5),
            force_echo: rng.gen_bool(0.4),
            blob: 0,
        };
        gen_world::<W>(&mut rng, &ps, &o)
    };
    let n_victims = if mode == Mode::Honest { 0 } else { rng.gen_range(1..=(n - (mode == Mode::Faulty) as usize).min(2)) };
    let all: Vec<Id> = ps.iter().copied().collect();
    let victims: BTreeSet<Id> = all.choose_multiple(&mut rng, n_victims).copied().collect();
    let par_all = rng.gen_range(0..3);
    let par: BTreeSet<Id> = all
        .iter()
        .copied()
        .filter(|x| match par_all {
            0 => false,
            1 => !large || x.0 < 4 || victims.contains(x),
            _ => rng.gen_bool(if large { 0.03 } else { 0.5 }) || victims.contains(x),
        })
        .collect();
    let caps = [1usize, 1, 2, 3, 10, 100, 1000];
    let slow: Option<Id> = (mode == Mode::Faulty && rng.gen_bool(0.6))
        .then(|| all.iter().copied().filter(|x| !victims.contains(x)).collect::<Vec<_>>().choose(&mut rng).copied())
        .flatten();
    let par: BTreeSet<Id> = par.into_iter().chain(slow.filter(|_| rng.gen_bool(0.8))).collect();
    let paused = rng.gen_bool(0.6) || slow.is_some();
    if let Some(s) = slow {
        // It may learn that the round is hopeless when it has not sent much of it yet
        if W::HALVES.len() == 1 && rng.gen_bool(0.5) {
            let combos: Vec<u8> = (0..rng.gen_range(1..=3)).map(|_| *[1u8, 4, 5].choose(&mut rng).unwrap()).collect();
            let mut script = uniform_script(n, &combos, 0);
            for r in &mut script.rounds {
                for x in all.iter().filter(|x| **x != s && !victims.contains(x)) {
                    r.per.get_mut(x).unwrap().dests.remove(&s);
                    r.per.get_mut(&s).unwrap().expects.remove(x);
                }
            }
            scripts = vec![script];
        }
    }
    let mut run = Run::new(scripts.clone());
    if mode == Mode::LocalFail {
        for v in &victims {
            let mut options = Vec::new();
            for h in W::HALVES {
                let s = &scripts[*h as usize];
                for ri in s.path(*v) {
                    let num = s.rounds[ri].num;
                    for (k, m) in [(D, Method::MakeDirect), (E, Method::MakeEcho), (N, Method::MakeNormal)] {
                        if combo_has(num, k) {
                            options.push((*v, *h, num, m));
                        }
                    }
                    options.push((*v, *h, num, Method::Receive));
                    options.push((*v, *h, num, Method::Finalize));
                }
            }
            run.local_faults.insert(*options.choose(&mut rng).unwrap());
        }
    }
    if mode == Mode::Faulty {
        for v in &victims {
            let f = pick_faults(&mut rng, &scripts, W::HALVES, *v);
            run.faults.insert(*v, f);
        }
    }
    if rng.gen_bool(0.4) && !large {
        run.delay_us.store(*[50u64, 300, 2000].choose(&mut rng).unwrap(), Ordering::Relaxed);
    }
    let case = Case {
        mode,
        at: ps
            .iter()
            .map(|x| {
                let (out, needed) = traffic::<W>(&scripts, *x);
                let total: usize = out.values().map(|d| d.len()).sum();
                (*x, rng.gen_range(0..=if mode == Mode::CloseOut { total } else { needed }))
            })
            .collect(),
        victims,
        par,
        cap_in: *caps.choose(&mut rng).unwrap(),
        cap_out: *caps.choose(&mut rng).unwrap(),
        net_delay: if large || slow.is_some() { 0 } else { rng.gen_range(0..3) },
        paused,
        workers: rng.gen_range(1..=4),
        pre_cancel: rng.gen_bool(0.1),
        slow,
    };
    let text = format!(
        "{} {} n={n} {mode:?} victims {:?} par {:?} caps {}/{} paused {paused} workers {} slow {:?} delay {:?} at {:?} large {large}",
        W::NAME, SP::NAME, case.victims, if large { BTreeSet::new() } else { case.par.clone() }, case.cap_in, case.cap_out, case.workers, case.slow, run.delay_us,
        case.victims.iter().map(|v| case.at[v]).collect::<Vec<_>>(),
    );
    *CURRENT.lock().unwrap() = text.clone();
    let run = Arc::new(run);
    let sign_log = SignLog::default();
    let sid = SessionId::from_seed::<SP>(&seed.to_be_bytes());
    let mut mon = Mon { chain: W::HALVES.len() > 1, ..Mon::default() };

    // Sessions
    let mut sessions = Vec::new();
    for x in &ps {
        let mut prng = ChaCha8Rng::seed_from_u64(rng.gen());
        let s = Session::<W::P, SP>::new(&mut prng, sid.clone(), Signer::with_log(*x, sign_log.clone()), W::entry(&run));
        match s {
            Ok(s) => sessions.push((*x, prng, s)),
            Err(_) if mode == Mode::LocalFail && case.victims.contains(x) => {
                // The broadcasts are created when the session is
                mon.count("cases");
                mon.count("failed_to_start");
                return Outcome { mon, ..Outcome::default() };
            }
            Err(e) => {
                mon.bad("C11", format!("{x:?}: cannot start: {e:?}"));
                return Outcome { mon, ..Outcome::default() };
            }
        }
    }
    let rt = if paused {
        tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(case.workers).enable_all().build().unwrap()
    };
    let wires: Arc<Mutex<Vec<Wire>>> = Arc::default();
    let taken: Arc<Mutex<BTreeMap<Id, Vec<(Id, Value)>>>> = Arc::default();
    let mut results: BTreeMap<Id, Finished<W, SP>> = BTreeMap::new();
    let net_seed: u64 = rng.gen();
    let done_flag = Arc::new(AtomicBool::new(false));

    rt.block_on(async {
        let mut tokens = BTreeMap::new();
        let mut handles = Vec::new();
        let mut queues: BTreeMap<Id, mpsc::UnboundedSender<MessageOut<SP>>> = BTreeMap::new();
        let mut ins = BTreeMap::new();
        let mut net = Vec::new();
        for x in &ps {
            let (qtx, qrx) = mpsc::unbounded_channel::<MessageOut<SP>>();
            queues.insert(*x, qtx);
            ins.insert(*x, qrx);
            tokens.insert(*x, CancellationToken::new());
        }
        for (k, (x, mut prng, session)) in sessions.into_iter().enumerate() {
            let (otx, mut orx) = mpsc::channel::<MessageOut<SP>>(if case.slow == Some(x) { 1 } else { case.cap_out });
            let (itx, mut irx) = mpsc::channel::<MessageIn<SP>>(case.cap_in);
            let token = tokens[&x].clone();
            let victim = case.victims.contains(&x);
            if victim && case.mode == Mode::Cancel && (case.pre_cancel || case.at[&x] == 0) {
                token.cancel();
            }
            // From the party to the network
            {
                let queues = queues.clone();
                let wires = wires.clone();
                let mut nrng = ChaCha8Rng::seed_from_u64(net_seed ^ (k as u64 * 77));
                let limit = (victim && case.mode == Mode::CloseOut).then(|| case.at[&x]);
                let style = if case.slow == Some(x) { SLOW } else { case.net_delay };
                net.push(tokio::spawn(async move {
                    let mut count = 0;
                    if limit == Some(0) {
                        return;
                    }
                    while let Some(m) = orx.recv().await {
                        PROGRESS.fetch_add(1, Ordering::Relaxed);
                        wires.lock().unwrap().push(Wire {
                            from: x,
                            session_id: m.session_id.clone(),
                            out_from: m.from,
                            to: m.to,
                            v: to_value(&m.message),
                        });
                        if let Some(q) = queues.get(&m.to) {
                            let _ = q.send(m);
                        }
                        count += 1;
                        if limit == Some(count) {
                            return;
                        }
                        pause(&mut nrng, style).await;
                    }
                }));
            }
            // From the network to the party
            {
                let mut q = ins.remove(&x).unwrap();
                let taken = taken.clone();
                let mut nrng = ChaCha8Rng::seed_from_u64(net_seed ^ (k as u64 * 77 + 1));
                let limit = (victim && case.mode == Mode::CloseIn).then(|| case.at[&x]);
                let cancel = (victim && case.mode == Mode::Cancel).then(|| case.at[&x]);
                let token = token.clone();
                let style = case.net_delay;
                net.push(tokio::spawn(async move {
                    let mut count = 0;
                    let mut list: Vec<MessageOut<SP>> = Vec::new();
                    if limit == Some(0) {
                        return;
                    }
                    loop {
                        if list.is_empty() {
                            match q.recv().await {
                                Some(m) => list.push(m),
                                None => return,
                            }
                        }
                        while let Ok(m) = q.try_recv() {
                            list.push(m);
                        }
                        pause(&mut nrng, style).await;
                        let i = nrng.gen_range(0..list.len());
                        let m = list.swap_remove(i);
                        let v = to_value(&m.message);
                        if itx.send(MessageIn { from: m.from, message: m.message }).await.is_err() {
                            return;
                        }
                        PROGRESS.fetch_add(1, Ordering::Relaxed);
                        taken.lock().unwrap().entry(x).or_default().push((m.from, v));
                        count += 1;
                        if cancel == Some(count) {
                            token.cancel();
                        }
                        if limit == Some(count) {
                            return;
                        }
                    }
                }));
            }
            let par = case.par.contains(&x);
            handles.push((
                x,
                tokio::spawn(async move {
                    if par {
                        par_run_session(&mut prng, &otx, &mut irx, token, session).await
                    } else {
                        run_session(&mut prng, &otx, &mut irx, token, session).await
                    }
                }),
            ));
        }
        drop(queues);
        let text = |r: Result<Result<Report<W, SP>, LocalError>, tokio::task::JoinError>| r.map_err(|e| format!("{e:?}"));
        // Wait until nothing happens anymore
        let wait = if case.paused {
            Duration::from_secs(100_000)
        } else if case.mode == Mode::Honest {
            // No need to interfere
            Duration::from_secs(1_000_000)
        } else {
            Duration::from_millis(120)
        };
        let idle = tokio::time::sleep(wait);
        tokio::pin!(idle);
        let mut is_idle = false;
        while let Some((x, mut h)) = handles.pop() {
            let r = tokio::select! {
                biased;
                r = &mut h => Some(r),
                _ = &mut idle, if !is_idle => None,
            };
            match r {
                Some(r) => {
                    results.insert(x, Finished { result: text(r), at_idle: is_idle });
                }
                None => {
                    // Those already finished
                    is_idle = true;
                    handles.push((x, h));
                    let mut rest = Vec::new();
                    for (y, g) in handles.drain(..) {
                        if g.is_finished() {
                            results.insert(y, Finished { result: text(g.await), at_idle: false });
                        } else {
                            rest.push((y, g));
                        }
                    }
                    handles = rest;
                    for t in tokens.values() {
                        t.cancel();
                    }
                    if case.paused {
                        let until = tokio::time::Instant::now() + Duration::from_secs(100_000);
                        let mut stuck = Vec::new();
                        for (y, g) in handles.drain(..) {
                            match tokio::time::timeout_at(until, g).await {
                                Ok(r) => {
                                    results.insert(y, Finished { result: text(r), at_idle: true });
                                }
                                Err(_) => stuck.push(y),
                            }
                        }
                        if !stuck.is_empty() {
                            mon.bad("C11", format!("{stuck:?} did not return after the cancellation, nothing else is happening; {}", CURRENT.lock().unwrap()));
                        }
                    }
                }
            }
        }
        // The messages still in the channels
        if mon.viol.is_empty() {
            for t in net {
                let _ = t.await;
            }
        }
        done_flag.store(true, Ordering::Relaxed);
    });
    drop(rt);

    // Judging
    let log = run.take_log();
    let hists: BTreeMap<Id, oracle::Hist> = ps.iter().map(|x| (*x, oracle::hist(&log, *x))).collect();
    let rids = round_ids::<W, SP>(&scripts);
    let schema = Schema::get::<SP>();
    let mut sub = Mon { chain: mon.chain, ..Mon::default() };
    let wires = wires.lock().unwrap();
    let taken = taken.lock().unwrap();
    mon.add("messages_on_the_wire", wires.len() as u64);
    mon.count("cases");
    mon.count(&format!("mode_{:?}{}", case.mode, if large { "_large" } else { "" }));
    mon.add("parties_parallel", case.par.len() as u64);
    mon.add("parties_sequential", (n - case.par.len()) as u64);
    mon.count(if case.paused { "runtime_single_thread" } else { "runtime_multi_thread" });
    // What was sent
    let mut sent: BTreeMap<(Id, Stage), Vec<Id>> = BTreeMap::new();
    let mut parts: BTreeMap<(Id, Stage, usize), BTreeMap<String, u32>> = BTreeMap::new();
    for w in wires.iter() {
        let rid = schema.rid(schema.part(&w.v, N));
        let dest: Option<Id> = serde_json::from_value(w.v["destination"].clone()).ok();
        let stage = rid.as_ref().and_then(|r| rids.get(r)).copied();
        let Some(stage) = stage else {
            mon.bad("C11", format!("{:?} sent a message for an unknown round {rid:?}", w.from));
            continue;
        };
        if w.session_id != sid || w.out_from != w.from || dest.is_some_and(|d| d != w.to) {
            mon.bad("C11", format!("{:?} sent a message to {:?} with the envelope {:?} {:?}", w.from, w.to, w.out_from, w.session_id));
        }
        sent.entry((w.from, stage)).or_default().push(w.to);
        for k in [D, E, N] {
            *parts.entry((w.from, stage, k)).or_default().entry(schema.part(&w.v, k).to_string()).or_default() += 1;
        }
    }
    for ((x, stage, k), texts) in &parts {
        if *k == D {
            if texts.values().any(|c| *c > 1) {
                mon.bad("C16", format!("{x:?} sent identical direct parts in {stage:?}"));
            }
        } else if texts.len() > 1 {
            mon.bad("C16", format!("{x:?} sent different broadcasts (kind {k}) in {stage:?}"));
        }
    }
    for (x, f) in &results {
        let h = &hists[x];
        let (out, needed) = traffic::<W>(&scripts, *x);
        let total: usize = out.values().map(|d| d.len()).sum();
        let victim = case.victims.contains(x);
        let who = format!("{x:?}{}", if case.par.contains(x) { " (parallel)" } else { "" });
        let report = match &f.result {
            Err(e) => {
                mon.bad("C11", format!("{who}: the task failed: {e}; {text}"));
                continue;
            }
            Ok(Err(e)) => {
                mon.count("returned_error");
                let injected = log.iter().any(|ev| matches!(ev, Ev::Injected { me, .. } if me == x));
                let fine = match case.mode {
                    Mode::LocalFail => injected,
                    Mode::CloseIn | Mode::CloseOut => victim,
                    _ => false,
                };
                if !fine {
                    mon.bad("C11", format!("{who} returned an unexpected error: {e}; {text}"));
                }
                if injected && f.at_idle && case.paused {
                    mon.bad("C11", format!("{who} did not return after a local failure until it was cancelled; {text}"));
                }
                continue;
            }
            Ok(Ok(r)) => r,
        };
        mon.count("returned_report");
        let name = outcome_name::<W, SP>(report);
        mon.count(&format!("outcome_{}", name.replace(' ', "_")));
        if log.iter().any(|ev| matches!(ev, Ev::Injected { me, .. } if me == x)) {
            // A failure when processing a message may be preceded by the cancellation
            let excused = name == "terminated" && case.par.contains(x)
                && log.iter().all(|ev| !matches!(ev, Ev::Injected { me, method, .. } if me == x && *method != Method::Receive))
                && !case.paused;
            if !excused {
                mon.bad("C11", format!("{who} returned \"{name}\" after a local failure; {text}"));
                mon.bad("C17", format!("{who} returned \"{name}\" after a local failure; {text}"));
            }
        }
        let delivered = taken.get(x).map(|v| v.len()).unwrap_or(0);
        let allowed: &[&str] = match case.mode {
            Mode::Honest => &["result"],
            Mode::Cancel | Mode::LocalFail => &["result", "terminated"],
            Mode::CloseIn if victim => &["result"],
            Mode::CloseIn | Mode::CloseOut => &["result", "terminated"],
            Mode::Faulty => &["result", "terminated", "not enough messages"],
        };
        let allowed: &[&str] = if victim && case.mode == Mode::CloseIn && f.at_idle { &["result", "terminated"] } else { allowed };
        if !allowed.contains(&name) {
            mon.bad("C11", format!("{who} returned \"{name}\"; {text}"));
            mon.bad("C10", format!("{who} returned \"{name}\"; {text}"));
        }
        if name == "terminated" && !f.at_idle && !(victim && case.mode == Mode::Cancel) && case.paused {
            mon.bad("C11", format!("{who} returned \"terminated\" without having been cancelled; {text}"));
        }
        if victim && case.mode == Mode::CloseIn && delivered == case.at[x] && delivered < needed && (name == "result" || (case.paused && f.at_idle)) {
            mon.bad("C11", format!("{who} returned \"{name}\" though the incoming channel was closed after {delivered} messages; {text}"));
        }
        if victim && case.mode == Mode::CloseOut && name == "result" && case.at[x] + case.cap_out < total {
            mon.bad("C11", format!("{who} returned a result though the outgoing channel was closed after {} messages; {text}", case.at[x]));
        }
        // Reports
        for e in report.provable_errors.keys().chain(report.unprovable_errors.keys()) {
            if !(case.mode == Mode::Faulty && case.victims.contains(e)) {
                mon.bad("C11", format!("{who} reports {e:?}; {text}"));
                mon.bad("C05", format!("{who} reports {e:?}; {text}"));
            }
        }
        for ((key, from), r) in &h.recv {
            if r.iter().any(|x| matches!(x.1, RecvOut::Unprovable | RecvOut::Provable(_)))
                && !report.provable_errors.contains_key(from)
                && !report.unprovable_errors.contains_key(from)
                && (name != "terminated" || (case.paused && f.at_idle))
            {
                mon.bad("C11", format!("{who} does not report the error of {from:?} in {key:?}; {text}"));
            }
        }
        let missing: BTreeSet<Id> = report.missing_messages.values().flatten().copied().collect();
        if name == "terminated" && f.at_idle && case.paused {
            // Waiting for something, with good reason
            let lacking = missing
                .iter()
                .any(|m| !report.provable_errors.contains_key(m) && !report.unprovable_errors.contains_key(m));
            mon.count("idle_terminations_checked");
            if !lacking {
                mon.bad("C11", format!("{who} was still waiting though no message was missing {missing:?}; {text}"));
            }
            let mut got: BTreeSet<(RoundId, Id)> = BTreeSet::new();
            for (from, v) in taken.get(x).into_iter().flatten() {
                if let Some(r) = schema.rid(schema.part(v, N)) {
                    got.insert((r, *from));
                }
            }
            for (rid, ids) in &report.missing_messages {
                for id in ids {
                    if got.contains(&(rid.clone(), *id)) {
                        mon.bad("C11", format!("{who} reports the message of {id:?} for {rid:?} as missing, which it got; {text}"));
                        mon.bad("C10", format!("{who} reports the message of {id:?} for {rid:?} as missing, which it got; {text}"));
                    }
                }
            }
        }
        if name == "not enough messages" && case.slow == Some(*x) {
            mon.count("hopeless_with_slow_output");
        }
        // Everything was sent
        if !(victim && case.mode == Mode::CloseOut) {
            for (stage, dests) in &out {
                let num = scripts[stage.half as usize].rounds[stage.ri].num;
                let got = sent.get(&(*x, *stage));
                let entered = got.is_some()
                    || h.fin.contains_key(&(stage.half, num))
                    || h.made.keys().any(|k| !stage.echo && k.0 == (stage.half, num));
                if !entered {
                    continue;
                }
                mon.count("sent_sets_checked");
                let mut got = got.cloned().unwrap_or_default();
                got.sort();
                if got != dests.iter().copied().collect::<Vec<_>>() {
                    mon.bad("C11", format!("{who} in {stage:?} sent messages to {got:?} instead of {dests:?}; {text}"));
                }
            }
        }
        oracle::conservation(&scripts, *x, h, &mut sub);
    }
    if results.len() < n && mon.viol.is_empty() {
        mon.bad("C11", format!("only {:?} have finished; {text}", results.keys().collect::<Vec<_>>()));
    }
    for x in &ps {
        if case.mode != Mode::LocalFail {
            oracle::made_once(&scripts, *x, &hists[x], &mut mon);
        }
    }
    oracle::randomness(&sign_log, &hists, &mut mon);
    if case.mode == Mode::Honest {
        let parties: Vec<_> = results
            .iter()
            .map(|(x, f)| match &f.result {
                Ok(Ok(r)) => (*x, Some(r), String::new()),
                other => (*x, None, format!("{:?}", other.as_ref().err())),
            })
            .collect();
        oracle::perfect::<W, SP>(&scripts, &parties, &hists, &mut sub);
    }
    for (p, t) in &sub.viol {
        if p != "C12" {
            mon.bad("C11", format!("{t}; {text}"));
        }
        mon.viol.push((p.clone(), t.clone()));
    }
    sub.viol.clear();
    mon.merge(sub);
    // The interleaving as observed by the network
    let mut trace = 0;
    for w in wires.iter() {
        trace = mix(trace, w.from.0 as u64 * 1000 + w.to.0 as u64);
    }
    for (x, v) in taken.iter() {
        for (f, _) in v {
            trace = mix(trace, x.0 as u64 * 1000 + f.0 as u64);
        }
    }
    let mut lines = Vec::new();
    if debug {
        lines.push(text);
        for (x, f) in &results {
            lines.push(format!("{x:?} at_idle={} {}", f.at_idle, match &f.result {
                Ok(Ok(r)) => r.brief(),
                Ok(Err(e)) => format!("{e}"),
                Err(e) => e.clone(),
            }));
        }
    }
    Outcome { mon, trace, shape: trace, text: lines, traces: vec![] }
}

/// The development runner
fn dev_case<W: World, SP: Params>(seed: u64, _debug: bool) -> Outcome
where
    W::P: Send,
    W::EP: EntryPoint<Id> + Send,
    <W::P as Protocol<Id>>::Result: Send,
{
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let large = W::HALVES.len() == 1 && rng.gen_bool(0.06);
    let n = if large { rng.gen_range(102..120) } else { rng.gen_range(1..=7) };
    let ps = parties(n);
    let faulty = !large && n > 1 && rng.gen_bool(0.3);
    let scripts = if large {
        vec![uniform_script(n, &[*[1u8, 4].choose(&mut rng).unwrap()], 0)]
    } else {
        let o = GenOpts { force_echo: rng.gen_bool(0.4), ..GenOpts::default() };
        gen_world::<W>(&mut rng, &ps, &o)
    };
    let mut run = Run::new(scripts.clone());
    let corrupt = Id(rng.gen_range(1..=n as u32));
    if faulty {
        let f = pick_faults(&mut rng, &scripts, W::HALVES, corrupt);
        run.faults.insert(corrupt, f);
    }
    let run = Arc::new(run);
    let offload = rng.gen_bool(0.5);
    let text = format!("run_async {} {} n={n} offload {offload} faulty {faulty}", W::NAME, SP::NAME);
    *CURRENT.lock().unwrap() = text.clone();
    let mut mon = Mon { chain: W::HALVES.len() > 1, ..Mon::default() };
    // Sessions that lack messages from somebody who has stopped would wait forever
    if faulty {
        return Outcome { mon, ..Outcome::default() };
    }
    let eps: Vec<(Signer, W::EP)> = ps.iter().map(|x| (Signer::new(*x), W::entry(&run))).collect();
    let rt = if rng.gen_bool(0.5) {
        tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap()
    } else {
        tokio::runtime::Builder::new_multi_thread().worker_threads(rng.gen_range(1..=4)).enable_all().build().unwrap()
    };
    let res = rt.block_on(async { manul::dev::tokio::run_async::<W::EP, SP>(&mut rng, eps, offload).await });
    drop(rt);
    mon.count("cases");
    mon.count(if large { "run_async_large" } else { "run_async" });
    let log = run.take_log();
    let hists: BTreeMap<Id, oracle::Hist> = ps.iter().map(|x| (*x, oracle::hist(&log, *x))).collect();
    let mut sub = Mon::default();
    match &res {
        Err(e) => mon.bad("C11", format!("{text}: {e:?}")),
        Ok(r) => {
            let parties: Vec<_> = ps.iter().map(|x| (*x, r.reports.get(x), String::new())).collect();
            oracle::perfect::<W, SP>(&scripts, &parties, &hists, &mut sub);
        }
    }
    for x in &ps {
        oracle::made_once(&scripts, *x, &hists[x], &mut mon);
        oracle::conservation(&scripts, *x, &hists[x], &mut sub);
    }
    for (_, t) in &sub.viol {
        mon.bad("C11", format!("{t}; {text}"));
    }
    sub.viol.clear();
    mon.merge(sub);
    let mut trace = seed;
    for ev in &log {
        if let Ev::Recv { me, from, .. } = ev {
            trace = mix(trace, me.0 as u64 * 1000 + from.0 as u64);
        }
    }
    Outcome { mon, trace, shape: trace, ..Outcome::default() }
}

fn one(seed: u64, debug: bool) -> Outcome {
    let mut rng = ChaCha8Rng::seed_from_u64(seed ^ 0x1234);
    match rng.gen_range(0..12) {
        0..=3 => case::<Plain, Sp<Bin>>(seed, debug),
        4..=6 => case::<Plain, Sp<Json>>(seed, debug),
        7..=9 => case::<ChainW<15, 15>, Sp<Json>>(seed, debug),
        10 => dev_case::<Plain, Sp<Bin>>(seed, debug),
        _ => dev_case::<ChainW<15, 15>, Sp<Json>>(seed, debug),
    }
}

const BATCH: u64 = 12;

/// Runs a batch in a child process.
pub fn run(seed: u64, debug: bool) -> Outcome {
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.arg("async-child").arg(seed.to_string()).arg(BATCH.to_string());
    if debug {
        cmd.arg("debug");
    }
    let mut died = 0;
    let (out, text) = loop {
        let out = cmd.output().expect("a child process can be started");
        let text = String::from_utf8_lossy(&out.stdout).to_string();
        if std::os::unix::process::ExitStatusExt::signal(&out.status).is_none() || died == 2 {
            break (out, text);
        }
        died += 1;
    };
    let last = text.lines().rev().find(|l| l.starts_with('{'));
    if let (2, Some(k)) = (died, std::os::unix::process::ExitStatusExt::signal(&out.status)) {
        let mut o = Outcome { trace: seed, ..Outcome::default() };
        let errors = String::from_utf8_lossy(&out.stderr);
        o.mon.bad("C11", format!("the process was killed by signal {k} three times: {errors}"));
        return o;
    }
    let Some(v) = last.and_then(|l| serde_json::from_str::<Value>(l).ok()) else {
        panic!("the child process gave no answer ({:?}): {text} {}", out.status, String::from_utf8_lossy(&out.stderr));
    };
    let mut o = Outcome { trace: seed, ..Outcome::default() };
    for x in v["viol"].as_array().unwrap() {
        o.mon.viol.push((x[0].as_str().unwrap().into(), x[1].as_str().unwrap().into()));
    }
    for (k, x) in v["stats"].as_object().unwrap() {
        o.mon.add(k, x.as_u64().unwrap());
    }
    o.traces = v["traces"].as_array().unwrap().iter().filter_map(|x| x.as_u64()).collect();
    o.trace = o.traces.first().copied().unwrap_or(0);
    if debug {
        o.text = text.lines().filter(|l| !l.starts_with('{')).map(|x| x.to_string()).collect();
    }
    if !v["error"].is_null() {
        panic!("error in the child process: {}", v["error"]);
    }
    o
}

fn cpu_ticks_and_states(me: u64) -> Option<(u64, bool)> {
    let mut sum = 0;
    let mut asleep = true;
    for t in std::fs::read_dir("/proc/self/task").ok()? {
        let t = t.ok()?;
        let tid: u64 = t.file_name().to_str()?.parse().ok()?;
        if tid == me {
            continue;
        }
        let stat = std::fs::read_to_string(t.path().join("stat")).ok()?;
        let rest = &stat[stat.rfind(')')? + 2..];
        let f: Vec<&str> = rest.split(' ').collect();
        asleep &= f[0] == "S";
        sum += f[11].parse::<u64>().ok()? + f[12].parse::<u64>().ok()?;
        let status = std::fs::read_to_string(t.path().join("status")).ok()?;
        for l in status.lines() {
            if l.contains("ctxt_switches") {
                sum += l.split_whitespace().last()?.parse::<u64>().ok()?;
            }
        }
    }
    Some((sum, asleep))
}

static CASE: AtomicUsize = AtomicUsize::new(0);

pub fn child(seed: u64, count: u64, debug: bool) -> i32 {
    let total: Arc<Mutex<(Mon, Vec<u64>)>> = Arc::default();
    let print = |t: &(Mon, Vec<u64>), error: Option<String>| {
        println!("{}", json!({"viol": t.0.viol, "stats": t.0.stats, "traces": t.1, "error": error}));
    };
    {
        // Hang detection: all the threads are asleep and none has been scheduled for a long time,
        // while the workloads sleep for milliseconds only; or an incredible amount of processor time is consumed.
        let total = total.clone();
        std::thread::spawn(move || {
            let me = std::fs::read_link("/proc/thread-self").ok().and_then(|p| p.file_name()?.to_str()?.parse().ok()).unwrap_or(0);
            let mut last = (0, 0);
            let mut quiet = 0;
            let mut case_start = (0usize, 0u64);
            loop {
                std::thread::sleep(Duration::from_millis(200));
                let p = PROGRESS.load(Ordering::Relaxed);
                let Some((sum, asleep)) = cpu_ticks_and_states(me) else { continue };
                quiet = if asleep && last == (p, sum) { quiet + 1 } else { 0 };
                last = (p, sum);
                let k = CASE.load(Ordering::Relaxed);
                let cpu = cpu_time();
                if k != case_start.0 {
                    case_start = (k, cpu);
                }
                let busy = cpu - case_start.1 > 12_000;
                if quiet >= 25 || busy {
                    let mut t = total.lock().unwrap();
                    let what = if busy { "keeps running without finishing" } else { "deadlock: all threads are asleep" };
                    let text = format!("{what}: {}", CURRENT.lock().unwrap());
                    t.0.bad("C11", text);
                    println!("{}", json!({"viol": t.0.viol, "stats": t.0.stats, "traces": t.1, "error": null}));
                    std::process::exit(0);
                }
            }
        });
    }
    let start = std::time::Instant::now();
    for k in 0..count {
        if start.elapsed().as_secs() > 8 && !debug {
            break;
        }
        CASE.fetch_add(1, Ordering::Relaxed);
        let s = crate::check::hash64((seed, k));
        let res = std::panic::catch_unwind(|| one(s, debug));
        match res {
            Ok(mut o) => {
                crate::check::account(&mut o.mon);
                for l in &o.text {
                    println!("[{k}] {l}");
                }
                let mut t = total.lock().unwrap();
                t.1.push(o.trace);
                for x in o.mon.viol.iter() {
                    if debug {
                        println!("[{k}] {x:?}");
                    }
                }
                t.0.merge(o.mon);
            }
            Err(_) => {
                let t = total.lock().unwrap();
                print(&t, Some(format!("{} in {}", crate::check::last_panic(), CURRENT.lock().unwrap())));
                return 0;
            }
        }
    }
    print(&total.lock().unwrap(), None);
    0
}

/// In 1/100 of a second.
fn cpu_time() -> u64 {
    let Ok(stat) = std::fs::read_to_string("/proc/self/stat") else { return 0 };
    let Some(i) = stat.rfind(')') else { return 0 };
    let f: Vec<&str> = stat[i + 2..].split(' ').collect();
    f[11].parse::<u64>().unwrap_or(0) + f[12].parse::<u64>().unwrap_or(0)
}
