//! Running the checks: workload mixes per property, evidence, replays.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::scen::{self, Outcome, Profile};

pub type Unit = fn(u64, bool) -> Outcome;

fn sim_unit(p: Profile, chains: bool) -> impl Fn(u64, bool) -> Outcome {
    move |seed, debug| scen::dispatch(p, seed, chains, debug)
}

/// All the workloads by name.
pub fn run_unit(name: &str, seed: u64, debug: bool) -> Outcome {
    if let Some(p) = name.strip_prefix("sim-").and_then(Profile::parse) {
        return sim_unit(p, false)(seed, debug);
    }
    if let Some(p) = name.strip_prefix("chain-").and_then(Profile::parse) {
        return sim_unit(p, true)(seed, debug);
    }
    match crate::UNITS.iter().find(|u| u.0 == name) {
        Some(u) => (u.1)(seed, debug),
        None => panic!("no such workload: {name}"),
    }
}

pub struct Plan {
    /// Workloads with weights
    pub units: Vec<(&'static str, u32)>,
    /// A case is non-trivial for the property if it has any of these events...
    pub keys: Vec<&'static str>,
    /// ...in words
    pub rule: &'static str,
    /// Events that must have been observed in the run as a whole
    pub must: Vec<&'static str>,
}

const SIM_RULE: &str = "each case is a complete multi-party execution of a randomly generated protocol (rounds, message kinds, topology, echo roles, branching, chaining, wire format) under a seeded scheduler deciding every single API call, delivery, delay and (depending on the profile) fault; distinct = different hash of the action sequence and the protocol; non-trivial = the monitors of this property were exercised at least once: ";

pub fn plan(prop: &str) -> Option<Plan> {
    let p = |units: &[(&'static str, u32)], keys: &[&'static str], must: &[&'static str], rule: &'static str| {
        Some(Plan { units: units.to_vec(), keys: keys.to_vec(), must: must.to_vec(), rule })
    };
    match prop {
        "C01" => p(
            &[("sim-hostile", 4), ("sim-spoof", 4), ("sim-packs", 2), ("sim-honest", 1), ("sim-equivocate", 1), ("sid", 1)],
            &["forgeries_rejected", "receptions_checked"],
            &["forgeries_rejected", "receptions_checked", "other_round_messages", "session_ids_compared", "undeclared_parts"],
            "a forged or misplaced message was judged, or an accepted one compared with what was signed",
        ),
        "C02" => p(
            &[("sim-lossy", 3), ("sim-hostile", 3), ("sim-spoof", 2), ("sim-honest", 2), ("sim-content", 1)],
            &["finalizations_checked", "duplicates_seen"],
            &["finalizations_checked", "duplicates_seen", "receptions_checked"],
            "a finalization was compared with the messages processed, or a duplicate was delivered",
        ),
        "C03" => p(
            &[("sim-honest", 8), ("sim-lossy", 1), ("sim-hostile", 1)],
            &["perfect_results_checked"],
            &["perfect_results_checked", "other_round_messages"],
            "results of all parties were compared with the reference evaluation",
        ),
        "C04" => p(
            &[("sim-equivocate", 4), ("sim-packs", 4), ("sim-spoof", 1), ("sim-hostile", 1), ("sim-honest", 1)],
            &["echo_agreements_checked", "bad_packs_followed"],
            &["echo_agreements_checked", "bad_packs_followed"],
            "two honest parties passed the same echo stage, or a faulty echo was followed",
        ),
        "C05" => p(
            &[("sim-hostile", 3), ("sim-packs", 3), ("sim-equivocate", 2), ("sim-content", 2), ("sim-honest", 1), ("sim-lossy", 1)],
            &["provable_errors_checked", "unprovable_errors_checked"],
            &["provable_errors_checked", "unprovable_errors_checked", "echo_packs_judged"],
            "at least one error was reported and attributed",
        ),
        "C06" => p(
            &[("sim-content", 5), ("sim-equivocate", 2), ("sim-packs", 2), ("sim-hostile", 1)],
            &["evidence_verified"],
            &["evidence_verified", "evidence_round_trips", "shown_checked"],
            "at least one piece of evidence was produced and verified",
        ),
        "C07" => p(
            &[("evid", 8), ("fuzz", 1)],
            &["forgeries_against_honest_rejected"],
            &["forgeries_against_honest_rejected", "rejected_by_protocol_complete", "verifies_against_corrupt", "malformed_and_signed|documents_of_another_form", "coherent_claim|documents_of_another_form", "coherent_ref_previous|documents_of_another_form", "coherent_ref_this|documents_of_another_form", "coherent_content|documents_of_another_form", "genuine_evidence", "decoded Protocol|documents_of_another_form", "decoded InvalidDirectMessage|documents_of_another_form", "decoded InvalidEchoBroadcast|documents_of_another_form", "decoded InvalidNormalBroadcast|documents_of_another_form", "decoded InvalidEcho|documents_of_another_form", "decoded MismatchedBroadcasts|documents_of_another_form"],
            "=each case is a document of evidence assembled, in serialized form, from the material available to an adversary in complete executions of a randomly generated protocol (this session, another session of the same parties, another protocol of the same parties, parts published in reports): random combinations, transformations of genuine evidence, and coherent forgeries aimed at a given verification step, judged against the event log; distinct = different hash of the document and the protocol; non-trivial = documents of evidence against honest parties were judged",
        ),
        "C08" => p(
            &[("sim-hostile", 4), ("sim-spoof", 3), ("sim-packs", 2), ("sim-equivocate", 1), ("sim-content", 1)],
            &["hostile_deliveries"],
            &["hostile_deliveries", "preprocess_error", "malformed_messages"],
            "a hostile message was delivered to an honest party",
        ),
        "C09" => p(
            &[("sim-hostile", 3), ("sim-packs", 2), ("sim-content", 2), ("sim-equivocate", 2), ("sim-spoof", 2)],
            &["error_histories_checked"],
            &["error_histories_checked", "errors_recorded"],
            "an error was recorded and followed to the end of the session",
        ),
        "C10" => p(
            &[("sim-lossy", 3), ("sim-hostile", 2), ("sim-content", 2), ("sim-honest", 1), ("sim-packs", 1), ("sim-equivocate", 1)],
            &["verdicts_checked"],
            &["verdict_Yes", "verdict_NotYet", "verdict_Never", "ended_errors", "ended_terminate", "missing_messages_checked", "report_texts_checked"],
            "verdicts were compared with the model",
        ),
        "C11" => p(
            &[("async", 1)],
            &["returned_report", "run_async"],
            &["returned_report", "returned_error", "mode_Cancel", "mode_CloseIn", "mode_CloseOut", "mode_LocalFail", "mode_Faulty", "hopeless_with_slow_output", "mode_Honest_large", "mode_Cancel_large", "idle_terminations_checked", "runtime_multi_thread", "run_async"],
            "sessions were driven by the asynchronous runners (each case is a complete execution with its own channels, timing, runtime and interference; the traces are those of message deliveries)",
        ),
        "C12" => p(
            &[("chain-honest", 4), ("chain-lossy", 1), ("chain-content", 2), ("chain-hostile", 1), ("chain-equivocate", 1), ("chain-local", 1)],
            &["stages_entered"],
            &["perfect_results_checked", "evidence_verified"],
            "a chain of two or three protocols was executed",
        ),
        "C14" => p(
            &[("fuzz", 1)],
            &["round_trips"],
            &["round_trips message json", "round_trips message postcard", "round_trips message wire format", "round_trips evidence json", "round_trips evidence postcard", "round_trips evidence wire format", "damaged message decoded", "damaged evidence decoded", "duplicate_party_keys_tried", "duplicate_round_keys_tried", "duplicate_keys_rejected", "rich_messages_delivered", "executions_compared", "transported", "maps_decoded", "damaged evidence refuted"],
            "=each case is an object (message, evidence, identifier, map) from a complete execution of a randomly generated protocol or a protocol with arbitrary payload types, transferred through JSON text, a JSON document, Postcard and the wire format, or decoded from damaged data (bytes, structure, duplicated and truncated fields), or an execution with every message transferred in a serialized form compared with the one without; distinct = different hash of the object; non-trivial = at least one object was transferred or decoded",
        ),
        "C13" => p(
            &[("ext", 1)],
            &["reports_compared", "helper_verdicts_checked"],
            &["simulations_compared", "evidence_compared", "overrides_compared", "run_sync", "run_sync_local_failures", "delivery_pairs_checked", "missing_checked", "perfect_results_checked", "results_checked", "check_evidence_with_extension", "check_evidence_with_extensions", "extend_one", "helper verdict: accepted", "helper verdict: no errors", "helper verdict: several errors", "helper verdict: wrong party", "helper verdict: wrong description", "helper verdict: does not verify", "helper verdict: no target"],
            "=each case is one of: a complete simulated execution (random protocol, schedule and faults) of a protocol with extensions that override nothing, compared with the same execution of the plain protocol message by message, event by event and report by report; a run of the synchronous runner with extensions overriding some methods of some round types of one party, compared in the same way with a plain protocol doing the same on its own, with delivery order and completeness judged from the event log; or an execution (some with altered reports) handed to the evidence-checking helper, the verdict of which is compared with the documented one; distinct = different hash of the event sequence and the protocol; non-trivial = reports or verdicts were compared",
        ),
        "C16" => p(
            &[("sim-honest", 4), ("sim-lossy", 1), ("sim-content", 1), ("async", 1)],
            &["creations_checked"],
            &["creations_checked", "nonces_checked", "parties_parallel"],
            "message creation was observed",
        ),
        "C17" => p(
            &[("sim-local", 6), ("chain-local", 2), ("mistake", 4)],
            &["local_failures_injected", "mistakes_followed", "mistakes_under_run_sync"],
            &["local_failures_injected", "local_failures_reported", "terminated_after_failure", "mistake: omitted creation", "mistake: artifact without a message", "mistake: serialization", "mistake: signing", "mistake: error with available messages", "mistake: error with unavailable messages", "mistake: second artifact", "mistake: second message", "mistake: second message with an error", "mistake: undeclared successor", "mistake: undeclared continuation of a chain", "mistake: failing entry point", "mistake: none"],
            "=each case is a complete multi-party execution under a seeded scheduler, either of a randomly generated protocol with a failure injected into some method of some round of one party, or of a small protocol (or a chain of two) in which one party's implementation makes a mistake: omits the creation of declared messages, declares an artifact without a message, refuses serialization or signing, refers to unavailable messages in an error, hands over to an undeclared round, part of a chain or result, or has an artifact or a message added twice; distinct = different hash of the action sequence and the protocol; non-trivial = a failure was injected or a mistake followed to the ends of all parties",
        ),
        _ => None,
    }
}

thread_local! {
    /// (message, location)
    static LAST_PANIC: RefCell<(String, String)> = const { RefCell::new((String::new(), String::new())) };
}

pub fn install_hook() {
    let show = std::env::var("SHOW_PANICS").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let loc = i.location().map(|l| l.file().to_string()).unwrap_or_default();
        let text = format!("{i}");
        if show {
            eprintln!("{text}");
        }
        let _ = LAST_PANIC.try_with(|l| *l.borrow_mut() = (text, loc));
    }));
}

pub fn hash64(x: impl Hash) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|l| l.borrow().0.clone())
}

/// Everything handed over to the library in a finished execution must have been dropped, exactly once.
pub fn account(mon: &mut crate::sim::Mon) {
    let (n, problems) = crate::spec::account_objects();
    mon.add("objects_accounted", n);
    for p in problems {
        mon.bad("C15", p);
    }
    for (p, text) in crate::spec::take_noticed() {
        mon.bad(p, text);
    }
}

/// The properties that forbid a panic of the library driven by an honest party's own calls, a crash of the process
/// and a call that does not return, by workload.
pub fn crash_props(name: &str) -> &'static [&'static str] {
    match name {
        "ext" => &["C03", "C08", "C13"],
        "evid" => &["C07", "C08"],
        "fuzz" => &["C08", "C14"],
        "mistake" => &["C08", "C17"],
        "async" => &["C11"],
        "ub" => &["C15"],
        "sid" => &["C01"],
        _ if name.starts_with("chain") => &["C03", "C08", "C12"],
        _ if name.ends_with("local") => &["C03", "C08", "C17"],
        _ => &["C03", "C08"],
    }
}

/// A case that takes longer than that is taken for one that does not end (the usual time is milliseconds).
const STUCK: Duration = Duration::from_secs(120);

/// What the workers are doing, for those who watch them.
struct Slots {
    file: Option<std::fs::File>,
    now: Vec<Mutex<Option<(&'static str, u64, Instant)>>>,
}

const SLOT: usize = 64;

impl Slots {
    fn new(path: Option<&str>, threads: usize) -> Self {
        Self {
            file: path.and_then(|p| std::fs::File::create(p).ok()),
            now: (0..threads).map(|_| Mutex::new(None)).collect(),
        }
    }

    fn set(&self, k: usize, what: Option<(&'static str, u64)>) {
        use std::os::unix::fs::FileExt;
        *self.now[k].lock().unwrap() = what.map(|(u, s)| (u, s, Instant::now()));
        if let Some(f) = &self.file {
            let text = what.map(|(u, s)| format!("{u} {s}")).unwrap_or_default();
            let _ = f.write_all_at(format!("{text:<w$}\n", w = SLOT - 1).as_bytes(), (k * SLOT) as u64);
        }
    }

    fn stuck(&self) -> Option<(&'static str, u64)> {
        self.now.iter().find_map(|x| match *x.lock().unwrap() {
            Some((u, s, t)) if t.elapsed() > STUCK => Some((u, s)),
            _ => None,
        })
    }
}

struct Leaving<'a>(&'a AtomicUsize);

impl Drop for Leaving<'_> {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::Relaxed);
    }
}

fn report(prop: &str, replays: &str, unit: &str, seed: u64, texts: &[String]) {
    let path = format!("{replays}/{prop}-{unit}-{seed:016x}.json");
    let doc = json!({"property": prop, "workload": unit, "seed": seed, "violations": texts});
    let _ = std::fs::create_dir_all(replays);
    let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap());
    println!("VIOLATION property={prop} replay={path}");
    for x in texts.iter().take(3) {
        println!("  {x}");
    }
}

/// Runs this program with the given arguments (up to the time limit); Err - it was ended by a signal or the limit.
fn run_self(args: &[String], limit: Option<Duration>, quiet: bool) -> Result<i32, String> {
    use std::os::unix::process::ExitStatusExt;
    use std::process::{Command, Stdio};
    let mut c = Command::new(std::env::current_exe().expect("the program's own path is known"));
    c.args(args);
    if quiet {
        c.stdout(Stdio::null()).stderr(Stdio::null());
    }
    let mut child = c.spawn().expect("the program can be started");
    let start = Instant::now();
    loop {
        if let Some(st) = child.try_wait().expect("the child can be waited for") {
            return match (st.code(), st.signal()) {
                (Some(c), _) => Ok(c),
                (_, s) => Err(format!("ended by signal {}", s.unwrap_or(0))),
            };
        }
        if limit.is_some_and(|l| start.elapsed() > l) {
            let _ = child.kill();
            let _ = child.wait();
            return Err(format!("stopped: it did not end in {} s", start.elapsed().as_secs()));
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Runs the check in a process of its own; if that is ended by a signal, looks for the case that does it.
pub fn supervise(args: &[String], prop: &str, replays: &str) -> i32 {
    let state = std::env::temp_dir().join(format!("vp-state-{}", std::process::id()));
    let state = state.to_str().expect("the path is a string").to_string();
    let mut inner = vec!["check-inner".to_string()];
    inner.extend(args.iter().cloned());
    inner.extend(["--state".into(), state.clone()]);
    let res = run_self(&inner, None, false);
    let slots = std::fs::read_to_string(&state).unwrap_or_default();
    let _ = std::fs::remove_file(&state);
    let e = match res {
        Ok(code) => return code,
        Err(e) => e,
    };
    println!("the process was {e}");
    for line in slots.lines() {
        let mut x = line.split_whitespace();
        let (Some(unit), Some(seed)) = (x.next(), x.next().and_then(|s| s.parse::<u64>().ok())) else { continue };
        if !crash_props(unit).contains(&prop) {
            continue;
        }
        let again = ["run".to_string(), unit.to_string(), seed.to_string(), "1".to_string()];
        if let Err(e) = run_self(&again, Some(STUCK), true) {
            report(prop, replays, unit, seed, &[format!("the process executing this was {e}")]);
            return 1;
        }
    }
    2
}

/// Runs a workload; what escapes as a panic is either a violation (raised by the library when driven by an honest
/// party's own call) or an error of the harness.
pub fn run_guarded(name: &str, seed: u64, debug: bool) -> Result<Outcome, String> {
    crate::spec::account_objects();
    crate::spec::take_noticed();
    match std::panic::catch_unwind(|| run_unit(name, seed, debug)) {
        Ok(mut o) => {
            account(&mut o.mon);
            Ok(o)
        }
        Err(_) => {
            let (text, loc) = LAST_PANIC.with(|l| l.borrow().clone());
            if loc.contains("/repo/") || text.contains("probe:") {
                let mut o = Outcome::default();
                for p in crash_props(name) {
                    o.mon.bad(p, format!("unexpected failure in an honest execution: {text}"));
                }
                Ok(o)
            } else {
                Err(text)
            }
        }
    }
}

#[derive(Default)]
struct Total {
    evaluations: u64,
    stats: BTreeMap<String, u64>,
    distinct: HashSet<u64>,
    shapes: HashSet<u64>,
    per_unit: BTreeMap<String, u64>,
    violations: Vec<(String, u64, Vec<String>)>,
    other: BTreeMap<String, u64>,
    errors: Vec<String>,
    samples: Vec<Value>,
}

pub struct Args {
    pub prop: String,
    pub tier: String,
    pub seed: u64,
    pub secs: u64,
    pub out: String,
    pub replays: String,
    pub threads: usize,
    /// Additional facts to be put into the evidence
    pub extra: Option<Value>,
    /// Where to keep what the workers are doing
    pub state: Option<String>,
}

/// Returns the exit code.
pub fn check(a: &Args) -> i32 {
    let Some(plan) = plan(&a.prop) else {
        eprintln!("no plan for {}", a.prop);
        return 2;
    };
    let start = Instant::now();
    let total = Mutex::new(Total::default());
    let stop = AtomicBool::new(false);
    let next = AtomicUsize::new(0);
    let cycle: Vec<&'static str> = {
        // Interleaved proportionally to the weights
        let sum: u32 = plan.units.iter().map(|u| u.1).sum();
        let mut acc: Vec<f64> = plan.units.iter().map(|_| 0.0).collect();
        let mut res = Vec::new();
        for _ in 0..sum {
            for (x, u) in acc.iter_mut().zip(&plan.units) {
                *x += u.1 as f64 / sum as f64;
            }
            let k = (0..acc.len()).max_by(|i, j| acc[*i].total_cmp(&acc[*j])).unwrap();
            acc[k] -= 1.0;
            res.push(plan.units[k].0);
        }
        res
    };
    let limit = Duration::from_secs(a.secs);
    let slots = Slots::new(a.state.as_deref(), a.threads);
    let running = AtomicUsize::new(a.threads);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while running.load(Ordering::Relaxed) > 0 {
                std::thread::sleep(Duration::from_millis(20));
                let Some((unit, seed)) = slots.stuck() else { continue };
                // There is no way to stop the thread but to end the process
                let text = format!("an execution did not end in {} s", STUCK.as_secs());
                if crash_props(unit).contains(&a.prop.as_str()) {
                    report(&a.prop, &a.replays, unit, seed, &[text]);
                    std::process::exit(1);
                }
                println!("no answer: {text} ({unit} {seed})");
                std::process::exit(2);
            }
        });
        for me in 0..a.threads {
            let (slots, running, total, stop, next, cycle, plan) =
                (&slots, &running, &total, &stop, &next, &cycle, &plan);
            std::thread::Builder::new()
                .stack_size(32 << 20)
                .spawn_scoped(sc, move || {
                    let _end = Leaving(running);
                    let mut t = Total::default();
                    while !stop.load(Ordering::Relaxed) && start.elapsed() < limit {
                        let k = next.fetch_add(1, Ordering::Relaxed);
                        let unit = cycle[k % cycle.len()];
                        let seed = hash64((a.seed, unit, k / cycle.len(), k % cycle.len()));
                        slots.set(me, Some((unit, seed)));
                        let res = run_guarded(unit, seed, false);
                        slots.set(me, None);
                        match res {
                            Err(e) => {
                                if t.errors.len() < 5 {
                                    t.errors.push(format!("{unit} {seed}: {e}"));
                                }
                            }
                            Ok(o) => {
                                t.evaluations += o.mon.stats.get("cases").copied().unwrap_or(1);
                                *t.per_unit.entry(unit.to_string()).or_default() += 1;
                                let nontrivial =
                                    plan.keys.iter().any(|k| o.mon.stats.get(*k).is_some_and(|x| *x > 0));
                                if nontrivial {
                                    for x in &o.traces {
                                        t.distinct.insert(*x);
                                    }
                                    t.distinct.insert(o.trace);
                                    t.shapes.insert(o.shape);
                                    if t.samples.len() < 2 {
                                        t.samples.push(json!({"workload": unit, "seed": seed, "observed": o.mon.stats}));
                                    }
                                }
                                let mut mine = Vec::new();
                                for (p, text) in &o.mon.viol {
                                    if *p == a.prop {
                                        mine.push(text.clone());
                                    } else {
                                        *t.other.entry(p.clone()).or_default() += 1;
                                    }
                                }
                                for (k, v) in o.mon.stats {
                                    *t.stats.entry(k).or_default() += v;
                                }
                                if !mine.is_empty() {
                                    t.violations.push((unit.to_string(), seed, mine));
                                    stop.store(true, Ordering::Relaxed);
                                }
                            }
                        }
                    }
                    let mut g = total.lock().unwrap();
                    g.evaluations += t.evaluations;
                    g.distinct.extend(t.distinct);
                    g.shapes.extend(t.shapes);
                    for (k, v) in t.stats {
                        *g.stats.entry(k).or_default() += v;
                    }
                    for (k, v) in t.per_unit {
                        *g.per_unit.entry(k).or_default() += v;
                    }
                    for (k, v) in t.other {
                        *g.other.entry(k).or_default() += v;
                    }
                    g.violations.extend(t.violations);
                    g.errors.extend(t.errors);
                    g.samples.extend(t.samples);
                })
                .unwrap();
        }
    });
    let mut t = total.into_inner().unwrap();
    t.samples.truncate(5);
    let mut code = 0;
    let mut seen = BTreeSet::new();
    for (unit, seed, texts) in t.violations.iter().take(5) {
        if seen.insert((unit, seed)) {
            report(&a.prop, &a.replays, unit, *seed, texts);
            code = 1;
        }
    }
    for (p, n) in &t.other {
        println!("note: {n} violation(s) of {p} observed in passing");
    }
    for e in t.errors.iter().take(5) {
        println!("harness error: {e}");
    }
    let missing: Vec<&&str> = plan.must.iter().filter(|k| k.split('|').all(|k| t.stats.get(k).copied().unwrap_or(0) == 0)).collect();
    if code == 0 && !missing.is_empty() {
        println!("inconclusive: never observed {missing:?}");
        code = 2;
    }
    if code == 0 && !t.errors.is_empty() {
        println!("inconclusive: {} error(s) in the harness", t.errors.len());
        code = 2;
    }
    let rule = match plan.rule.strip_prefix('=') {
        Some(r) => r.to_string(),
        None => format!("{SIM_RULE}{}", plan.rule),
    };
    let mut coverage = json!({
        "evaluations": t.evaluations,
        "distinct_nontrivial": t.distinct.len(),
        "rule": rule,
        "samples": t.samples,
        "distinct_protocols": t.shapes.len(),
        "runs_per_workload": t.per_unit,
        "events_observed": t.stats,
        "violations_of_other_properties": t.other,
    });
    if let Some(Value::Object(x)) = &a.extra {
        for (k, v) in x {
            coverage[k] = v.clone();
        }
    }
    let doc = json!({
        "property": a.prop,
        "tier": a.tier,
        "seed": a.seed,
        "level": "exploration",
        "coverage": coverage,
        "assumptions": [
            "the signature scheme is an ideal one: only the holder's own signer can produce a signature valid for it",
            "collision resistance of the hash function",
            "the randomly generated protocols are representative of the protocols built on the library",
        ],
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": t.violations.len(),
    });
    if let Some(dir) = std::path::Path::new(&a.out).parent() {
        let _ = std::fs::create_dir_all(dir);
    }
    std::fs::write(&a.out, serde_json::to_string_pretty(&doc).unwrap()).expect("the evidence file is writable");
    println!(
        "{} {}: {} executions, {} distinct non-trivial, {:.1} s, exit {code}",
        a.prop,
        a.tier,
        t.evaluations,
        t.distinct.len(),
        start.elapsed().as_secs_f64()
    );
    code
}

pub fn replay(path: &str) -> i32 {
    match run_self(&["replay-inner".to_string(), path.to_string()], Some(STUCK), false) {
        Ok(code) => code,
        Err(e) => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
            println!("the process executing this was {e}");
            println!("VIOLATION property={} replay={path}", v["property"].as_str().unwrap());
            1
        }
    }
}

pub fn replay_inner(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
    let unit = v["workload"].as_str().unwrap();
    let seed = v["seed"].as_u64().unwrap();
    match run_guarded(unit, seed, true) {
        Err(e) => {
            println!("harness error: {e}");
            2
        }
        Ok(o) => {
            for x in &o.text {
                println!("{x}");
            }
            for (p, x) in &o.mon.viol {
                println!("{p}: {x}");
            }
            let prop = v["property"].as_str().unwrap();
            if o.mon.viol.iter().any(|x| x.0 == prop) {
                println!("VIOLATION property={prop} replay={path}");
                1
            } else {
                0
            }
        }
    }
}

/// Runs the workloads one after another in this thread, for the sanitizers and the interpreter: what the process is
/// doing is kept in the state file, the observations are printed at the end.
pub fn soak(units: &str, from: u64, secs: u64, max: u64, state: &str, traces: &str) -> i32 {
    let start = Instant::now();
    let units: Vec<&str> = units.split(',').collect();
    let mut t = Total::default();
    let mut mine = Vec::new();
    let mut k = 0;
    while k < max && start.elapsed().as_secs() < secs && mine.is_empty() {
        let unit = units[k as usize % units.len()];
        let seed = hash64((from, unit, k));
        let _ = std::fs::write(state, json!({"workload": unit, "seed": seed}).to_string());
        k += 1;
        match run_guarded(unit, seed, false) {
            Err(e) => t.errors.push(format!("{unit} {seed}: {e}")),
            Ok(mut o) => {
                if crate::ub::unaccounted() != 0 {
                    o.mon.bad("C15", "zero-sized objects were not dropped exactly once");
                }
                t.evaluations += o.mon.stats.get("cases").copied().unwrap_or(1);
                *t.per_unit.entry(unit.to_string()).or_default() += 1;
                if o.mon.stats.get("objects_accounted").is_some_and(|n| *n > 0) {
                    t.distinct.extend(o.traces.iter().copied().chain([o.trace]));
                }
                if t.samples.len() < 1 {
                    t.samples.push(json!({"workload": unit, "seed": seed, "observed": o.mon.stats}));
                }
                for (p, text) in &o.mon.viol {
                    if p == "C15" {
                        mine.push(json!({"workload": unit, "seed": seed, "text": text}));
                    } else {
                        *t.other.entry(p.clone()).or_default() += 1;
                    }
                }
                for (k, v) in o.mon.stats {
                    *t.stats.entry(k).or_default() += v;
                }
            }
        }
    }
    let doc = json!({
        "evaluations": t.evaluations,
        "distinct": t.distinct.len(),
        "runs_per_workload": t.per_unit,
        "events_observed": t.stats,
        "samples": t.samples,
        "violations": mine,
        "violations_of_other_properties": t.other,
        "errors": t.errors,
    });
    if !traces.is_empty() {
        let text: Vec<String> = t.distinct.iter().map(|x| format!("{x:x}")).collect();
        let _ = std::fs::write(traces, text.join("\n"));
    }
    println!("SOAK {doc}");
    0
}
