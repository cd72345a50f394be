//! Judging complete executions: offline checkers over the recorded event logs, and the reports.

use std::collections::{BTreeMap, BTreeSet};

use manul::session::{Evidence, SessionOutcome, SessionReport};

use crate::sim::*;
use crate::sp::*;
use crate::spec::*;

type Key = (u8, u8);

/// Everything a party was involved in, by (half, round number).
#[derive(Default)]
pub struct Hist {
    pub recv: BTreeMap<(Key, Id), Vec<(Parts, RecvOut)>>,
    pub made: BTreeMap<(Key, usize, Option<Id>), Vec<(Part, Option<u64>)>>,
    pub fin: BTreeMap<Key, Vec<(Vec<(Id, u64)>, Vec<(Id, Id, u64)>)>>,
    pub entry: Vec<(u8, Vec<u8>, Option<u64>)>,
}

pub fn hist(log: &[Ev], me: Id) -> Hist {
    let mut h = Hist::default();
    for ev in log {
        match ev {
            Ev::Entry { me: m, half, shared, input } if *m == me => h.entry.push((*half, shared.clone(), *input)),
            Ev::Made { me: m, half, num, kind, to, part, art } if *m == me => {
                h.made.entry(((*half, *num), *kind, *to)).or_default().push((part.clone(), *art))
            }
            Ev::Recv { me: m, half, num, from, parts, out } if *m == me => {
                h.recv.entry(((*half, *num), *from)).or_default().push((parts.clone(), out.clone()))
            }
            Ev::Fin { me: m, half, num, pays, arts, .. } if *m == me => {
                h.fin.entry((*half, *num)).or_default().push((pays.clone(), arts.clone()))
            }
            _ => {}
        }
    }
    h
}

/// What is expected from the run as a whole
#[derive(Clone, Debug, Default)]
pub struct Expect {
    /// All parties are honest, all messages are delivered once, nobody terminates anything
    pub perfect: bool,
}

pub fn judge<W: World, SP: Params>(sim: &mut Sim<W, SP>, expect: &Expect) {
    let mut mon = std::mem::take(&mut sim.mon);
    let honest: Vec<usize> = (0..sim.nodes.len()).filter(|i| sim.nodes[*i].honest).collect();
    let hists: BTreeMap<Id, Hist> = honest
        .iter()
        .map(|i| {
            let n = &sim.nodes[*i];
            (n.id, hist(&n.run.take_log(), n.id))
        })
        .collect();
    for i in &honest {
        let me = sim.nodes[*i].id;
        conservation(&sim.scripts, me, &hists[&me], &mut mon);
        reports(sim, *i, &hists, &mut mon);
        made_once(&sim.scripts, me, &hists[&me], &mut mon);
        local_failures(sim, *i, &mut mon);
    }
    echo_agreement(sim, &honest, &hists, &mut mon);
    if expect.perfect {
        let parties: Vec<_> =
            sim.nodes.iter().map(|n| (n.id, n.report.as_ref(), format!("{:?}", n.failure))).collect();
        perfect::<W, SP>(&sim.scripts, &parties, &hists, &mut mon);
    }
    randomness(&sim.sign_log, &hists, &mut mon);
    sim.mon = mon;
}

pub fn conservation(scripts: &[Script], me: Id, h: &Hist, mon: &mut Mon) {
    for ((key, from), r) in &h.recv {
        if r.len() > 1 {
            mon.bad("C02", format!("{me:?} processed {} messages from {from:?} for the round {key:?}", r.len()));
        }
        mon.count("processed_by_rounds");
    }
    for (key, fins) in &h.fin {
        let script = &scripts[key.0 as usize];
        let spec = &script.by_num(key.1).unwrap().per[&me];
        if fins.len() > 1 {
            mon.bad("C02", format!("{me:?} finalized the round {key:?} {} times", fins.len()));
        }
        mon.count("finalizations_checked");
        for (pays, arts) in fins {
            let got: BTreeMap<Id, u64> = pays.iter().copied().collect();
            let want: BTreeMap<Id, Option<u64>> = spec
                .expects
                .iter()
                .map(|f| {
                    let u = h.recv.get(&(*key, *f)).and_then(|r| {
                        r.iter().find_map(|(_, o)| if let RecvOut::Ok(u) = o { Some(*u) } else { None })
                    });
                    (*f, u)
                })
                .collect();
            if got.len() != pays.len()
                || got.len() != want.len()
                || want.iter().any(|(f, u)| got.get(f).copied() != *u || u.is_none())
            {
                mon.bad("C02", format!("{me:?} finalized {key:?} with the payloads {got:?}; expected {want:?}"));
            }
            let want: BTreeSet<(Id, Id, Option<u64>)> = if combo_has(key.1, D) {
                spec.dests
                    .iter()
                    .map(|d| {
                        let a = h.made.get(&(*key, D, Some(*d))).and_then(|m| m[0].1);
                        (*d, *d, a)
                    })
                    .collect()
            } else {
                BTreeSet::new()
            };
            let got: BTreeSet<(Id, Id, Option<u64>)> = arts.iter().map(|(a, b, c)| (*a, *b, Some(*c))).collect();
            if got != want {
                mon.bad("C02", format!("{me:?} finalized {key:?} with the artifacts {got:?}; expected {want:?}"));
            }
        }
    }
}

pub fn made_once(scripts: &[Script], me: Id, h: &Hist, mon: &mut Mon) {
    for ((key, kind, to), m) in &h.made {
        mon.count("creations_checked");
        if m.len() != 1 {
            mon.bad("C16", format!("{me:?} created the message of kind {kind} for {to:?} in {key:?} {} times", m.len()));
        }
        let spec = &scripts[key.0 as usize].by_num(key.1).unwrap().per[&me];
        if spec.dests.is_empty() {
            mon.bad("C16", format!("{me:?} created a message of kind {kind} in {key:?}, though it does not send anything"));
        }
        if let Some(to) = to {
            if !spec.dests.contains(to) {
                mon.bad("C16", format!("{me:?} created a message for {to:?} in {key:?}, which is not a destination"));
            }
        }
    }
}

pub fn randomness(log: &SignLog, hists: &BTreeMap<Id, Hist>, mon: &mut Mon) {
    let log = log.lock().unwrap();
    let mut seen = BTreeSet::new();
    for (id, nonce) in log.iter() {
        mon.count("nonces_checked");
        if !seen.insert(nonce) {
            mon.bad("C16", format!("{id:?} reused the randomness when signing"));
        }
    }
    for (id, h) in hists {
        let mut seen = BTreeSet::new();
        for ((key, kind, to), m) in &h.made {
            for (p, _) in m {
                if !seen.insert(p.uniq) {
                    mon.bad("C16", format!("{id:?} reused the randomness in a message of kind {kind} to {to:?} in {key:?}"));
                }
            }
        }
    }
}

fn local_failures<W: World, SP: Params>(sim: &Sim<W, SP>, i: usize, mon: &mut Mon) {
    let node = &sim.nodes[i];
    if node.run.local_faults.is_empty() {
        return;
    }
    let injected: Vec<(u8, u8, Method)> = node
        .run
        .take_log()
        .iter()
        .filter_map(|e| match e {
            Ev::Injected { me, half, num, method } if *me == node.id => Some((*half, *num, *method)),
            _ => None,
        })
        .collect();
    if let Some((half, num, m)) = injected.first() {
        mon.count("local_failures_injected");
        if node.failure.is_none() && !(*m == Method::Receive && node.ended() == Some("terminate")) {
            mon.bad("C17", format!("{:?}: the failure of {m:?} in {half}/{num} has not surfaced", node.id));
        }
        if node.report.as_ref().is_some_and(|r| matches!(r.outcome, SessionOutcome::Result(_))) {
            mon.bad("C17", format!("{:?} produced a result in spite of the failure of {m:?} in {half}/{num}", node.id));
        }
    }
    if let Some(r) = &node.report {
        for k in r.provable_errors.keys().chain(r.unprovable_errors.keys()) {
            if sim.honest.contains(k) && !node.tainted.contains(k) {
                mon.bad("C17", format!("{:?} holds {k:?} responsible, though there were only local failures", node.id));
            }
        }
    }
}

fn echo_agreement<W: World, SP: Params>(
    sim: &Sim<W, SP>,
    honest: &[usize],
    hists: &BTreeMap<Id, Hist>,
    mon: &mut Mon,
) {
    for h in W::HALVES {
        for spec in &sim.scripts[*h as usize].rounds {
            let key = (*h, spec.num);
            if !combo_has(spec.num, E) {
                continue;
            }
            for i in honest {
                let a = sim.nodes[*i].id;
                if !spec.per.contains_key(&a) || !hists[&a].fin.contains_key(&key) {
                    continue;
                }
                let Some(peers) = echo_peers(spec, a) else { continue };
                for b in peers {
                    if b <= a || !hists.contains_key(&b) || !hists[&b].fin.contains_key(&key) {
                        continue;
                    }
                    if !echo_peers(spec, b).is_some_and(|p| p.contains(&a)) {
                        continue;
                    }
                    for s in spec.per[&a].expects.intersection(&spec.per[&b].expects) {
                        let of = |x: Id| {
                            hists[&x].recv.get(&(key, *s)).and_then(|r| {
                                r.iter().find_map(|(p, o)| if let RecvOut::Ok(_) = o { p[E].clone() } else { None })
                            })
                        };
                        mon.count("echo_agreements_checked");
                        if of(a) != of(b) {
                            mon.bad(
                                "C04",
                                format!("{a:?} and {b:?} passed the echo stage of {key:?} with different broadcasts of {s:?}: {:?} and {:?}", of(a), of(b)),
                            );
                        }
                    }
                }
            }
        }
    }
    for i in honest {
        let node = &sim.nodes[*i];
        for (stage, culprits) in &node.bad_packs {
            let num = sim.scripts[stage.half as usize].rounds[stage.ri].num;
            mon.count("bad_packs_followed");
            if hists[&node.id].fin.contains_key(&(stage.half, num)) {
                mon.bad("C04", format!("{:?} passed the stage {stage:?} after a faulty echo (culprits {culprits:?})", node.id));
            }
            if let Some(r) = &node.report {
                if !culprits.iter().any(|c| r.provable_errors.contains_key(c) || r.unprovable_errors.contains_key(c)) {
                    mon.bad("C04", format!("{:?} does not report any of {culprits:?} after a faulty echo in {stage:?}", node.id));
                }
            }
        }
    }
}

fn reports<W: World, SP: Params>(sim: &Sim<W, SP>, i: usize, hists: &BTreeMap<Id, Hist>, mon: &mut Mon) {
    let node = &sim.nodes[i];
    let me = node.id;
    let Some(report) = &node.report else { return };
    mon.count("reports_checked");
    // Attribution
    for (k, e) in &report.provable_errors {
        mon.count("provable_errors_checked");
        if e.guilty_party() != k {
            mon.bad("C05", format!("{me:?} filed the evidence against {:?} under {k:?}: {}", e.guilty_party(), e.description()));
        }
        let g = e.guilty_party();
        for x in [k, g] {
            if sim.honest.contains(x) && !node.tainted.contains(x) && node.run.local_faults.is_empty() {
                mon.bad("C05", format!("{me:?} reports honest {x:?}: {}", e.description()));
            }
        }
    }
    for (k, e) in &report.unprovable_errors {
        mon.count("unprovable_errors_checked");
        if sim.honest.contains(k) && !node.tainted.contains(k) && node.run.local_faults.is_empty() {
            mon.bad("C05", format!("{me:?} reports honest {k:?}: {e}"));
        }
    }
    // Persistence of errors
    for (k, recs) in &node.errs {
        mon.count("error_histories_checked");
        let p = report.provable_errors.get(k);
        let u = report.unprovable_errors.get(k);
        if p.is_none() && u.is_none() {
            mon.bad("C09", format!("{me:?}: the error(s) of {k:?} are not in the report: {recs:?}"));
            if node.unrec.contains(k) {
                mon.bad("C01", format!("{me:?}: the inauthentic message of {k:?} is not in the report"));
            }
        }
        let first_unprovable = recs.iter().find(|r| matches!(r, ErrRec::Unprovable(_)));
        let uncertain = recs.iter().any(|r| matches!(r, ErrRec::Some));
        match (first_unprovable, u) {
            (Some(_), None) => {
                mon.bad("C09", format!("{me:?}: the unprovable error of {k:?} disappeared: {recs:?}"))
            }
            (Some(ErrRec::Unprovable(Some(t))), Some(u)) if !uncertain => {
                let u = u.to_string();
                if !u.contains(t.as_str()) {
                    mon.bad("C09", format!("{me:?}: the unprovable error of {k:?} was {t:?}, reported is {u:?}"));
                }
            }
            _ => {}
        }
        let first_provable = recs.iter().find(|r| matches!(r, ErrRec::Protocol(_) | ErrRec::Provable));
        match (first_provable, p) {
            (Some(_), None) => mon.bad("C09", format!("{me:?}: the provable error of {k:?} disappeared: {recs:?}")),
            (Some(ErrRec::Protocol(b)), Some(p)) if !uncertain => {
                let text = format!("{:?}", b.why);
                if !p.description().contains(&text) {
                    mon.bad("C09", format!("{me:?}: the provable error of {k:?} was {text:?}, reported is {:?}", p.description()));
                }
            }
            _ => {}
        }
    }
    // Outcome
    let name = outcome_name::<W, SP>(report);
    let want = match node.ended() {
        Some("errors") => "not enough messages",
        Some("terminate") => "terminated",
        _ => "result",
    };
    if name != want {
        mon.bad("C10", format!("{me:?}: the outcome is \"{name}\" instead of \"{want}\""));
    }
    if let (SessionOutcome::Result(r), Some("finished")) = (&report.outcome, node.ended()) {
        if r.me != me {
            mon.bad("C10", format!("{me:?}: got somebody else's result"));
        }
    }
    // Missing messages
    for seen in &node.stages {
        let missing = report.missing_messages.get(&seen.rid).cloned().unwrap_or_default();
        mon.count("missing_messages_checked");
        let must: Vec<Id> = seen.expects.difference(&seen.delivered).copied().collect();
        for x in must {
            if !missing.contains(&x) {
                mon.bad("C10", format!("{me:?} in {:?}: nothing was delivered from {x:?}, but it is not in the missing list {missing:?}", seen.rid));
            }
        }
        for x in &missing {
            if seen.done.contains(x) {
                mon.bad("C10", format!("{me:?} in {:?}: the message from {x:?} was processed, but it is in the missing list", seen.rid));
            }
            if !seen.expects.contains(x) {
                mon.bad("C10", format!("{me:?} in {:?}: unexpected party {x:?} in the missing list", seen.rid));
            }
        }
    }
    for rid in report.missing_messages.keys() {
        if !node.stages.iter().any(|s| s.rid == *rid) {
            mon.bad("C10", format!("{me:?}: missing messages reported for {rid:?} which was not executed"));
        }
    }
    brief::<W, SP>(me, report, mon);
    evidence(sim, i, hists, mon);
}

/// The text given to the user has to tell everything the report does.
pub fn brief<W: World, SP: Params>(me: Id, report: &Report<W, SP>, mon: &mut Mon) {
    let text = report.brief();
    let outcome = report.outcome.brief();
    let low = outcome.to_lowercase();
    mon.count("report_texts_checked");
    // As words: "P1" is not in "P10"
    let has = |t: &str| {
        text.match_indices(t).any(|(at, m)| {
            let next = text[at + m.len()..].chars().next();
            !(next.is_some_and(|c| c.is_ascii_digit()) && m.ends_with(|c: char| c.is_ascii_digit()))
        })
    };
    let fits = match &report.outcome {
        SessionOutcome::Result(r) => outcome.contains(&format!("{r:?}")),
        SessionOutcome::NotEnoughMessages => low.contains("not enough"),
        SessionOutcome::Terminated => low.contains("terminated") && !low.contains("not enough"),
    };
    if !fits || !text.contains(&outcome) {
        mon.bad("C10", format!("{me:?}: the outcome does not follow from the report's text: {text:?}"));
    }
    for (k, e) in &report.provable_errors {
        if !has(&format!("{k:?}")) || !text.contains(&e.description()) {
            mon.bad("C10", format!("{me:?}: the provable error of {k:?} ({}) is not in the report's text: {text:?}", e.description()));
        }
    }
    for (k, e) in &report.unprovable_errors {
        if !has(&format!("{k:?}")) || !text.contains(&e.to_string()) {
            mon.bad("C10", format!("{me:?}: the unprovable error of {k:?} ({e}) is not in the report's text: {text:?}"));
        }
    }
    for (rid, list) in &report.missing_messages {
        for k in list {
            if !has(&format!("{k:?}")) {
                mon.bad("C10", format!("{me:?}: {k:?} missing in {rid:?} is not in the report's text: {text:?}"));
            }
        }
    }
}

/// Verifies the evidence from the node's report.
fn evidence<W: World, SP: Params>(sim: &Sim<W, SP>, i: usize, hists: &BTreeMap<Id, Hist>, mon: &mut Mon) {
    let node = &sim.nodes[i];
    let me = node.id;
    let report = node.report.as_ref().unwrap();
    let shared = W::shared(&node.run);
    for (k, e) in &report.provable_errors {
        let from = node.run.log_len();
        let res = guard_any(|| e.verify(&shared));
        mon.count("evidence_verified");
        let describe = || format!("{me:?} against {k:?} ({})", e.description());
        match res {
            Err(p) => {
                mon.bad("C06", format!("evidence of {}: verification panicked: {p}", describe()));
                mon.bad("C07", format!("evidence of {}: verification panicked: {p}", describe()));
            }
            Ok(Err(err)) => mon.bad("C06", format!("evidence of {}: does not verify: {err:?}", describe())),
            Ok(Ok(())) => {}
        }
        let log: Vec<Ev> = node.run.take_log()[from..].to_vec();
        let expected = node.errs.get(k).and_then(|r| {
            r.iter().find_map(|x| match x {
                ErrRec::Protocol(b) => Some(Some(b.clone())),
                ErrRec::Provable => Some(None),
                _ => None,
            })
        });
        let shown: Vec<&Shown> = log.iter().filter_map(|e| if let Ev::Shown(s) = e { Some(&**s) } else { None }).collect();
        if let Some(Some(_)) = expected {
            if shown.is_empty() {
                mon.bad("C06", format!("evidence of {}: the protocol was not consulted", describe()));
            }
        }
        for s in shown {
            check_shown(sim, i, *k, s, expected.as_ref().and_then(|x| x.as_ref()), &hists[&me], mon);
        }
        // Transfer
        round_trip::<W, SP>(e, &shared, &describe(), mon);
    }
}

pub fn guard_any<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(panic_text)
}

fn round_trip<W: World, SP: Params>(
    e: &Evidence<W::P, SP>,
    shared: &<W::P as manul::protocol::Protocol<Id>>::SharedData,
    what: &str,
    mon: &mut Mon,
) {
    let direct = guard_any(|| e.verify(shared).is_ok()).unwrap_or(false);
    let mut check = |name: &str, back: Result<Evidence<W::P, SP>, String>, again: &dyn Fn(&Evidence<W::P, SP>) -> bool| {
        mon.count("evidence_round_trips");
        match back {
            Err(err) => {
                for p in ["C06", "C14"] {
                    mon.bad(p, format!("evidence of {what}: cannot be restored from {name}: {err}"));
                }
            }
            Ok(b) => {
                if b.guilty_party() != e.guilty_party() || b.description() != e.description() {
                    for p in ["C06", "C14"] {
                        mon.bad(p, format!("evidence of {what}: changed after the transfer in {name}"));
                    }
                }
                if guard_any(|| b.verify(shared).is_ok()).unwrap_or(false) != direct {
                    for p in ["C06", "C14"] {
                        mon.bad(p, format!("evidence of {what}: verifies differently after the transfer in {name}"));
                    }
                }
                if !again(&b) {
                    mon.bad("C14", format!("evidence of {what}: serialized differently after the transfer in {name}"));
                }
            }
        }
    };
    match guard_any(|| serde_json::to_string(e)) {
        Ok(Ok(text)) => {
            let back = guard_any(|| serde_json::from_str(&text)).and_then(|x| x.map_err(|e| e.to_string()));
            check("json", back, &|b| serde_json::to_string(b).ok().as_ref() == Some(&text));
        }
        _ => check("json", Err("cannot be serialized".into()), &|_| true),
    }
    match guard_any(|| ser::<SP, _>(&e)) {
        Ok(bytes) => {
            let back = guard_any(|| de::<SP, Evidence<W::P, SP>>(&bytes)).and_then(|x| x);
            check("the wire format", back, &|b| ser::<SP, _>(&b) == bytes);
        }
        _ => check("the wire format", Err("cannot be serialized".into()), &|_| true),
    }
    match guard_any(|| postcard::to_allocvec(e)) {
        Ok(Ok(bytes)) => {
            let back = guard_any(|| postcard::from_bytes(&bytes)).and_then(|x| x.map_err(|e| e.to_string()));
            check("postcard", back, &|b| postcard::to_allocvec(b).ok().as_ref() == Some(&bytes));
        }
        _ => check("postcard", Err("cannot be serialized".into()), &|_| true),
    }
}

fn check_shown<W: World, SP: Params>(
    sim: &Sim<W, SP>,
    i: usize,
    guilty: Id,
    s: &Shown,
    expected: Option<&ErrBody>,
    h: &Hist,
    mon: &mut Mon,
) {
    let node = &sim.nodes[i];
    let me = node.id;
    mon.count("shown_checked");
    let mut bad = |what: String| {
        mon.bad("C06", format!("{me:?} against {guilty:?} ({:?}): the protocol was shown {what}", s.body.why));
    };
    if s.from != guilty {
        bad(format!("the party {:?}", s.from));
    }
    if s.run != node.run.id {
        bad("other shared data".into());
    }
    if let Some(e) = expected {
        if *e != s.body {
            bad(format!("the error {:?} instead of {e:?}", s.body));
        }
    }
    if h.entry.first().map(|x| &x.1) != Some(&s.shared) {
        bad(format!("the randomness {:?}", s.shared));
    }
    for e in &s.errors {
        bad(format!("an error instead of a message: {e}"));
    }
    let Some(num) = s.round else {
        bad("no valid round".into());
        return;
    };
    let this = h.recv.get(&((s.half, num), guilty)).and_then(|r| {
        r.iter().find(|(_, o)| matches!(o, RecvOut::Provable(b) if *b == s.body)).map(|x| x.0.clone())
    });
    match this {
        None => bad(format!("the round {}/{num} where no such error has occurred", s.half)),
        Some(parts) => {
            for k in 0..3 {
                if s.body.this[k] && s.this[k] != parts[k] {
                    bad(format!("{:?} instead of {:?}", s.this[k], parts[k]));
                }
            }
        }
    }
    for (prev, shown) in &s.prev {
        let need = s.body.prev.iter().find(|x| x.0 == *prev).map(|x| x.1).unwrap_or_default();
        let want = h
            .recv
            .get(&((s.half, *prev), guilty))
            .and_then(|r| r.iter().find(|(_, o)| matches!(o, RecvOut::Ok(_))).map(|x| x.0.clone()))
            .unwrap_or_default();
        for k in 0..3 {
            if need[k] && shown[k] != want[k] {
                bad(format!("previous {:?} instead of {:?}", shown[k], want[k]));
            }
        }
    }
    for (prev, shown) in &s.echos {
        let spec = sim.scripts[s.half as usize].by_num(*prev).unwrap();
        let mut keys = spec.per[&me].expects.clone();
        if matches!(spec.per[&me].echo, EchoRole::Default) {
            keys.insert(me);
        }
        keys.remove(&guilty);
        let mut want: BTreeMap<Id, Option<Part>> = BTreeMap::new();
        for k in keys {
            let p = if k == me {
                h.made.get(&((s.half, *prev), E, None)).map(|m| m[0].0.clone())
            } else {
                h.recv.get(&((s.half, *prev), k)).and_then(|r| {
                    r.iter().find_map(|(p, o)| if matches!(o, RecvOut::Ok(_)) { p[E].clone() } else { None })
                })
            };
            want.insert(k, p);
        }
        let shown: BTreeMap<Id, Option<Part>> = shown.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
        if shown != want {
            bad(format!("combined echos {shown:?} instead of {want:?}"));
        }
    }
}

/// All the parties are honest and everything was delivered once.
pub fn perfect<W: World, SP: Params>(
    scripts: &[Script],
    parties: &[(Id, Option<&SessionReport<W::P, SP>>, String)],
    hists: &BTreeMap<Id, Hist>,
    mon: &mut Mon,
) {
    let shared = hists.values().next().and_then(|h| h.entry.first()).map(|x| x.1.clone());
    for (me, report, failure) in parties {
        let me = *me;
        mon.count("perfect_parties_checked");
        let Some(r) = report else {
            mon.bad("C03", format!("{me:?} has no report: {failure}"));
            continue;
        };
        let SessionOutcome::Result(result) = &r.outcome else {
            mon.bad("C03", format!("{me:?} has not finished: {}", r.brief()));
            continue;
        };
        if !r.provable_errors.is_empty() || !r.unprovable_errors.is_empty() || !r.missing_messages.is_empty() {
            mon.bad("C03", format!("{me:?} has reported errors among honest parties: {}", r.brief()));
        }
        for (half, sh, _) in &hists[&me].entry {
            if Some(sh) != shared.as_ref() {
                mon.bad("C03", format!("{me:?}: different shared randomness in the part {half}"));
            }
        }
        let halves: Vec<u8> = hists[&me].entry.iter().map(|x| x.0).collect();
        if halves != W::HALVES {
            mon.bad("C03", format!("{me:?}: started the protocols {halves:?} instead of {:?}", W::HALVES));
        }
        let mut cur = Some(result);
        for (k, half) in W::HALVES.iter().enumerate().rev() {
            let Some(res) = cur else {
                mon.bad("C03", format!("{me:?}: the result does not include the part {half}"));
                break;
            };
            let inputs: Vec<Option<u64>> = hists[&me].entry.iter().filter(|x| x.0 == *half).map(|x| x.2).collect();
            if inputs != vec![res.input.as_ref().map(|x| x.uniq)] || (k == 0) != res.input.is_none() {
                mon.bad("C03", format!("{me:?}: the part {half} was started with {inputs:?}"));
            }
            let want = determined(scripts, *half, me, hists);
            if res.half != *half || res.me != me || Some(&res.shared) != shared.as_ref() {
                mon.bad("C03", format!("{me:?}: the result of the part {half} has wrong context"));
            }
            let recs: BTreeMap<(u8, Id), Parts> = res.recs.iter().map(|x| ((x.0, x.1), x.2.clone())).collect();
            let sent: BTreeMap<(u8, Id), u64> = res.sent.iter().map(|x| ((x.0, x.1), x.2)).collect();
            if (&recs, &sent) != (&want.0, &want.1) {
                mon.bad("C03", format!("{me:?}: the result of the part {half} is {recs:?} {sent:?} instead of {want:?}"));
            }
            cur = res.input.as_deref();
        }
        mon.count("perfect_results_checked");
    }
}

type Determined = (BTreeMap<(u8, Id), Parts>, BTreeMap<(u8, Id), u64>);

fn determined(scripts: &[Script], half: u8, me: Id, hists: &BTreeMap<Id, Hist>) -> Determined {
    let script = &scripts[half as usize];
    let mut recs = BTreeMap::new();
    let mut sent = BTreeMap::new();
    let made = |who: Id, num: u8, kind: usize, to: Option<Id>| {
        hists[&who].made.get(&((half, num), kind, to)).map(|m| m[0].0.clone())
    };
    for ri in script.path(me) {
        let r = &script.rounds[ri];
        for f in &r.per[&me].expects {
            let p = [made(*f, r.num, D, Some(me)), made(*f, r.num, E, None), made(*f, r.num, N, None)];
            recs.insert((r.num, *f), p);
        }
        if combo_has(r.num, D) {
            for d in &r.per[&me].dests {
                if let Some(p) = made(me, r.num, D, Some(*d)) {
                    sent.insert((r.num, *d), p.uniq);
                }
            }
        }
    }
    (recs, sent)
}
