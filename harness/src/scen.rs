//! Scenarios: complete randomized executions with a given kind of misbehaviour or failures.

use std::collections::BTreeSet;
use std::hash::{Hash, Hasher};
use std::sync::Arc;

use manul::session::SessionId;
use rand::seq::SliceRandom;
use rand::Rng;
use crate::light::ChaCha8Rng;
use rand_core::SeedableRng;

use crate::adv::*;
use crate::gen::*;
use crate::oracle;
use crate::sim::*;
use crate::sp::*;
use crate::spec::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Profile {
    /// Everybody is honest, everything is delivered once
    Honest,
    /// Everybody is honest, messages can be lost, sessions terminated
    Lossy,
    /// Provable and unprovable faults in the contents
    Content,
    /// Different contents for different receivers
    Equivocate,
    /// Arbitrary messages from corrupt parties and strangers
    Hostile,
    /// As above, also under the names of honest parties
    Spoof,
    /// Altered echo packs
    Packs,
    /// Local failures
    Local,
}

pub const PROFILES: [Profile; 8] = [
    Profile::Honest,
    Profile::Lossy,
    Profile::Content,
    Profile::Equivocate,
    Profile::Hostile,
    Profile::Spoof,
    Profile::Packs,
    Profile::Local,
];

impl Profile {
    pub fn name(&self) -> String {
        format!("{self:?}").to_lowercase()
    }
    pub fn parse(s: &str) -> Option<Profile> {
        PROFILES.into_iter().find(|p| p.name() == s)
    }
}

#[derive(Default)]
pub struct Outcome {
    pub mon: Mon,
    pub trace: u64,
    pub shape: u64,
    pub text: Vec<String>,
    /// Additional distinct cases
    pub traces: Vec<u64>,
}

thread_local! {
    /// How messages are transferred (see `SchedOpts`)
    pub static TRANSPORT: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
    /// The round types which are extended (without changing anything)
    pub static EXT_TYPES: std::cell::Cell<u8> = const { std::cell::Cell::new(0) };
}

fn hash_of(x: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

pub fn pick_faults(rng: &mut impl Rng, scripts: &[Script], halves: &[u8], me: Id) -> Vec<(u8, u8, Fault)> {
    let mut options = Vec::new();
    for h in halves {
        let s = &scripts[*h as usize];
        for ri in s.path(me) {
            let r = &s.rounds[ri];
            for k in [D, E, N] {
                if !combo_has(r.num, k) {
                    continue;
                }
                for f in 1..=3u8 {
                    options.push((*h, r.num, Fault::Content(k, f)));
                }
                for prev in &r.refs {
                    for pk in [D, E, N] {
                        if combo_has(*prev, pk) && (k == D || pk != D) {
                            options.push((*h, r.num, Fault::BadRef(k, *prev, pk as u8)));
                            options.push((*h, r.num, Fault::BadRef(k, *prev, pk as u8)));
                        }
                    }
                }
                for prev in &r.claims {
                    for _ in 0..3 {
                        options.push((*h, r.num, Fault::BadClaim(k, *prev)));
                    }
                }
            }
        }
    }
    // Claims about the messages of others take more to be reached
    let claims: Vec<_> = options.iter().filter(|o| matches!(o.2, Fault::BadClaim(..))).copied().collect();
    if !claims.is_empty() && rng.gen_bool(0.4) {
        return vec![*claims.choose(rng).unwrap()];
    }
    let mut res = Vec::new();
    for _ in 0..rng.gen_range(1..=2) {
        if let Some(o) = options.choose(rng) {
            res.push(*o);
        }
    }
    res
}

/// A finished execution.
pub struct Done<W: World, SP: Params> {
    pub sim: Sim<W, SP>,
    pub adv: Adv,
    pub corrupt: BTreeSet<Id>,
    pub shape: u64,
    pub perfect: bool,
}

/// Executes a random protocol; `shadow` - always along with another session of the same parties.
pub fn simulate<W: World, SP: Params>(profile: Profile, seed: u64, shadow_always: bool) -> Done<W, SP> {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let n = *[1usize, 2, 2, 3, 3, 3, 4, 4, 4, 5, 5, 6].choose(&mut rng).unwrap();
    let n = match profile {
        Profile::Honest | Profile::Lossy | Profile::Local => n,
        Profile::Packs | Profile::Equivocate => n.max(3),
        _ => n.max(2),
    };
    // Sometimes larger in some respect
    let large = if rng.gen_bool(0.04) { rng.gen_range(1..=3u8) } else { 0 };
    let n = if large == 1 { rng.gen_range(8..=14) } else { n };
    let ps = parties(n);
    let o = GenOpts {
        max_rounds: match large {
            1 => rng.gen_range(1..=3),
            2 => rng.gen_range(6..=10),
            _ => *[1usize, 2, 3, 3, 4, 5].choose(&mut rng).unwrap(),
        },
        topology: *[0, 1, 1, 1, 2].choose(&mut rng).unwrap(),
        branching: rng.gen_bool(0.6),
        refs: rng.gen_bool(0.8),
        force_echo: matches!(profile, Profile::Packs | Profile::Equivocate) || rng.gen_bool(0.4),
        blob: match large {
            3 => *[300usize, 5000, 70_000].choose(&mut rng).unwrap(),
            _ if rng.gen_bool(0.1) => 40,
            _ => 0,
        },
    };
    let scripts = gen_world::<W>(&mut rng, &ps, &o);
    let shape = hash_of(&format!("{scripts:?}"));
    let all: Vec<Id> = ps.iter().copied().collect();
    let n_corrupt = match profile {
        Profile::Honest | Profile::Lossy | Profile::Local => 0,
        _ => {
            let max = (n - 1).clamp(1, 3);
            rng.gen_range(1..=max)
        }
    };
    let corrupt: BTreeSet<Id> = all.choose_multiple(&mut rng, n_corrupt).copied().collect();
    let honest: BTreeSet<Id> = ps.difference(&corrupt).copied().collect();
    let sid = SessionId::from_seed::<SP>(&seed.to_be_bytes());

    // Another session of the same parties
    let mut ledger = crate::surgery::Ledger::default();
    let mut shadow = Vec::new();
    let shadow_sid = SessionId::from_seed::<SP>(&[&seed.to_be_bytes()[..], b"shadow"].concat());
    if shadow_always || matches!(profile, Profile::Hostile | Profile::Spoof | Profile::Packs) && rng.gen_bool(0.6) {
        let run = Arc::new(Run::new(scripts.clone()));
        let runs = ps.iter().map(|p| (*p, run.clone())).collect();
        let mut s = Sim::<W, SP>::new(rng.gen(), shadow_sid.clone(), scripts.clone(), ps.clone(), runs, SchedOpts::default(), ledger);
        s.run(&mut NoAdversary, 3000);
        for e in &s.messages {
            shadow.push(Foreign { from: e.from, to: e.to, v: e.v.clone() });
        }
        ledger = s.ledger;
    }

    let mut main_run = Run::new(scripts.clone());
    if profile == Profile::Local {
        let victims = rng.gen_range(1..=n.min(2));
        for v in all.choose_multiple(&mut rng, victims) {
            let mut options = Vec::new();
            for h in W::HALVES {
                let s = &scripts[*h as usize];
                for ri in s.path(*v) {
                    let r = &s.rounds[ri];
                    for (k, m) in [(D, Method::MakeDirect), (E, Method::MakeEcho), (N, Method::MakeNormal)] {
                        if combo_has(r.num, k) {
                            options.push((*v, *h, r.num, m));
                        }
                    }
                    options.push((*v, *h, r.num, Method::Receive));
                    options.push((*v, *h, r.num, Method::Finalize));
                    options.push((*v, *h, r.num, Method::WrongSuccessor));
                }
                if *h != W::HALVES[0] {
                    options.push((*v, *h, s.rounds[0].num, Method::NextEntry));
                }
            }
            main_run.local_faults.insert(*options.choose(&mut rng).unwrap());
        }
    }
    let main_run = Arc::new(main_run);
    let mut runs: Vec<(Id, Arc<Run>)> = honest.iter().map(|p| (*p, main_run.clone())).collect();
    for c in &corrupt {
        let personas = match profile {
            Profile::Equivocate => 2 + rng.gen_bool(0.2) as usize,
            Profile::Content | Profile::Packs => 1,
            _ => 1 + rng.gen_bool(0.25) as usize,
        };
        let faulty = match profile {
            Profile::Content => true,
            Profile::Equivocate | Profile::Hostile => rng.gen_bool(0.3),
            _ => false,
        };
        for _ in 0..personas {
            let mut r = Run::new(scripts.clone());
            if faulty {
                let f = pick_faults(&mut rng, &scripts, W::HALVES, *c);
                r.faults.insert(*c, f);
            }
            runs.push((*c, Arc::new(r)));
        }
    }
    let mut sched = SchedOpts { style: rng.gen_range(0..6), linger: rng.gen_range(0.0..1.0), ..SchedOpts::default() };
    let mut perfect = profile == Profile::Honest;
    if profile == Profile::Lossy {
        if rng.gen_bool(0.7) {
            sched.lose = *[0.02, 0.1, 0.3].choose(&mut rng).unwrap();
        }
        if rng.gen_bool(0.5) {
            sched.terminate = *[0.0005, 0.003, 0.02].choose(&mut rng).unwrap();
        }
        if rng.gen_bool(0.3) {
            sched.dup_honest = 0.1;
        }
        perfect = false;
    } else if profile != Profile::Honest && rng.gen_bool(0.1) {
        sched.terminate = 0.002;
    }
    let mut opts = AdvOpts { pass: 1.0, ..AdvOpts::default() };
    match profile {
        Profile::Content | Profile::Equivocate => {
            opts.pass = if rng.gen_bool(0.5) { 1.0 } else { 0.8 };
        }
        Profile::Hostile | Profile::Spoof => {
            opts.alter = true;
            opts.pass = *[0.98, 0.9, 0.7, 0.4, 0.1].choose(&mut rng).unwrap();
            opts.inject = *[0.0, 0.01, 0.05, 0.2].choose(&mut rng).unwrap();
            opts.packs = rng.gen_bool(0.3);
            opts.strangers = true;
            opts.spoof = profile == Profile::Spoof;
            opts.max_injected = 60;
            if opts.spoof && opts.inject == 0.0 {
                opts.inject = 0.02;
            }
        }
        Profile::Packs => {
            opts.packs = true;
            opts.pass = 0.3;
        }
        _ => {}
    }
    sched.transport = TRANSPORT.with(|x| x.get());
    let mut sim = Sim::<W, SP>::new(rng.gen(), sid, scripts, honest, runs, sched, ledger);
    sim.has_local_faults = profile == Profile::Local;
    let adv_rng = ChaCha8Rng::seed_from_u64(rng.gen());
    let mut adv = Adv { rng: adv_rng, opts, shadow, shadow_sid, injected: 0 };
    let max = match n {
        0..=4 if large != 2 => 6000,
        0..=6 => 12000,
        _ => 60000,
    };
    if large != 0 {
        sim.mon.count(["", "many_parties", "many_rounds", "large_contents"][large as usize]);
    }
    sim.run(&mut adv, max);
    if sim.mon.stats.contains_key("step_limit_reached") {
        perfect = false;
    }
    Done { sim, adv, corrupt, shape, perfect }
}

pub fn run<W: World, SP: Params>(profile: Profile, seed: u64, debug: bool) -> Outcome {
    let Done { mut sim, adv, corrupt, shape, perfect } = simulate::<W, SP>(profile, seed, false);
    oracle::judge(&mut sim, &oracle::Expect { perfect });
    let opts = &adv.opts;
    let mut text = Vec::new();
    if debug {
        text.push(format!("{} {} {profile:?} corrupt {corrupt:?} {opts:?} {:?}", W::NAME, SP::NAME, sim.sched));
        for s in &sim.scripts {
            for r in &s.rounds {
                text.push(format!("{r:?}"));
            }
        }
        for n in &sim.nodes {
            text.push(format!(
                "{:?}/{} honest={} failure={:?} ended={:?} report={:?} errs={:?} stages={:#?}",
                n.id,
                n.persona,
                n.honest,
                n.failure,
                n.ended(),
                n.report.as_ref().map(|r| r.brief()),
                n.errs,
                n.stages.iter().map(|s| format!("{:?} exp {:?} del {:?} done {:?} fail {:?} fuzzy {}", s.rid, s.expects, s.delivered, s.done, s.failed, s.fuzzy)).collect::<Vec<_>>()
            ));
        }
    }
    Outcome { trace: mix(sim.trace, shape), shape, text, mon: sim.mon, traces: Vec::new() }
}

/// Chooses the world and the format.
pub fn dispatch(profile: Profile, seed: u64, chains_only: bool, debug: bool) -> Outcome {
    let mut rng = ChaCha8Rng::seed_from_u64(seed ^ 0x77);
    let w = if chains_only { rng.gen_range(4..10) } else { rng.gen_range(0..8) };
    let bin = profile != Profile::Packs;
    let s: u64 = rng.gen();
    match w {
        2 | 3 if bin => run::<Plain, Sp<Bin>>(profile, s, debug),
        0..=3 => run::<Plain, Sp<Json>>(profile, s, debug),
        5 if bin => run::<ChainW<15, 15>, Sp<Bin>>(profile, s, debug),
        4 | 5 | 8 => run::<ChainW<15, 15>, Sp<Json>>(profile, s, debug),
        6 => run::<ChainLW<15, 10, 15>, Sp<Json>>(profile, s, debug),
        7 if bin => run::<ChainRW<14, 15, 15>, Sp<Bin>>(profile, s, debug),
        _ => run::<ChainW<10, 15>, Sp<Json>>(profile, s, debug),
    }
}
