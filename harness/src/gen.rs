//! Generation of protocol scripts (communication structures which a correct protocol may have).
//!
//! The invariants maintained: a party expects messages exactly from those that send to it
//! (except those on another path of the protocol);
//! a party's destinations in a round are among the parties it has heard from in the previous
//! one (so no message is sent more than one round ahead); in an echoed round the parties are
//! senders and/or receivers, every receiver getting the broadcasts of every sender.

use std::collections::{BTreeMap, BTreeSet};

use rand::Rng;

use crate::sim::echo_peers;
use crate::sp::Id;
use crate::spec::*;

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub max_rounds: usize,
    /// 0 - all to all, 1 - arbitrary, 2 - no simple echo rounds
    pub topology: u8,
    pub branching: bool,
    pub refs: bool,
    pub force_echo: bool,
    pub blob: usize,
}

impl Default for GenOpts {
    fn default() -> Self {
        Self { max_rounds: 4, topology: 1, branching: true, refs: true, force_echo: false, blob: 0 }
    }
}

pub fn parties(n: usize) -> BTreeSet<Id> {
    (1..=n as u32).map(Id).collect()
}

fn subset(rng: &mut impl Rng, s: &BTreeSet<Id>, p: f64) -> BTreeSet<Id> {
    s.iter().copied().filter(|_| rng.gen_bool(p)).collect()
}

fn without(s: &BTreeSet<Id>, x: Id) -> BTreeSet<Id> {
    s.iter().copied().filter(|y| *y != x).collect()
}

/// Generates the communication for one group of parties.
/// `heard`: for every party, those it has heard from in the previous round (`None` at the start).
fn comm(
    rng: &mut impl Rng,
    group: &BTreeSet<Id>,
    combo: u8,
    heard: &BTreeMap<Id, Option<BTreeSet<Id>>>,
    topology: u8,
) -> BTreeMap<Id, PartySpec> {
    let can = |x: &Id, y: &Id| x != y && heard[x].as_ref().map(|h| h.contains(y)).unwrap_or(true);
    let mut dests: BTreeMap<Id, BTreeSet<Id>> = group.iter().map(|x| (*x, BTreeSet::new())).collect();
    let mut echo: BTreeMap<Id, EchoRole> = group.iter().map(|x| (*x, EchoRole::Default)).collect();
    let echoed = combo_has(combo, E);
    let all_ok = group.iter().all(|x| group.iter().all(|y| x == y || can(x, y)));
    if (topology == 0 || rng.gen_bool(0.4)) && all_ok && !(topology == 2 && echoed) {
        for x in group {
            dests.insert(*x, without(group, *x));
        }
    } else if echoed {
        // Choose the receivers, then the senders that may send to all of them
        let mut t = subset(rng, group, 0.75);
        if t.is_empty() {
            t = group.clone();
        }
        let mut s: BTreeSet<Id> =
            group.iter().copied().filter(|x| t.iter().all(|y| x == y || can(x, y))).collect();
        if rng.gen_bool(0.6) && !s.is_empty() {
            let r = subset(rng, &s, 0.7);
            if !r.is_empty() {
                s = r;
            }
        }
        // All receivers must be known to be at most one round behind
        if !s.is_empty() {
            for x in group {
                match (s.contains(x), t.contains(x)) {
                    (true, true) => {
                        dests.insert(*x, without(&t, *x));
                    }
                    (true, false) => {
                        dests.insert(*x, t.clone());
                        echo.insert(*x, EchoRole::Send);
                    }
                    (false, true) => {
                        echo.insert(*x, EchoRole::Receive(without(&t, *x)));
                    }
                    (false, false) => {}
                }
            }
        }
    } else {
        let p = rng.gen_range(0.3..1.0);
        for x in group {
            let d = group.iter().copied().filter(|y| can(x, y) && rng.gen_bool(p)).collect();
            dests.insert(*x, d);
        }
    }
    group
        .iter()
        .map(|x| {
            let expects = group.iter().copied().filter(|y| dests[y].contains(x)).collect();
            (
                *x,
                PartySpec { dests: dests[x].clone(), expects, echo: echo[x].clone(), next: Step::Result },
            )
        })
        .collect()
}

/// For every party, those it has heard from in the latest round (`None` at the start).
pub type Heard = BTreeMap<Id, Option<BTreeSet<Id>>>;

/// Generates the scripts for all the halves of a world.
pub fn gen_world<W: World>(rng: &mut impl Rng, parties: &BTreeSet<Id>, o: &GenOpts) -> Vec<Script> {
    let mut heard: Heard = parties.iter().map(|x| (*x, None)).collect();
    let mut scripts: BTreeMap<u8, Script> = BTreeMap::new();
    let mut o = o.clone();
    if W::HALVES.len() > 1 {
        o.max_rounds = o.max_rounds.min(3);
    }
    for (i, h) in W::HALVES.iter().enumerate() {
        let s = gen_script(rng, parties, W::ENTRY[i], &o, &mut heard, i + 1 == W::HALVES.len());
        scripts.insert(*h, s);
    }
    scripts.into_values().collect()
}

/// Generates a script. `entry` is the required number of the first round (`0` if none).
pub fn gen_script(
    rng: &mut impl Rng,
    parties: &BTreeSet<Id>,
    entry: u8,
    o: &GenOpts,
    heard: &mut Heard,
    last: bool,
) -> Script {
    let mut pool: Vec<u8> = (1..=31).collect();
    for i in (1..pool.len()).rev() {
        pool.swap(i, rng.gen_range(0..=i));
    }
    if entry != 0 {
        pool.retain(|x| *x != entry / 8);
    }
    // Round numbers low enough to repeat in different scripts
    if rng.gen_bool(0.5) {
        pool.sort_by(|a, b| b.cmp(a));
    }
    let fresh = |rng: &mut _, pool: &mut Vec<u8>, force_echo: bool| -> u8 {
        let combo = pick_combo(rng, force_echo);
        // (255 is kept for a round which is not in the protocol)
        (pool.pop().unwrap() * 8 + combo).min(254)
    };
    let levels = rng.gen_range(1..=o.max_rounds);
    // Consecutive numbers (which define the kinds of messages)
    let linear = (!o.force_echo || levels > 1) && rng.gen_bool(0.25);
    let mut rounds: Vec<RoundSpec> = Vec::new();
    // The rounds of the previous level (indices)
    let mut prev: Vec<usize> = Vec::new();
    let mut active = parties.clone();
    let mut any_echo = false;
    // Those heard from in the round before the last one which have gone over to the next script
    let mut early: BTreeMap<Id, BTreeSet<Id>> = BTreeMap::new();
    for level in 0..levels {
        let branch = o.branching && level > 0 && active.len() >= 2 && rng.gen_bool(0.25);
        let mut groups: Vec<BTreeSet<Id>> = vec![active.clone()];
        if branch {
            let g = subset(rng, &active, 0.5);
            let h: BTreeSet<Id> = active.difference(&g).copied().collect();
            groups = vec![g, h];
            groups.retain(|g| !g.is_empty());
        }
        let first = rounds.len();
        let mut nums = Vec::new();
        for i in 0..groups.len() {
            let fe = o.force_echo && !any_echo && (rng.gen_bool(0.5) || level + 1 == levels);
            let mut num = if level == 0 && entry != 0 { entry } else { fresh(rng, &mut pool, fe) };
            if linear && i == 0 && (level > 0 || entry == 0) {
                num = entry.max(1) + level as u8;
            }
            while linear && (num > entry && num < entry + 16 && i > 0) {
                num = fresh(rng, &mut pool, fe);
            }
            any_echo |= combo_has(num, E);
            nums.push(num);
        }
        let parents: BTreeSet<u8> = prev.iter().map(|i| rounds[*i].num).collect();
        // In the last round, messages may be sent to those on another path, too (who will ignore them)
        let across = last && level + 1 == levels && groups.len() > 1 && rng.gen_bool(0.5);
        for (g, num) in groups.iter().zip(nums.iter()) {
            let mut per = comm(rng, g, *num, heard, o.topology);
            if across {
                for (x, p) in &mut per {
                    if combo_has(*num, E) && !matches!(p.echo, EchoRole::Send) {
                        continue;
                    }
                    for y in active.iter().filter(|y| !g.contains(y)) {
                        if heard[x].as_ref().is_some_and(|h| h.contains(y)) && rng.gen_bool(0.4) {
                            p.dests.insert(*y);
                        }
                    }
                }
            }
            let mut refs = Vec::new();
            let mut claims = Vec::new();
            if o.refs {
                if rng.gen_bool(0.5) {
                    refs.push(*num);
                }
                for r in &rounds {
                    if rng.gen_bool(0.6) {
                        refs.push(r.num);
                    }
                    if combo_has(r.num, E) && rng.gen_bool(0.6) {
                        claims.push(r.num);
                    }
                }
            }
            rounds.push(RoundSpec {
                num: *num,
                parents: parents.clone(),
                siblings: nums.iter().copied().filter(|x| x != num).collect(),
                children: BTreeSet::new(),
                may_produce_result: false,
                per,
                refs,
                claims,
                blob: if rng.gen_bool(0.3) { o.blob } else { 0 },
            });
        }
        for i in &prev {
            rounds[*i].children.extend(nums.iter().copied());
        }
        for x in &active {
            let gi = groups.iter().position(|g| g.contains(x)).unwrap();
            if let Some(pi) = prev.iter().find(|i| rounds[**i].per.contains_key(x)).copied() {
                rounds[pi].per.get_mut(x).unwrap().next = Step::Round(first + gi);
            }
            let mut h = rounds[first + gi].per[x].expects.clone();
            // Echo packs are exchanged, too
            if let Some(peers) = echo_peers(&rounds[first + gi], *x) {
                h.extend(peers);
            }
            heard.insert(*x, Some(h));
        }
        prev = (first..rounds.len()).collect();
        // Somebody may go over to the next script a round before the others
        if !last && o.branching && level + 2 == levels && rng.gen_bool(0.4) {
            let out = subset(rng, &active, 0.4);
            if !out.is_empty() && out.len() < active.len() {
                active = active.difference(&out).copied().collect();
                for i in &prev {
                    rounds[*i].may_produce_result = true;
                }
                for x in &active {
                    let h = heard[x].iter().flatten().copied().filter(|y| out.contains(y)).collect();
                    early.insert(*x, h);
                }
            }
        }
        // Somebody may finish early
        if last && o.branching && level + 1 < levels && rng.gen_bool(0.15) {
            let out = subset(rng, &active, 0.3);
            if out.len() < active.len() {
                for x in &out {
                    active.remove(x);
                }
                for i in &prev {
                    rounds[*i].may_produce_result = true;
                }
                for x in parties {
                    if let Some(Some(h)) = heard.get_mut(x) {
                        h.retain(|y| active.contains(y));
                    }
                }
            }
        }
    }
    for i in &prev {
        rounds[*i].may_produce_result = true;
    }
    for (x, h) in early {
        heard.get_mut(&x).unwrap().get_or_insert_default().extend(h);
    }
    Script { parties: parties.clone(), rounds }
}

fn pick_combo(rng: &mut impl Rng, force_echo: bool) -> u8 {
    loop {
        let c = if rng.gen_bool(0.06) { 0 } else { rng.gen_range(1..8u8) };
        if !force_echo || combo_has(c, E) {
            return c;
        }
    }
}

/// A simple all-to-all script with the given kinds of messages in the rounds.
pub fn uniform_script(n: usize, combos: &[u8], blob: usize) -> Script {
    let ps = parties(n);
    let nums: Vec<u8> = combos.iter().enumerate().map(|(i, c)| (i as u8 + 1) * 8 + c).collect();
    let rounds = nums
        .iter()
        .enumerate()
        .map(|(i, num)| RoundSpec {
            num: *num,
            parents: if i > 0 { [nums[i - 1]].into() } else { [].into() },
            siblings: [].into(),
            children: nums.get(i + 1).map(|x| [*x].into()).unwrap_or_default(),
            may_produce_result: i + 1 == nums.len(),
            per: ps
                .iter()
                .map(|x| {
                    (
                        *x,
                        PartySpec {
                            dests: without(&ps, *x),
                            expects: without(&ps, *x),
                            echo: EchoRole::Default,
                            next: if i + 1 == nums.len() { Step::Result } else { Step::Round(i + 1) },
                        },
                    )
                })
                .collect(),
            refs: nums[..=i].to_vec(),
            claims: nums[..i].iter().copied().filter(|x| combo_has(*x, E)).collect(),
            blob,
        })
        .collect();
    Script { parties: ps, rounds }
}
