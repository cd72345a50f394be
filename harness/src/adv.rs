//! What the misbehaving parties do to the messages.

use std::collections::BTreeSet;
use std::sync::Arc;

use manul::session::SessionId;
use rand::seq::SliceRandom;
use rand::Rng;
use crate::light::ChaCha8Rng;
use serde_json::Value;

use crate::sim::*;
use crate::sp::*;
use crate::spec::*;
use crate::surgery::*;

#[derive(Clone, Debug, Default)]
pub struct AdvOpts {
    /// Probability of letting a message of a corrupt party through unchanged
    pub pass: f64,
    /// Alter messages
    pub alter: bool,
    /// Alter the contents of echo packs only
    pub packs: bool,
    /// Probability of injecting something at a step
    pub inject: f64,
    /// Inject messages under the names of honest parties
    pub spoof: bool,
    /// Inject messages by parties not taking part
    pub strangers: bool,
    /// Do not do anything to the parties' broadcasts that would make them provably faulty by themselves
    pub max_injected: usize,
}

/// A message taken from somewhere.
#[derive(Clone)]
pub struct Foreign {
    pub from: Id,
    pub to: Id,
    pub v: Arc<Value>,
}

pub struct Adv {
    pub rng: ChaCha8Rng,
    pub opts: AdvOpts,
    /// Messages from another session of the same parties
    pub shadow: Vec<Foreign>,
    pub shadow_sid: SessionId,
    pub injected: usize,
}

pub fn forged_part(rng: &mut impl Rng, half: u8, num: u8, kind: usize, from: Id, to: Id, fault: u8) -> Part {
    Part {
        half,
        num,
        kind: kind as u8,
        from,
        to: (kind == D).then_some(to),
        uniq: rng.gen(),
        fault,
        refs: Vec::new(),
        claims: Vec::new(),
        blob: Vec::new(),
    }
}

fn garbage(rng: &mut impl Rng) -> Vec<u8> {
    let n = [0, 1, 3, 20, 300][rng.gen_range(0..5)];
    (0..n).map(|_| rng.gen()).collect()
}

pub fn has_payload<SP: Params>(v: &Value) -> Vec<usize> {
    let s = Schema::get::<SP>();
    [D, E, N].into_iter().filter(|k| s.payload_bytes(s.part(v, *k)).is_some()).collect()
}

pub fn payloads<SP: Params>(v: &Value) -> Payloads {
    let s = Schema::get::<SP>();
    [s.payload_bytes(s.part(v, D)), s.payload_bytes(s.part(v, E)), s.payload_bytes(s.part(v, N))]
}

impl Adv {
    fn put<W: World, SP: Params>(&self, sim: &mut Sim<W, SP>, env: &Env, v: Value, pack: Option<Pack>, label: &str, signed: bool) -> Env {
        if signed {
            sim.ledger.add::<SP>(env.from, &v);
        }
        sim.mon.count(&format!("adv_{}", label.split(' ').next().unwrap()));
        Env {
            from: env.from,
            to: env.to,
            persona: env.persona,
            v: Arc::new(v),
            genuine: false,
            stage: env.stage,
            pack,
            label: label.to_string(),
            not_before: 0,
        }
    }

    /// A properly signed message with the given contents.
    fn signed<W: World, SP: Params>(
        &mut self,
        sim: &mut Sim<W, SP>,
        env: &Env,
        sid: &SessionId,
        rid: &manul::protocol::RoundId,
        p: Payloads,
        pack: Option<Pack>,
        label: &str,
    ) -> Env {
        let m = forge::<SP>(&mut self.rng, env.from, env.to, sid, rid, p);
        self.put(sim, env, to_value(&m), pack, label, true)
    }

    /// Alters the message in some way.
    fn alter<W: World, SP: Params>(&mut self, env: &Env, sim: &mut Sim<W, SP>) -> Env {
        let s = Schema::get::<SP>();
        let mut v = (*env.v).clone();
        let op = self.rng.gen_range(0..16);
        let k = [D, E, N][self.rng.gen_range(0..3)];
        match op {
            0 => {
                let mut b = s.sig_bytes(s.part(&v, k)).unwrap_or_default();
                if !b.is_empty() {
                    let i = self.rng.gen_range(0..b.len());
                    b[i] ^= 1 << self.rng.gen_range(0..8);
                }
                s.set_sig(s.part_mut(&mut v, k), &b);
                self.put(sim, env, v, None, "sig-flip", false)
            }
            1 => {
                let mut b = garbage(&mut self.rng);
                if self.rng.gen_bool(0.3) {
                    b = s.sig_bytes(s.part(&v, k)).unwrap_or_default();
                    let n = self.rng.gen_range(0..=b.len());
                    b.truncate(n);
                }
                s.set_sig(s.part_mut(&mut v, k), &b);
                self.put(sim, env, v, None, "sig-garbage", false)
            }
            2 => {
                let l = [D, E, N][self.rng.gen_range(0..3)];
                let b = s.sig_bytes(s.part(&v, l)).unwrap_or_default();
                s.set_sig(s.part_mut(&mut v, k), &b);
                self.put(sim, env, v, None, "sig-other", false)
            }
            3 => {
                let mut p = s.payload_bytes(s.part(&v, k));
                match self.rng.gen_range(0..4) {
                    0 => p = None,
                    1 => p = Some(garbage(&mut self.rng)),
                    2 => {
                        if let Some(b) = p.as_mut().filter(|b| !b.is_empty()) {
                            let i = self.rng.gen_range(0..b.len());
                            b[i] ^= 1 << self.rng.gen_range(0..8);
                        }
                    }
                    _ => p = s.payload_bytes(s.part(&v, [D, E, N][self.rng.gen_range(0..3)])),
                }
                s.set_payload(s.part_mut(&mut v, k), p.as_deref());
                self.put(sim, env, v, None, "payload-unsigned", false)
            }
            4 | 5 => {
                // Contents modified, signed again
                let mut p = payloads::<SP>(&v);
                match self.rng.gen_range(0..7) {
                    0 => p[k] = None,
                    1 => p[k] = Some(garbage(&mut self.rng)),
                    5 | 6 => {
                        // A part that the round does not have
                        if let Some(l) = [D, E, N].into_iter().find(|l| p[*l].is_none()) {
                            p[l] = if self.rng.gen_bool(0.5) { p[k].clone() } else { Some(garbage(&mut self.rng)) };
                        }
                    }
                    2 => {
                        if let Some(b) = p[k].as_mut().filter(|b| !b.is_empty()) {
                            let i = self.rng.gen_range(0..b.len());
                            b[i] ^= 1 << self.rng.gen_range(0..8);
                        } else {
                            p[k] = Some(garbage(&mut self.rng));
                        }
                    }
                    3 => {
                        if let Some(b) = p[k].as_mut() {
                            let n = self.rng.gen_range(0..=b.len());
                            b.truncate(n);
                        } else {
                            p[k] = Some(Vec::new());
                        }
                    }
                    _ => {
                        let l = [D, E, N][self.rng.gen_range(0..3)];
                        p[k] = p[l].clone();
                    }
                }
                let rid = s.rid(s.part(&v, N)).unwrap();
                let sid = sim.sid.clone();
                self.signed(sim, env, &sid, &rid, p, None, "payload-signed")
            }
            6 => {
                // Another session
                let sid = self.shadow_sid.clone();
                let rid = s.rid(s.part(&v, N)).unwrap();
                if self.rng.gen_bool(0.5) {
                    let p = payloads::<SP>(&v);
                    self.signed(sim, env, &sid, &rid, p, None, "sid-signed")
                } else {
                    let all = self.rng.gen_bool(0.5);
                    for l in [D, E, N] {
                        if all || l == k {
                            s.set_sid(s.part_mut(&mut v, l), &sid);
                        }
                    }
                    self.put(sim, env, v, None, "sid-unsigned", false)
                }
            }
            7 | 8 => {
                let rid = self.some_rid(sim, env.to);
                if self.rng.gen_bool(0.6) {
                    let p = payloads::<SP>(&v);
                    let sid = sim.sid.clone();
                    self.signed(sim, env, &sid, &rid, p, None, "rid-signed")
                } else {
                    let all = self.rng.gen_bool(0.5);
                    for l in [D, E, N] {
                        if all || l == k {
                            s.set_rid(s.part_mut(&mut v, l), &rid);
                        }
                    }
                    self.put(sim, env, v, None, "rid-unsigned", false)
                }
            }
            9 | 10 => {
                // Splice: a part from another message of the same party (or somebody else)
                let same = self.rng.gen_bool(0.7);
                let pool: Vec<Arc<Value>> = sim
                    .messages
                    .iter()
                    .filter(|e| (e.from == env.from) == same)
                    .map(|e| e.v.clone())
                    .collect();
                if let Some(o) = pool.choose(&mut self.rng) {
                    let l = if self.rng.gen_bool(0.8) { k } else { [D, E, N][self.rng.gen_range(0..3)] };
                    *s.part_mut(&mut v, k) = s.part(o, l).clone();
                }
                self.put(sim, env, v, None, "splice", false)
            }
            11 => {
                // A part from the other session
                let pool: Vec<Foreign> = self.shadow.iter().filter(|e| e.from == env.from).cloned().collect();
                if let Some(o) = pool.choose(&mut self.rng) {
                    let all = self.rng.gen_bool(0.4);
                    for l in [D, E, N] {
                        if all || l == k {
                            *s.part_mut(&mut v, l) = s.part(&o.v, l).clone();
                            if self.rng.gen_bool(0.3) {
                                let sid = sim.sid.clone();
                                s.set_sid(s.part_mut(&mut v, l), &sid);
                            }
                        }
                    }
                }
                self.put(sim, env, v, None, "splice-session", false)
            }
            12 => {
                // Parts exchanged
                let a = s.part(&v, D).clone();
                let b = s.part(&v, E).clone();
                let c = s.part(&v, N).clone();
                let order = [[b.clone(), a.clone(), c.clone()], [a.clone(), c.clone(), b.clone()], [c.clone(), b.clone(), a.clone()], [b, c, a]];
                let o = order.choose(&mut self.rng).unwrap().clone();
                for (l, x) in [D, E, N].iter().zip(o) {
                    *s.part_mut(&mut v, *l) = x;
                }
                self.put(sim, env, v, None, "kinds-exchanged", false)
            }
            13 => {
                // The destination (does not matter for the receiver)
                let to = sim.parties.iter().copied().collect::<Vec<_>>();
                let to = *to.choose(&mut self.rng).unwrap();
                let mut e = self.put(sim, env, v, env.pack.clone(), "misaddressed", false);
                let found = find(&e.v, |x| x.as_u64() == Some(env.to.0 as u64));
                let dest = found.iter().filter(|p| p.len() == 1).collect::<Vec<_>>();
                if dest.len() == 1 {
                    let mut v = (*e.v).clone();
                    *at_mut(&mut v, dest[0]).unwrap() = Value::from(to.0);
                    e.v = Arc::new(v);
                }
                e
            }
            14 => {
                // Message for another receiver
                let pool: Vec<Arc<Value>> = sim
                    .messages
                    .iter()
                    .filter(|e| e.from == env.from && e.to != env.to && e.stage == env.stage)
                    .map(|e| e.v.clone())
                    .collect();
                let o = pool.choose(&mut self.rng).cloned().unwrap_or(env.v.clone());
                self.put(sim, env, (*o).clone(), None, "for-another", false)
            }
            _ => self.fresh(sim, env.from, env.to),
        }
    }

    /// Some round ID, likely of interest for the party.
    fn some_rid<W: World, SP: Params>(&mut self, sim: &Sim<W, SP>, to: Id) -> manul::protocol::RoundId {
        let all: Vec<_> = sim.rids.keys().cloned().collect();
        let node = sim.nodes.iter().find(|n| n.id == to);
        let cur = node.and_then(|n| n.stages.last()).map(|s| s.stage);
        match (self.rng.gen_range(0..10), cur) {
            (0..=6, Some(st)) => {
                let spec = &sim.scripts[st.half as usize].rounds[st.ri];
                let mut near: Vec<u8> = vec![spec.num, spec.num];
                near.extend(spec.children.iter().flat_map(|x| [*x, *x]));
                near.extend(&spec.siblings);
                near.extend(&spec.parents);
                let num = *near.choose(&mut self.rng).unwrap();
                let id = with_num(&sim.rid_of[&st], num);
                match self.rng.gen_range(0..3) {
                    0 => echo_of(&id),
                    _ => main_of(&id),
                }
            }
            (7, _) => {
                let base = all.choose(&mut self.rng).unwrap();
                with_num(base, self.rng.gen())
            }
            (8, _) => {
                // Other grouping depth
                let num: u8 = if let Some(st) = cur { sim.scripts[st.half as usize].rounds[st.ri].num } else { 9 };
                let id = round_id(num, self.rng.gen_bool(0.3));
                if self.rng.gen_bool(0.6) { odd_groups(&id, &mut self.rng) } else { id }
            }
            _ => all.choose(&mut self.rng).unwrap().clone(),
        }
    }

    /// A new properly signed message for some round.
    pub fn fresh<W: World, SP: Params>(&mut self, sim: &mut Sim<W, SP>, from: Id, to: Id) -> Env {
        let rid = self.some_rid(sim, to);
        let env = Env {
            from,
            to,
            persona: 0,
            v: Arc::new(Value::Null),
            genuine: false,
            stage: None,
            pack: None,
            label: String::new(),
            not_before: 0,
        };
        let sid = if self.rng.gen_bool(0.03) { self.shadow_sid.clone() } else { sim.sid.clone() };
        let mut p: Payloads = [None, None, None];
        match sim.rids.get(&rid).copied() {
            Some(st) if !st.echo => {
                let num = sim.scripts[st.half as usize].rounds[st.ri].num;
                for k in [D, E, N] {
                    if combo_has(num, k) {
                        let fault = if self.rng.gen_bool(0.8) { 0 } else { self.rng.gen_range(1..4) };
                        let half = if self.rng.gen_bool(0.97) { st.half } else { 1 };
                        p[k] = Some(ser::<SP, _>(&forged_part(&mut self.rng, half, num, k, from, to, fault)));
                    }
                }
                if self.rng.gen_bool(0.2) {
                    let k = [D, E, N][self.rng.gen_range(0..3)];
                    p[k] = match p[k] {
                        None => Some(garbage(&mut self.rng)),
                        Some(_) => None,
                    };
                }
            }
            Some(st) => {
                // A pack copied from somebody, or nothing valid
                let pool: Vec<Vec<u8>> = sim
                    .messages
                    .iter()
                    .filter(|e| e.stage == Some(st))
                    .filter_map(|e| payloads::<SP>(&e.v)[N].clone())
                    .collect();
                p[N] = Some(pool.choose(&mut self.rng).cloned().unwrap_or_else(|| garbage(&mut self.rng)));
                if self.rng.gen_bool(0.2) {
                    let k = [D, E, N][self.rng.gen_range(0..3)];
                    p[k] = if self.rng.gen_bool(0.5) { None } else { Some(garbage(&mut self.rng)) };
                }
            }
            None => {
                for x in p.iter_mut() {
                    if self.rng.gen_bool(0.5) {
                        *x = Some(garbage(&mut self.rng));
                    }
                }
            }
        }
        self.signed(sim, &env, &sid, &rid, p, None, "fresh")
    }

    /// Alters the echo pack (only for the human-readable format).
    fn alter_pack<W: World, SP: Params>(&mut self, env: &Env, sim: &mut Sim<W, SP>) -> Option<Env> {
        if !SP::HUMAN {
            return None;
        }
        let stage = env.stage?;
        if !stage.echo {
            return None;
        }
        let s = Schema::get::<SP>();
        let mut truth = env.pack.clone()?;
        let mut doc = PackDoc::parse(&s.payload_bytes(s.part(&env.v, N))?)?;
        let n = 1 + (self.rng.gen_range(0..4) == 0) as usize;
        let mut label = String::from("pack");
        let mut once = BTreeSet::new();
        let mut touched = BTreeSet::new();
        for _ in 0..n {
            if doc.entries.is_empty() {
                break;
            }
            let i = self.rng.gen_range(0..doc.entries.len());
            let who = Id(doc.entries[i].0.as_u64()? as u32);
            let sub = |doc: &PackDoc, pred: &dyn Fn(&Value) -> bool| -> Vec<Path> { find(&doc.entries[i].1, |x| pred(x)) };
            let op = self.rng.gen_range(0..9);
            if !once.insert(op) || !touched.insert(who) {
                continue;
            }
            match op {
                0 => {
                    doc.entries.remove(i);
                    truth.remove(&who);
                    label += " dropped";
                }
                1 => {
                    let extra = if self.rng.gen_bool(0.5) { env.from } else { Id(self.rng.gen_range(1..12)) };
                    if !truth.contains_key(&extra) {
                        let e = doc.entries[i].1.clone();
                        touched.insert(extra);
                        doc.entries.push((Value::from(extra.0), e));
                        truth.insert(extra, Entry::Invalid);
                    }
                    label += " extra";
                }
                2 => {
                    // Flip a byte in one of the hex strings (signature, hash)
                    let hexes = sub(&doc, &|x| x.as_str().and_then(unhex).is_some_and(|b| !b.is_empty()));
                    let p = hexes.choose(&mut self.rng)?.clone();
                    let node = at_mut(&mut doc.entries[i].1, &p)?;
                    let text = node.as_str()?.to_string();
                    let mut b = unhex(&text)?;
                    let j = self.rng.gen_range(0..b.len());
                    b[j] ^= 1 << self.rng.gen_range(0..8);
                    let prefix = if text.starts_with("0x") { "0x" } else { "" };
                    // Could it be a different encoding of the same thing? Only for the signature
                    let same = match (de::<SP, Sig>(&unhex(&text)?), de::<SP, Sig>(&b)) {
                        (Ok(x), Ok(y)) => x == y,
                        _ => false,
                    };
                    *node = Value::String(format!("{prefix}{}", hex(&b)));
                    if !same {
                        truth.insert(who, Entry::Invalid);
                    }
                    label += " flipped";
                }
                3 => {
                    // Another round in the metadata
                    let here = serde_json::to_value(main_of(&sim.rid_of[&stage])).ok()?;
                    let p = sub(&doc, &|x| *x == here);
                    let other = loop {
                        let r = self.some_rid(sim, env.to);
                        if serde_json::to_value(&r).ok()? != here {
                            break r;
                        }
                    };
                    *at_mut(&mut doc.entries[i].1, p.first()?)? = serde_json::to_value(&other).ok()?;
                    truth.insert(who, Entry::Invalid);
                    label += " relabelled";
                }
                4 | 5 => {
                    // The signature of something else signed by the same party
                    let same_round = self.rng.gen_bool(0.6);
                    let pool: Vec<Arc<Value>> = sim
                        .messages
                        .iter()
                        .filter(|e| e.from == who && e.genuine)
                        .filter(|e| !same_round || e.stage == Some(Stage { echo: false, ..stage }))
                        .map(|e| e.v.clone())
                        .chain(self.shadow.iter().filter(|e| !same_round && e.from == who).map(|e| e.v.clone()))
                        .collect();
                    let src = pool.choose(&mut self.rng)?;
                    let k = if self.rng.gen_bool(0.4) { E } else { [D, N][self.rng.gen_range(0..2)] };
                    let part = s.part(src, k);
                    let old = doc.entries[i].1.clone();
                    let Some(new) = hash_entry::<SP>(&old, &sim.rid_of[&Stage { echo: false, ..stage }], &sim.sid, part, k)
                    else {
                        continue;
                    };
                    doc.entries[i].1 = new;
                    truth.insert(who, if k == E { Entry::Valid(s.content(part)) } else { Entry::Invalid });
                    label += " substituted";
                }
                6 => {
                    // Entries of two parties exchanged
                    let j = self.rng.gen_range(0..doc.entries.len());
                    let other = Id(doc.entries[j].0.as_u64()? as u32);
                    if touched.insert(other) {
                        let x = doc.entries[i].1.clone();
                        doc.entries[i].1 = doc.entries[j].1.clone();
                        doc.entries[j].1 = x;
                        truth.insert(who, Entry::Invalid);
                        truth.insert(other, Entry::Invalid);
                    }
                    label += " exchanged";
                }
                7 => {
                    // A corrupt party helps by signing something else
                    if sim.honest.contains(&who) {
                        continue;
                    }
                    let fake = self.fresh_for(sim, who, env.to, Stage { echo: false, ..stage });
                    let part = s.part(&fake, E).clone();
                    let old = doc.entries[i].1.clone();
                    let rid = sim.rid_of[&Stage { echo: false, ..stage }].clone();
                    let new = hash_entry::<SP>(&old, &rid, &sim.sid, &part, E)?;
                    doc.entries[i].1 = new;
                    truth.insert(who, Entry::Valid(s.content(&part)));
                    label += " colluding";
                }
                _ => {
                    // Duplicate entry: the map cannot be decoded
                    let e = doc.entries[i].clone();
                    doc.entries.push(e);
                    let mut p = payloads::<SP>(&env.v);
                    p[N] = Some(doc.bytes());
                    let rid = s.rid(s.part(&env.v, N))?;
                    let sid = sim.sid.clone();
                    return Some(self.signed(sim, env, &sid, &rid, p, None, "pack duplicate"));
                }
            }
        }
        let mut p = payloads::<SP>(&env.v);
        p[N] = Some(doc.bytes());
        if self.rng.gen_bool(0.06) {
            // A part that echoes do not have
            let k = [D, E][self.rng.gen_range(0..2)];
            p[k] = if self.rng.gen_bool(0.5) { p[N].clone() } else { Some(garbage(&mut self.rng)) };
            label += " surplus";
        }
        let rid = s.rid(s.part(&env.v, N))?;
        let sid = sim.sid.clone();
        Some(self.signed(sim, env, &sid, &rid, p, Some(truth), &label))
    }

    /// A valid signed message for the given main round.
    fn fresh_for<W: World, SP: Params>(&mut self, sim: &mut Sim<W, SP>, from: Id, to: Id, st: Stage) -> Value {
        let num = sim.scripts[st.half as usize].rounds[st.ri].num;
        let mut p: Payloads = [None, None, None];
        for k in [D, E, N] {
            if combo_has(num, k) {
                p[k] = Some(ser::<SP, _>(&forged_part(&mut self.rng, st.half, num, k, from, to, 0)));
            }
        }
        let m = forge::<SP>(&mut self.rng, from, to, &sim.sid, &sim.rid_of[&st], p);
        let v = to_value(&m);
        sim.ledger.add::<SP>(from, &v);
        v
    }
}

/// Turns an element of an echo pack into one standing for the given message part.
/// The positions of the signature, hash and metadata are found by content.
pub fn hash_entry<SP: Params>(
    old: &Value,
    rid: &manul::protocol::RoundId,
    sid: &SessionId,
    part: &Value,
    kind: usize,
) -> Option<Value> {
    let s = Schema::get::<SP>();
    let mut new = old.clone();
    let ridv = serde_json::to_value(rid).ok()?;
    let sidv = session_id_value(sid);
    let rids = find(old, |x| *x == ridv);
    let sids = find(old, |x| *x == sidv);
    let sigs = find(old, |x| x.as_str().and_then(unhex).is_some_and(|b| de::<SP, Sig>(&b).is_ok()));
    let hashes = find(old, |x| {
        *x != sidv && x.as_str().and_then(unhex).is_some_and(|b| b.len() == 32 && de::<SP, Sig>(&b).is_err())
    });
    if sids.len() != 1 || sigs.len() != 1 || hashes.len() != 1 {
        return None;
    }
    if let Some(r) = rids.first() {
        *at_mut(&mut new, r)? = at(part, &s.rid)?.clone();
    }
    *at_mut(&mut new, &sids[0])? = at(part, &s.sid)?.clone();
    *at_mut(&mut new, &sigs[0])? = at(part, &s.sig)?.clone();
    let prefix = if at(old, &hashes[0])?.as_str()?.starts_with("0x") { "0x" } else { "" };
    let h = part_hash(kind, s.payload_bytes(part).as_deref());
    *at_mut(&mut new, &hashes[0])? = Value::String(format!("{prefix}{}", hex(&h)));
    Some(new)
}

impl<W: World, SP: Params> Adversary<W, SP> for Adv {
    fn outgoing(&mut self, env: Env, sim: &mut Sim<W, SP>) -> Vec<Env> {
        if self.rng.gen_bool(self.opts.pass) {
            return vec![env];
        }
        if self.opts.packs {
            if let Some(e) = self.alter_pack(&env, sim) {
                return vec![e];
            }
            if !self.opts.alter {
                return vec![env];
            }
        }
        if !self.opts.alter {
            // Only the timing
            return match self.rng.gen_range(0..4) {
                0 => vec![],
                1 | 2 => {
                    let mut e = env;
                    e.not_before = sim.steps + self.rng.gen_range(1..150);
                    vec![e]
                }
                _ => vec![env],
            };
        }
        match self.rng.gen_range(0..12) {
            0 => {
                sim.mon.count("adv_drop");
                sim.messages.push(env);
                vec![]
            }
            1 => {
                sim.mon.count("adv_delay");
                let mut e = env;
                e.not_before = sim.steps + self.rng.gen_range(1..200);
                vec![e]
            }
            2 => {
                sim.mon.count("adv_repeat");
                let mut e = env.clone();
                e.not_before = sim.steps + self.rng.gen_range(0..100);
                e.label = "repeated".into();
                vec![env, e]
            }
            3 => {
                // Both the altered one and the original, in some order
                let mut a = self.alter(&env, sim);
                let mut env = env;
                if self.rng.gen_bool(0.5) {
                    a.not_before = sim.steps + self.rng.gen_range(1..60);
                } else {
                    env.not_before = sim.steps + self.rng.gen_range(1..60);
                }
                vec![a, env]
            }
            4 => {
                let st = env.stage.unwrap();
                if st.echo {
                    if let Some(e) = self.alter_pack(&env, sim) {
                        return vec![e];
                    }
                    return vec![env];
                }
                // A different valid version of the same
                let v = self.fresh_for(sim, env.from, env.to, st);
                let e = self.put(sim, &env, v, None, "another-version", true);
                if self.rng.gen_bool(0.3) {
                    vec![e, env]
                } else {
                    vec![e]
                }
            }
            _ => vec![self.alter(&env, sim)],
        }
    }

    fn inject(&mut self, sim: &mut Sim<W, SP>) -> Vec<Env> {
        if self.opts.inject <= 0.0 || self.injected >= self.opts.max_injected || !self.rng.gen_bool(self.opts.inject) {
            return vec![];
        }
        self.injected += 1;
        let honest: Vec<Id> = sim.honest.iter().copied().collect();
        let corrupt: Vec<Id> = sim.parties.difference(&sim.honest).copied().collect();
        let Some(to) = honest.choose(&mut self.rng).copied() else { return vec![] };
        let strangers: Vec<Id> = (1000..1003).map(Id).collect();
        let mut from: Vec<Id> = corrupt.clone();
        if self.opts.strangers && (from.is_empty() || self.rng.gen_bool(0.4)) {
            from = strangers;
        }
        if self.opts.spoof && self.rng.gen_bool(0.7) {
            // Something under the name of an honest party
            let names: BTreeSet<Id> = honest.iter().copied().filter(|x| *x != to).collect();
            let names: Vec<Id> = names.into_iter().collect();
            let Some(name) = names.choose(&mut self.rng).copied() else { return vec![] };
            let own: Vec<Env> = sim.messages.iter().filter(|e| e.from == name && e.genuine).cloned().collect();
            let base = match self.rng.gen_range(0..4) {
                0 if !corrupt.is_empty() => {
                    // A message really signed by a corrupt party
                    let c = *corrupt.choose(&mut self.rng).unwrap();
                    self.fresh(sim, c, to)
                }
                1 => match self.shadow.iter().filter(|e| e.from == name).collect::<Vec<_>>().choose(&mut self.rng) {
                    Some(f) => Env {
                        from: name,
                        to,
                        persona: 0,
                        v: f.v.clone(),
                        genuine: false,
                        stage: None,
                        pack: None,
                        label: "other session".into(),
                        not_before: 0,
                    },
                    None => return vec![],
                },
                _ => match own.choose(&mut self.rng) {
                    Some(e) => {
                        let mut e = e.clone();
                        e.to = to;
                        let again = self.rng.gen_bool(0.3);
                        if again {
                            e.genuine = false;
                            e.pack = None;
                            e.label = "replayed".into();
                            e
                        } else {
                            self.alter_unsigned(&e, sim)
                        }
                    }
                    None => return vec![],
                },
            };
            let mut e = base;
            e.from = name;
            e.to = to;
            e.pack = None;
            e.genuine = false;
            e.label = format!("spoofed {}", e.label);
            e.not_before = 0;
            sim.mon.count("adv_spoofed");
            return vec![e];
        }
        let Some(from) = from.choose(&mut self.rng).copied() else { return vec![] };
        let mut e = self.fresh(sim, from, to);
        if self.rng.gen_bool(0.1) {
            // Flood
            let n = self.rng.gen_range(2..8);
            return (0..n)
                .map(|_| if self.rng.gen_bool(0.5) { e.clone() } else { self.fresh(sim, from, to) })
                .collect();
        }
        if self.rng.gen_bool(0.3) {
            e.not_before = sim.steps + self.rng.gen_range(1..100);
        }
        vec![e]
    }
}

impl Adv {
    /// An alteration which does not involve the signer.
    fn alter_unsigned<W: World, SP: Params>(&mut self, env: &Env, sim: &mut Sim<W, SP>) -> Env {
        let s = Schema::get::<SP>();
        let mut v = (*env.v).clone();
        let k = [D, E, N][self.rng.gen_range(0..3)];
        match self.rng.gen_range(0..7) {
            0 => {
                let mut b = s.sig_bytes(s.part(&v, k)).unwrap_or_default();
                if !b.is_empty() {
                    let i = self.rng.gen_range(0..b.len());
                    b[i] ^= 1 << self.rng.gen_range(0..8);
                }
                s.set_sig(s.part_mut(&mut v, k), &b);
            }
            1 => {
                let l = [D, E, N][self.rng.gen_range(0..3)];
                let p = s.payload_bytes(s.part(&v, l));
                s.set_payload(s.part_mut(&mut v, k), p.as_deref());
            }
            2 => {
                let g = garbage(&mut self.rng);
                s.set_payload(s.part_mut(&mut v, k), Some(&g));
            }
            3 => {
                let rid = self.some_rid(sim, env.to);
                let all = self.rng.gen_bool(0.7);
                for l in [D, E, N] {
                    if all || l == k {
                        s.set_rid(s.part_mut(&mut v, l), &rid);
                    }
                }
            }
            4 => {
                let a = s.part(&v, E).clone();
                let b = s.part(&v, N).clone();
                *s.part_mut(&mut v, E) = b;
                *s.part_mut(&mut v, N) = a;
            }
            5 => {
                let pool: Vec<Arc<Value>> = sim.messages.iter().filter(|e| e.from == env.from).map(|e| e.v.clone()).collect();
                if let Some(o) = pool.choose(&mut self.rng) {
                    *s.part_mut(&mut v, k) = s.part(o, k).clone();
                }
            }
            _ => {
                let pool: Vec<Arc<Value>> = self.shadow.iter().filter(|e| e.from == env.from).map(|e| e.v.clone()).collect();
                if let Some(o) = pool.choose(&mut self.rng) {
                    let all = self.rng.gen_bool(0.5);
                    let fix = self.rng.gen_bool(0.5);
                    for l in [D, E, N] {
                        if all || l == k {
                            *s.part_mut(&mut v, l) = s.part(o, l).clone();
                            if fix {
                                let sid = sim.sid.clone();
                                s.set_sid(s.part_mut(&mut v, l), &sid);
                            }
                        }
                    }
                }
            }
        }
        self.put(sim, env, v, None, "altered", false)
    }
}
