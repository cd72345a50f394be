//! Forging evidence against honest parties.
//!
//! The forger has everything that was ever sent (in two sessions of the same parties), the evidence
//! really produced, and the keys of the corrupt parties. Whatever it assembles must not verify against an honest party.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::{Hash, Hasher};
use std::sync::OnceLock;

use manul::protocol::RoundId;
use manul::session::{Evidence, SessionId};
use rand::seq::SliceRandom;
use rand::Rng;
use crate::light::ChaCha8Rng;
use rand_core::SeedableRng;
use serde_json::{json, Map, Value};

use crate::adv::forged_part;
use crate::gen::{gen_world, GenOpts};
use crate::oracle::guard_any;
use crate::scen::{simulate, Outcome, Profile};
use crate::sim::*;
use crate::sp::*;
use crate::spec::*;
use crate::surgery::*;

/// A part of a message someone signed.
#[derive(Clone)]
pub struct Mat {
    pub by: Id,
    pub to: Id,
    pub kind: usize,
    pub rid: RoundId,
    pub part: Value,
    pub payload: Option<Vec<u8>>,
    /// 0 - the session, 1 - a session of the same protocol, 2 - of a protocol with other connections
    pub session: u8,
    pub empty_pack: bool,
}

/// The kind of the evidence and the document.
pub fn tag_of(doc: &Value) -> String {
    doc.get("evidence").and_then(|e| e.as_object()).and_then(|m| m.keys().next().cloned()).unwrap_or_default()
}

pub fn documents<W: World, SP: Params>(sim: &Sim<W, SP>) -> Vec<Value> {
    let mut res = Vec::new();
    for n in &sim.nodes {
        if let Some(r) = &n.report {
            for e in r.provable_errors.values() {
                if let Ok(Ok(v)) = guard_any(|| serde_json::to_value(e)) {
                    res.push(v);
                }
            }
        }
    }
    res
}

/// Invalidates all the signatures (the parties with these names were corrupt somewhere else).
fn unsign(mut doc: Value) -> Value {
    type S = Sp<Json>;
    let s = Schema::get::<S>();
    let mut rng = ChaCha8Rng::seed_from_u64(5);
    let sid = SessionId::from_seed::<S>(b"nothing");
    let v = to_value(&forge::<S>(&mut rng, Id(999), Id(998), &sid, &RoundId::new(250), [None, None, None]));
    let sig = at(s.part(&v, N), &s.sig).unwrap().clone();
    for p in paths(&doc, &|_| false, &|x| is_part::<S>(x) || is_hash::<S>(x)) {
        *at_mut(at_mut(&mut doc, &p).unwrap(), &s.sig).unwrap() = sig.clone();
    }
    doc
}

/// Samples of evidence of all kinds, from fixed executions.
pub fn templates() -> &'static BTreeMap<String, Vec<Value>> {
    static T: OnceLock<BTreeMap<String, Vec<Value>>> = OnceLock::new();
    T.get_or_init(|| {
        let mut res: BTreeMap<String, Vec<Value>> = BTreeMap::new();
        for seed in 0..400 {
            for p in [Profile::Content, Profile::Equivocate, Profile::Packs, Profile::Hostile] {
                let d = match guard_any(|| simulate::<Plain, Sp<Json>>(p, 7000 + seed, false)) {
                    Ok(d) => d,
                    Err(_) => continue,
                };
                for doc in documents(&d.sim) {
                    let e = res.entry(tag_of(&doc)).or_default();
                    if e.len() < 4 {
                        e.push(unsign(doc));
                    }
                }
            }
            if res.len() >= 6 && res.values().all(|v| v.len() >= 4) {
                break;
            }
        }
        res
    })
}

/// Whether evidence is written the way the well-aimed forgeries are made (by the names of its fields).
/// If not, only the forgeries which go by the shape of the document are possible.
fn form_known() -> bool {
    let all: [(&str, &[&str]); 6] = [
        ("InvalidDirectMessage", &[]),
        ("InvalidEchoBroadcast", &[]),
        ("InvalidNormalBroadcast", &[]),
        ("InvalidEcho", &["/normal_broadcast", "/error/invalid_echo_sender"]),
        ("MismatchedBroadcasts", &["/error/guilty_party", "/error/we_received", "/error/echoed_to_us"]),
        (
            "Protocol",
            &[
                "/error",
                "/direct_message",
                "/echo_broadcast",
                "/normal_broadcast",
                "/direct_messages",
                "/echo_broadcasts",
                "/normal_broadcasts",
                "/other_echo_broadcasts",
                "/echo_hashes",
            ],
        ),
    ];
    static K: OnceLock<bool> = OnceLock::new();
    *K.get_or_init(|| {
        templates().iter().all(|(tag, docs)| {
            let Some((_, want)) = all.iter().find(|(t, _)| t == tag) else { return false };
            docs.iter().all(|d| {
                d.get("guilty_party").is_some() && d.get("evidence").and_then(|e| e.get(tag)).is_some_and(|e| want.iter().all(|p| e.pointer(p).is_some()))
            })
        })
    })
}

fn is_part<SP: Params>(x: &Value) -> bool {
    let s = Schema::get::<SP>();
    x.is_object() && at(x, &s.sig).is_some() && at(x, &s.rid).is_some() && at(x, &s.payload).is_some()
}

fn is_hash<SP: Params>(x: &Value) -> bool {
    let s = Schema::get::<SP>();
    x.is_object() && at(x, &s.sig).is_some() && !is_part::<SP>(x)
}

fn is_rid(x: &Value) -> bool {
    x.is_object() && serde_json::from_value::<RoundId>(x.clone()).is_ok()
}

fn paths(v: &Value, skip: &dyn Fn(&Value) -> bool, want: &dyn Fn(&Value) -> bool) -> Vec<Path> {
    fn go(v: &Value, p: &mut Path, skip: &dyn Fn(&Value) -> bool, want: &dyn Fn(&Value) -> bool, res: &mut Vec<Path>) {
        if want(v) {
            res.push(p.clone());
        }
        if skip(v) {
            return;
        }
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    p.push(Seg::Key(k.clone()));
                    go(x, p, skip, want, res);
                    p.pop();
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    p.push(Seg::Idx(i));
                    go(x, p, skip, want, res);
                    p.pop();
                }
            }
            _ => {}
        }
    }
    let mut res = Vec::new();
    go(v, &mut Vec::new(), skip, want, &mut res);
    res
}

/// The message parts in the document.
pub fn part_paths<SP: Params>(doc: &Value) -> Vec<Path> {
    paths(doc, &|x| is_part::<SP>(x), &|x| is_part::<SP>(x))
}

pub fn kind_at(p: &Path) -> usize {
    for s in p.iter().rev() {
        if let Seg::Key(k) = s {
            let k = k.to_lowercase();
            if k.contains("direct") {
                return D;
            }
            if k.contains("normal") || k.contains("hashes") {
                return N;
            }
            if k.contains("echo") || k.contains("received") || k.contains("mismatched") {
                return E;
            }
        }
    }
    E
}

fn b64<SP: Params>(b: &[u8]) -> Value {
    Value::String(Schema::get::<SP>().base64(b))
}

/// A hash (as in the echo packs) standing for the part, laid out as the given one.
fn hash_like<SP: Params>(old: &Value, part: &Value, kind: usize) -> Option<Value> {
    let s = Schema::get::<SP>();
    let mut new = old.clone();
    let rids = find(old, is_rid);
    *at_mut(&mut new, rids.first()?)? = at(part, &s.rid)?.clone();
    let sigs = find(old, |x| x.as_str().and_then(unhex).is_some_and(|b| de::<SP, Sig>(&b).is_ok() && b.len() != 32));
    let sig = match sigs.len() {
        1 => sigs[0].clone(),
        _ => s.sig.clone(),
    };
    *at_mut(&mut new, &sig)? = at(part, &s.sig)?.clone();
    // The session ID is next to the round ID; the hash is the other string
    let mut strings: Vec<Path> = find(old, |x| x.is_string());
    strings.retain(|p| *p != sig);
    let n = rids[0].len() - 1;
    for p in &strings {
        if p.len() == n + 1 && p[..n] == rids[0][..n] {
            *at_mut(&mut new, p)? = at(part, &s.sid)?.clone();
        } else {
            let prefix = if at(old, p)?.as_str()?.starts_with("0x") { "0x" } else { "" };
            let h = part_hash(kind, s.payload_bytes(part).as_deref());
            *at_mut(&mut new, p)? = Value::String(format!("{prefix}{}", hex(&h)));
        }
    }
    Some(new)
}

struct Forger<'a, W: World, SP: Params> {
    rng: ChaCha8Rng,
    sim: &'a Sim<W, SP>,
    mats: Vec<Mat>,
    honest: Vec<Id>,
    corrupt: Vec<Id>,
    shadow_sid: SessionId,
    alt: Vec<Script>,
}

pub fn materials<SP: Params>(by: Id, to: Id, v: &Value, session: u8, res: &mut Vec<Mat>) {
    let s = Schema::get::<SP>();
    for kind in [D, E, N] {
        let part = s.part(v, kind).clone();
        let Some(rid) = s.rid(&part) else { continue };
        let payload = s.payload_bytes(&part);
        let empty_pack = kind == N && is_echo(&rid) && payload.as_ref().is_some_and(|p| p.len() < 24);
        res.push(Mat { by, to, kind, rid, part, payload, session, empty_pack });
    }
}

impl<W: World, SP: Params> Forger<'_, W, SP> {
    fn choose<T: Clone>(&mut self, v: &[T]) -> Option<T> {
        v.choose(&mut self.rng).cloned()
    }

    fn rid(&mut self) -> RoundId {
        let r: Vec<RoundId> = self.sim.rids.keys().cloned().collect();
        let r = self.choose(&r).unwrap();
        match self.rng.gen_range(0..9) {
            0 => echo_of(&r),
            1 => main_of(&r),
            2 => with_num(&r, self.rng.gen()),
            3 => odd_groups(&r, &mut self.rng),
            _ => r,
        }
    }

    fn mat(&mut self, by: Option<Id>, kind: Option<usize>, rid: Option<&RoundId>) -> Option<Mat> {
        let pool: Vec<usize> = (0..self.mats.len())
            .filter(|i| {
                let m = &self.mats[*i];
                by.is_none_or(|x| x == m.by) && kind.is_none_or(|x| x == m.kind) && rid.is_none_or(|x| *x == m.rid)
            })
            .collect();
        let i = self.choose(&pool)?;
        Some(self.mats[i].clone())
    }

    /// Something with the kind and the round preferably as given.
    fn similar(&mut self, h: Id, kind: usize, rid: Option<RoundId>) -> Option<Mat> {
        let by = if self.rng.gen_bool(0.8) { Some(h) } else { None };
        let kind = if self.rng.gen_bool(0.7) { Some(kind) } else { None };
        let rid = if self.rng.gen_bool(0.5) { rid } else { None };
        self.mat(by, kind, rid.as_ref()).or_else(|| self.mat(by, None, None))
    }

    /// The identifiers in the document.
    fn ids(&self, doc: &Value) -> Vec<Path> {
        let known: BTreeSet<u64> = self.sim.parties.iter().map(|x| x.0 as u64).collect();
        paths(
            doc,
            &|x| is_part::<SP>(x) || is_hash::<SP>(x) || is_rid(x),
            &|x| x.as_u64().is_some_and(|x| known.contains(&x)),
        )
    }

    fn set_guilty(&self, doc: &mut Value, h: Id) {
        if let Some(g) = doc.get_mut("guilty_party") {
            *g = Value::from(h.0);
        }
    }

    /// Puts the honest party in place of the guilty one, with its messages.
    fn transplant(&mut self, doc: &mut Value, h: Id, all: bool) {
        let old = doc.get("guilty_party").cloned().unwrap_or(Value::Null);
        for p in self.ids(doc) {
            if at(doc, &p) == Some(&old) {
                *at_mut(doc, &p).unwrap() = Value::from(h.0);
            }
        }
        self.set_guilty(doc, h);
        let s = Schema::get::<SP>();
        let mut same: BTreeMap<String, RoundId> = BTreeMap::new();
        for p in paths(doc, &|x| is_part::<SP>(x), &|x| is_part::<SP>(x)) {
            let text: Vec<String> = p.iter().map(|s| format!("{s:?}")).collect();
            let others = text.join("/").contains("other");
            if others && !all {
                continue;
            }
            let rid = s.rid(at(doc, &p).unwrap());
            let kind = kind_at(&p);
            let rid = rid.map(|r| {
                let here = self.sim.rids.contains_key(&r);
                if here {
                    return r;
                }
                // A template: the rounds are mapped to the ones existing here
                let k = serde_json::to_string(&main_of(&r)).unwrap();
                let e = same.entry(k).or_insert_with(|| {
                    let pool: Vec<RoundId> = self.sim.rids.keys().filter(|x| !is_echo(x)).cloned().collect();
                    pool.choose(&mut self.rng).unwrap().clone()
                });
                if is_echo(&r) {
                    echo_of(e)
                } else {
                    e.clone()
                }
            });
            let m = self.mat(Some(h), Some(kind), rid.as_ref()).or_else(|| self.mat(Some(h), Some(kind), None));
            if let Some(m) = m {
                *at_mut(doc, &p).unwrap() = m.part;
            }
        }
        for p in paths(doc, &|x| is_hash::<SP>(x), &|x| is_hash::<SP>(x)) {
            let m = self.mat(Some(h), Some(E), None);
            if let Some(m) = m {
                if let Some(x) = hash_like::<SP>(at(doc, &p).unwrap(), &m.part, m.kind) {
                    *at_mut(doc, &p).unwrap() = x;
                }
            }
        }
        // Keys of the maps
        for p in paths(doc, &|x| is_part::<SP>(x) || is_hash::<SP>(x), &|x| is_rid(x)) {
            let r: RoundId = serde_json::from_value(at(doc, &p).unwrap().clone()).unwrap();
            let k = serde_json::to_string(&main_of(&r)).unwrap();
            if let Some(n) = same.get(&k) {
                *at_mut(doc, &p).unwrap() = serde_json::to_value(n).unwrap();
            }
        }
    }

    fn body(&mut self) -> ErrBody {
        let nums: Vec<u8> = self.sim.scripts.iter().flat_map(|s| s.rounds.iter().map(|r| r.num)).collect();
        let n = if self.rng.gen_bool(0.95) { self.choose(&nums).unwrap() } else { self.rng.gen() };
        let why = match self.rng.gen_range(0..3) {
            0 => Why::Content,
            1 => Why::Ref(n, self.rng.gen_range(0..4)),
            _ => Why::Claim(n),
        };
        let mut prev = Vec::new();
        let mut echos = Vec::new();
        for _ in 0..self.rng.gen_range(0..3) {
            let n = self.choose(&nums).unwrap();
            prev.push((n, [self.rng.gen(), self.rng.gen(), self.rng.gen()]));
        }
        for _ in 0..self.rng.gen_range(0..2) {
            echos.push(self.choose(&nums).unwrap());
        }
        ErrBody { why, kind: self.rng.gen_range(0..4), this: [self.rng.gen(), self.rng.gen(), self.rng.gen()], prev, echos, at: n }
    }

    /// A random change.
    fn mutate(&mut self, doc: &mut Value, h: Id) -> &'static str {
        let s = Schema::get::<SP>();
        let parts = paths(doc, &|x| is_part::<SP>(x), &|x| is_part::<SP>(x));
        let hashes = paths(doc, &|x| is_hash::<SP>(x), &|x| is_hash::<SP>(x));
        let maps = paths(doc, &|x| is_part::<SP>(x) || is_hash::<SP>(x), &|x| {
            x.as_array().is_some_and(|a| !a.is_empty() && a.iter().all(|e| e.as_array().is_some_and(|p| p.len() == 2)))
        });
        // The last ones rarely produce anything that can be decoded
        let op = if self.rng.gen_bool(0.85) { self.rng.gen_range(0..12) } else { self.rng.gen_range(12..15) };
        match op {
            0 => {
                self.set_guilty(doc, h);
                "guilty"
            }
            1 => {
                let ids = self.ids(doc);
                if let Some(p) = self.choose(&ids) {
                    let all: Vec<Id> = self.sim.parties.iter().copied().collect();
                    let x = if self.rng.gen_bool(0.6) { h } else { self.choose(&all).unwrap() };
                    *at_mut(doc, &p).unwrap() = Value::from(x.0);
                }
                "id"
            }
            2..=4 => {
                if let Some(p) = self.choose(&parts) {
                    let rid = s.rid(at(doc, &p).unwrap());
                    if let Some(m) = self.similar(h, kind_at(&p), rid) {
                        *at_mut(doc, &p).unwrap() = m.part;
                    }
                }
                "part-replaced"
            }
            5 => {
                if let Some(p) = self.choose(&parts) {
                    let m = self.similar(h, kind_at(&p), None);
                    let rid = self.rid();
                    let sid = if self.rng.gen() { self.shadow_sid.clone() } else { self.sim.sid.clone() };
                    let garbage: Vec<u8> = (0..self.rng.gen_range(0..40)).map(|_| self.rng.gen()).collect();
                    let op = self.rng.gen_range(0..5);
                    let x = at_mut(doc, &p).unwrap();
                    match (op, m) {
                        (0, _) => s.set_rid(x, &rid),
                        (1, _) => s.set_sid(x, &sid),
                        (2, Some(m)) => s.set_sig(x, &s.sig_bytes(&m.part).unwrap_or_default()),
                        (3, Some(m)) => s.set_payload(x, m.payload.as_deref()),
                        (4, _) => s.set_payload(x, Some(&garbage)),
                        _ => s.set_payload(x, None),
                    }
                }
                "part-altered"
            }
            6 => {
                if let Some(p) = self.choose(&hashes) {
                    if let Some(m) = self.similar(h, E, None) {
                        let kind = if self.rng.gen_bool(0.8) { m.kind } else { self.rng.gen_range(0..3) };
                        if let Some(x) = hash_like::<SP>(at(doc, &p).unwrap(), &m.part, kind) {
                            *at_mut(doc, &p).unwrap() = x;
                        }
                    }
                }
                "hash-replaced"
            }
            7 => {
                // Strings within a hash or a part exchanged for others
                let all: Vec<Path> = parts.iter().chain(&hashes).cloned().collect();
                if let Some(p) = self.choose(&all) {
                    let strings = find(at(doc, &p).unwrap(), |x| x.is_string());
                    if let Some(q) = self.choose(&strings) {
                        let node = at_mut(at_mut(doc, &p).unwrap(), &q).unwrap();
                        let mut b: Vec<char> = node.as_str().unwrap().chars().collect();
                        if b.len() > 2 {
                            let i = self.rng.gen_range(2..b.len());
                            b[i] = *['0', '1', 'a', 'f', 'A', '/', '='].choose(&mut self.rng).unwrap();
                        }
                        *node = Value::String(b.into_iter().collect());
                    }
                }
                "string"
            }
            8 | 9 => {
                if let Some(p) = self.choose(&maps) {
                    let a = at(doc, &p).unwrap().as_array().unwrap().clone();
                    let i = self.rng.gen_range(0..a.len());
                    let mut a = a;
                    match self.rng.gen_range(0..4) {
                        0 => {
                            a.remove(i);
                        }
                        1 => {
                            let mut e = a[i].clone();
                            if is_rid(&e[0]) {
                                e[0] = serde_json::to_value(self.rid()).unwrap();
                            } else {
                                e[0] = Value::from(h.0);
                            }
                            a.push(e);
                        }
                        2 => {
                            if is_rid(&a[i][0]) {
                                a[i][0] = serde_json::to_value(self.rid()).unwrap();
                            } else {
                                let all: Vec<Id> = self.sim.parties.iter().copied().collect();
                                a[i][0] = Value::from(self.choose(&all).unwrap().0);
                            }
                        }
                        _ => {
                            if is_part::<SP>(&a[i][1]) {
                                if let Some(m) = self.similar(h, kind_at(&p), None) {
                                    a[i][0] = serde_json::to_value(&m.rid).unwrap();
                                    a[i][1] = m.part;
                                }
                            } else {
                                a[i][1] = json!([]);
                            }
                        }
                    }
                    *at_mut(doc, &p).unwrap() = Value::Array(a);
                }
                "map"
            }
            10 => {
                let b = if self.rng.gen_bool(0.9) {
                    ser::<SP, _>(&self.body())
                } else {
                    (0..self.rng.gen_range(0..30)).map(|_| self.rng.gen()).collect()
                };
                if let Some(x) = doc.pointer_mut("/evidence/Protocol/error") {
                    *x = b64::<SP>(&b);
                }
                "error"
            }
            11 => {
                // Part added or removed
                let nulls = paths(doc, &|x| is_part::<SP>(x), &|x| x.is_null());
                let empty = paths(doc, &|x| is_part::<SP>(x), &|x| x.as_array().is_some_and(|a| a.is_empty()));
                if self.rng.gen_bool(0.5) {
                    if let Some(p) = self.choose(&nulls) {
                        if let Some(m) = self.similar(h, kind_at(&p), None) {
                            *at_mut(doc, &p).unwrap() = m.part;
                        }
                    }
                } else if self.rng.gen_bool(0.7) {
                    if let Some(p) = self.choose(&empty) {
                        if let Some(m) = self.similar(h, kind_at(&p), None) {
                            let key = if self.rng.gen_bool(0.7) { m.rid.clone() } else { self.rid() };
                            *at_mut(doc, &p).unwrap() = json!([[serde_json::to_value(key).unwrap(), m.part]]);
                        }
                    }
                } else if let Some(p) = self.choose(&parts) {
                    *at_mut(doc, &p).unwrap() = Value::Null;
                }
                "presence"
            }
            12 => {
                // The same data as another kind of evidence
                let tags: Vec<String> = templates().keys().cloned().collect();
                let t = self.choose(&tags).unwrap();
                if let Some(e) = doc.get("evidence").and_then(|e| e.as_object()).cloned() {
                    if let Some((_, v)) = e.into_iter().next() {
                        let mut m = Map::new();
                        m.insert(t, v);
                        doc["evidence"] = Value::Object(m);
                    }
                }
                "kind"
            }
            13 => {
                self.transplant(doc, h, true);
                "transplanted"
            }
            _ => {
                // Anything at all
                let all = paths(doc, &|_| false, &|_| true);
                let p = self.choose(&all).unwrap();
                let q = self.choose(&all).unwrap();
                let x = match self.rng.gen_range(0..6) {
                    0 => Value::Null,
                    1 => json!([]),
                    2 => json!(""),
                    3 => json!(u64::MAX),
                    4 => json!("0x"),
                    _ => at(doc, &q).unwrap().clone(),
                };
                *at_mut(doc, &p).unwrap() = x;
                "anything"
            }
        }
    }

    /// Evidence against the honest party consisting of what it has really sent.
    fn coherent(&mut self, h: Id) -> Option<(Value, ErrBody)> {
        let s = Schema::get::<SP>();
        let t = templates().get("Protocol")?;
        let mut doc = self.choose(t)?;
        // The other session was completed
        let session = *[0u8, 0, 1, 1, 2].choose(&mut self.rng).unwrap();
        let mut pool: Vec<usize> = (0..self.mats.len())
            .filter(|i| {
                let m = &self.mats[*i];
                m.by == h && m.session == session && m.payload.is_some() && !is_echo(&m.rid)
            })
            .collect();
        // Those which can be of use preferred
        let rich: Vec<usize> = pool
            .iter()
            .copied()
            .filter(|i| {
                de::<SP, Part>(self.mats[*i].payload.as_ref().unwrap()).is_ok_and(|p| !p.refs.is_empty() || !p.claims.is_empty())
            })
            .collect();
        if !rich.is_empty() && self.rng.gen_bool(0.85) {
            pool = rich;
        }
        let i = self.choose(&pool)?;
        let m = self.mats[i].clone();
        let part: Part = de::<SP, Part>(m.payload.as_ref()?).ok()?;
        let find = |me: &Self, by: Id, to: Option<Id>, kind: usize, rid: &RoundId| -> Option<Mat> {
            me.mats
                .iter()
                .find(|x| x.by == by && x.session == session && x.kind == kind && x.rid == *rid && to.is_none_or(|t| t == x.to))
                .cloned()
        };
        let mut body = ErrBody { why: Why::Content, kind: m.kind as u8, this: [false; 3], prev: Vec::new(), echos: Vec::new(), at: part.num };
        body.this[m.kind] = true;
        let options = part.refs.len() + part.claims.len();
        let pick = self.rng.gen_range(0..options + 1);
        if pick == options && self.rng.gen_bool(0.9) {
            return None;
        }
        let mut prevs: [Vec<Value>; 3] = Default::default();
        let mut hashes = Vec::new();
        let mut others = Vec::new();
        if pick < part.refs.len() {
            let (n, k, _) = part.refs[pick];
            body.why = Why::Ref(n, k);
            let k = k as usize % 3;
            if n == part.num {
                body.this[k] = true;
            } else {
                let mut need = [false; 3];
                need[k] = true;
                body.prev.push((n, need));
                let rid = with_num(&m.rid, n);
                let x = find(self, h, Some(m.to), k, &rid)?;
                prevs[k].push(json!([serde_json::to_value(&rid).unwrap(), x.part]));
            }
        } else if pick < options {
            let n = part.claims[pick - part.refs.len()].0;
            body.why = Why::Claim(n);
            body.echos.push(n);
            let rid = with_num(&m.rid, n);
            let pack = find(self, h, None, N, &echo_of(&rid))?;
            hashes.push(json!([serde_json::to_value(&rid).unwrap(), pack.part]));
            let scripts = if session == 2 { &self.alt } else { &self.sim.scripts };
            let spec = scripts[part.half as usize].by_num(n)?;
            let mut list = Vec::new();
            for x in spec.per.get(&h)?.expects.clone() {
                let b = find(self, x, Some(h), E, &rid)?;
                list.push(json!([x.0, b.part]));
            }
            others.push(json!([serde_json::to_value(&rid).unwrap(), list]));
        }
        let p = doc.pointer_mut("/evidence/Protocol")?.as_object_mut()?;
        let names = ["direct_message", "echo_broadcast", "normal_broadcast"];
        for k in [D, E, N] {
            let v = if body.this[k] { find(self, h, Some(m.to), k, &m.rid)?.part } else { Value::Null };
            *p.get_mut(names[k])? = v;
            *p.get_mut(&format!("{}s", names[k]))? = Value::Array(prevs[k].clone());
        }
        *p.get_mut("echo_hashes")? = Value::Array(hashes);
        *p.get_mut("other_echo_broadcasts")? = Value::Array(others);
        *p.get_mut("error")? = b64::<SP>(&ser::<SP, _>(&body));
        self.set_guilty(&mut doc, h);
        let _ = s;
        Some((doc, body))
    }

    /// One well-aimed change to evidence which is otherwise in order.
    fn aim(&mut self, doc: &mut Value, h: Id) -> &'static str {
        let s = Schema::get::<SP>();
        match self.rng.gen_range(0..7) {
            // A previous message from another round, session, destination or party under the same key
            0 | 1 => {
                let all = paths(doc, &|x| is_part::<SP>(x), &|x| is_part::<SP>(x));
                let prev: Vec<Path> = all
                    .into_iter()
                    .filter(|p| {
                        p.iter().any(|x| matches!(x, Seg::Key(k) if k == "direct_messages" || k == "echo_broadcasts" || k == "normal_broadcasts"))
                    })
                    .collect();
                if let Some(p) = self.choose(&prev) {
                    let kind = kind_at(&p);
                    let rid = s.rid(at(doc, &p).unwrap()).unwrap();
                    let by = if self.rng.gen_bool(0.8) { Some(h) } else { None };
                    let m = match self.rng.gen_range(0..4) {
                        0 => self.mat(by, Some(kind), Some(&rid)),
                        1 => self.mat(by, None, Some(&rid)),
                        _ => self.mat(by, Some(kind), None),
                    };
                    if let Some(m) = m {
                        *at_mut(doc, &p).unwrap() = m.part;
                    }
                }
                "aim-previous"
            }
            // The message at fault from another round or session
            2 => {
                let names = ["direct_message", "echo_broadcast", "normal_broadcast"];
                let k = self.rng.gen_range(0..3);
                let path = vec![Seg::Key("evidence".into()), Seg::Key("Protocol".into()), Seg::Key(names[k].into())];
                if at(doc, &path).is_some_and(|x| !x.is_null()) {
                    let rid = s.rid(at(doc, &path).unwrap()).unwrap();
                    let m = match self.rng.gen_range(0..3) {
                        0 => self.mat(Some(h), None, Some(&rid)),
                        1 => self.mat(None, Some(k), Some(&rid)),
                        _ => self.mat(Some(h), Some(k), None),
                    };
                    if let Some(m) = m {
                        *at_mut(doc, &path).unwrap() = m.part;
                    }
                }
                "aim-this"
            }
            // Another party's broadcast replaced (with the help of that party if it is corrupt)
            3 | 4 => {
                let all = paths(doc, &|x| is_part::<SP>(x), &|x| is_part::<SP>(x));
                let others: Vec<Path> = all
                    .into_iter()
                    .filter(|p| p.iter().any(|x| matches!(x, Seg::Key(k) if k == "other_echo_broadcasts")))
                    .collect();
                if let Some(p) = self.choose(&others) {
                    let rid = s.rid(at(doc, &p).unwrap()).unwrap();
                    let mut key = p.clone();
                    key.pop();
                    key.push(Seg::Idx(0));
                    let owner = at(doc, &key).and_then(|x| x.as_u64()).map(|x| Id(x as u32)).unwrap_or(h);
                    if self.corrupt.contains(&owner) && self.rng.gen_bool(0.8) {
                        let st = self.sim.rids.get(&rid).copied();
                        let num = st.map(|st| self.sim.scripts[st.half as usize].rounds[st.ri].num).unwrap_or(0);
                        let half = st.map(|st| st.half).unwrap_or(0);
                        let f = forged_part(&mut self.rng, half, num, E, owner, h, 0);
                        let pl: Payloads = [None, Some(ser::<SP, _>(&f)), None];
                        let sid = if self.rng.gen_bool(0.9) { self.sim.sid.clone() } else { self.shadow_sid.clone() };
                        let v = to_value(&forge::<SP>(&mut self.rng, owner, h, &sid, &rid, pl));
                        *at_mut(doc, &p).unwrap() = s.part(&v, E).clone();
                    } else {
                        let m = match self.rng.gen_range(0..3) {
                            0 => self.mat(Some(owner), None, Some(&rid)),
                            1 => self.mat(None, Some(E), Some(&rid)),
                            _ => self.mat(Some(owner), Some(E), None),
                        };
                        if let Some(m) = m {
                            *at_mut(doc, &p).unwrap() = m.part;
                        }
                    }
                }
                "aim-others"
            }
            // Another echo pack
            5 => {
                let all = paths(doc, &|x| is_part::<SP>(x), &|x| is_part::<SP>(x));
                let packs: Vec<Path> = all
                    .into_iter()
                    .filter(|p| p.iter().any(|x| matches!(x, Seg::Key(k) if k == "echo_hashes")))
                    .collect();
                if let Some(p) = self.choose(&packs) {
                    let rid = s.rid(at(doc, &p).unwrap()).unwrap();
                    let any: Vec<Mat> = self
                        .mats
                        .iter()
                        .filter(|m| m.kind == N && is_echo(&m.rid) && (m.by == h || m.rid == rid))
                        .cloned()
                        .collect();
                    let empty: Vec<Mat> = any.iter().filter(|m| m.empty_pack && m.by == h).cloned().collect();
                    let any = if !empty.is_empty() && self.rng.gen() { empty } else { any };
                    if let Some(m) = self.choose(&any) {
                        *at_mut(doc, &p).unwrap() = m.part;
                    }
                }
                "aim-pack"
            }
            // A different error with the same messages
            _ => {
                if let Some(x) = doc.pointer("/evidence/Protocol/error").cloned() {
                    let _ = x;
                    let b = ser::<SP, _>(&self.body());
                    *doc.pointer_mut("/evidence/Protocol/error").unwrap() = b64::<SP>(&b);
                }
                "aim-error"
            }
        }
    }
}

impl<W: World, SP: Params> Forger<'_, W, SP> {
    /// Some parts replaced by arbitrary ones which corrupt parties have properly signed.
    fn resign(&mut self, doc: &mut Value, c: Id) -> &'static str {
        let s = Schema::get::<SP>();
        for _ in 0..self.rng.gen_range(1..3) {
            let all = paths(doc, &|x| is_part::<SP>(x), &|x| is_part::<SP>(x));
            let Some(p) = self.choose(&all) else { break };
            let kind = kind_at(&p);
            let other = p.iter().any(|x| matches!(x, Seg::Key(k) if k == "other_echo_broadcasts"));
            let mut key = p.clone();
            key.pop();
            key.push(Seg::Idx(0));
            let owner = match at(doc, &key).and_then(|x| x.as_u64()) {
                Some(x) if other => Id(x as u32),
                _ => c,
            };
            if !self.corrupt.contains(&owner) {
                continue;
            }
            let part = at(doc, &p).unwrap().clone();
            let Some(mut rid) = s.rid(&part) else { continue };
            if self.rng.gen_bool(0.1) {
                rid = self.rid();
            }
            let sid = if self.rng.gen_bool(0.9) { self.sim.sid.clone() } else { self.shadow_sid.clone() };
            let old = s.payload_bytes(&part);
            let payload = match (self.rng.gen_range(0..7), old) {
                (0, _) => None,
                (1, _) => Some(Vec::new()),
                (2, _) => Some((0..self.rng.gen_range(1..60)).map(|_| self.rng.gen()).collect()),
                (3, Some(x)) if !x.is_empty() => Some(x[..self.rng.gen_range(0..x.len())].to_vec()),
                (4 | 5, Some(mut x)) if !x.is_empty() => {
                    for _ in 0..self.rng.gen_range(1..3) {
                        let i = self.rng.gen_range(0..x.len());
                        x[i] = if SP::HUMAN { *b"0123456789abcf\"[]{},".choose(&mut self.rng).unwrap() } else { self.rng.gen() };
                    }
                    Some(x)
                }
                _ => self.mat(None, None, None).and_then(|m| m.payload),
            };
            let mut pl: Payloads = [None, None, None];
            pl[kind] = payload;
            let v = to_value(&forge::<SP>(&mut self.rng, owner, c, &sid, &rid, pl));
            *at_mut(doc, &p).unwrap() = s.part(&v, kind).clone();
        }
        "signed by corrupt parties"
    }
}

fn digest(doc: &str) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    doc.hash(&mut h);
    h.finish()
}

fn case<W: World, SP: Params>(profile: Profile, seed: u64, debug: bool) -> Outcome {
    let d = simulate::<W, SP>(profile, seed, true);
    let mut mon = Mon { chain: W::HALVES.len() > 1, ..Mon::default() };
    let sim = &d.sim;
    let honest: Vec<Id> = sim.honest.iter().copied().collect();
    let corrupt: Vec<Id> = d.corrupt.iter().copied().collect();
    let mut mats = Vec::new();
    for e in &sim.messages {
        if e.genuine || corrupt.contains(&e.from) {
            materials::<SP>(e.from, e.to, &e.v, 0, &mut mats);
        }
    }
    for f in &d.adv.shadow {
        materials::<SP>(f.from, f.to, &f.v, 1, &mut mats);
    }
    // The reports are public, too
    let docs = documents(sim);
    for doc in &docs {
        for p in part_paths::<SP>(doc) {
            let mut owner = p.clone();
            owner.pop();
            owner.push(Seg::Idx(0));
            let other = p.iter().any(|x| matches!(x, Seg::Key(k) if k == "other_echo_broadcasts"));
            let by = if other { at(doc, &owner) } else { doc.get("guilty_party") };
            let part = at(doc, &p).unwrap().clone();
            if let (Some(by), Some(rid)) = (by.and_then(|x| x.as_u64()), Schema::get::<SP>().rid(&part)) {
                let payload = Schema::get::<SP>().payload_bytes(&part);
                mats.push(Mat { by: Id(by as u32), to: Id(0), kind: kind_at(&p), rid, part, payload, session: 3, empty_pack: false });
                mon.count("parts_from_reports");
            }
        }
    }
    // Another protocol with rounds of the same kind and the same parties
    let mut rng = ChaCha8Rng::seed_from_u64(seed ^ 0xa17);
    let o = GenOpts { force_echo: true, max_rounds: 5, branching: false, ..GenOpts::default() };
    // Preferably with a party that has nothing to echo in some round, but something in another
    let want = |scripts: &[Script]| {
        scripts.iter().any(|s| {
            sim.parties.iter().any(|h| {
                let path = s.path(*h);
                let empty = |r: &RoundSpec| {
                    let p = &r.per[h];
                    combo_has(r.num, E) && p.expects.is_empty() && !p.dests.is_empty() && matches!(p.echo, EchoRole::Default)
                };
                path.iter().any(|i| empty(&s.rounds[*i]))
                    && path.iter().any(|i| {
                        let r = &s.rounds[*i];
                        !r.per[h].dests.is_empty() && r.claims.iter().any(|c| s.by_num(*c).is_some_and(|x| !empty(x) && !x.per[h].expects.is_empty()))
                    })
            })
        })
    };
    let mut alt = gen_world::<W>(&mut rng, &sim.parties, &o);
    for _ in 0..60 {
        if want(&alt) {
            mon.count("alternatives_with_empty_packs");
            break;
        }
        alt = gen_world::<W>(&mut rng, &sim.parties, &o);
    }
    let run = std::sync::Arc::new(Run::new(alt.clone()));
    let runs = sim.parties.iter().map(|p| (*p, run.clone())).collect();
    let alt_sid = SessionId::from_seed::<SP>(&[&seed.to_be_bytes()[..], b"other"].concat());
    let mut other = Sim::<W, SP>::new(rng.gen(), alt_sid, alt.clone(), sim.parties.clone(), runs, SchedOpts::default(), Ledger::default());
    other.run(&mut NoAdversary, 3000);
    for e in &other.messages {
        materials::<SP>(e.from, e.to, &e.v, 2, &mut mats);
    }
    mon.add("materials", mats.len() as u64);
    mon.add("empty_packs", mats.iter().filter(|m| m.empty_pack).count() as u64);
    let shared = W::shared(&sim.nodes.iter().find(|n| n.honest).unwrap().run);
    let mut f = Forger {
        rng: ChaCha8Rng::seed_from_u64(seed ^ 0xf00d),
        sim,
        mats,
        honest: honest.clone(),
        corrupt,
        shadow_sid: d.adv.shadow_sid.clone(),
        alt,
    };
    let mut traces = Vec::new();
    let mut text = Vec::new();
    let mut seen = HashSet::new();
    let mut judge = |doc: &Value, how: &str, mon: &mut Mon| {
        let t = doc.to_string();
        let h = digest(&t);
        if !seen.insert(h) {
            return;
        }
        traces.push(h);
        mon.count("cases");
        let tag = tag_of(doc);
        let e = match guard_any(|| serde_json::from_str::<Evidence<W::P, SP>>(&t)) {
            Err(p) => {
                for c in ["C07", "C14"] {
                    mon.bad(c, format!("decoding evidence ({how}) panicked: {p}; {t}"));
                }
                return;
            }
            Ok(Err(_)) => {
                mon.count("undecodable");
                if debug {
                    mon.count(&format!("undecodable {how}"));
                }
                return;
            }
            Ok(Ok(e)) => e,
        };
        mon.count(&format!("decoded {}", if tag.len() < 30 { tag.as_str() } else { "?" }));
        let guilty = *e.guilty_party();
        match guard_any(|| e.verify(&shared).map_err(|e| format!("{e:?}"))) {
            Err(p) => {
                mon.bad("C07", format!("verifying evidence ({how}) panicked: {p}; {t}"));
            }
            Ok(Ok(())) => {
                if honest.contains(&guilty) {
                    mon.bad("C07", format!("forged evidence against the honest {guilty:?} verifies ({how}): {t}"));
                } else {
                    mon.count("verifies_against_corrupt");
                }
            }
            Ok(Err(e)) => {
                if honest.contains(&guilty) {
                    mon.count("forgeries_against_honest_rejected");
                }
                if e.contains("does not prove anything (complete: true)") {
                    mon.count("rejected_by_protocol_complete");
                } else if e.contains("does not prove anything") {
                    mon.count("rejected_by_protocol_incomplete");
                } else {
                    let short: String = e.chars().filter(|c| !c.is_ascii_digit()).take(70).collect();
                    mon.count(&format!("reason {short}"));
                }
            }
        }
    };
    let t = templates();
    if !form_known() {
        mon.count("documents_of_another_form");
    }
    mon.add("genuine_evidence", docs.len() as u64);
    // What was really reported
    for doc in &docs {
        judge(doc, "genuine", &mut mon);
    }
    if debug {
        for (k, v) in t {
            text.push(format!("{k}: {}", serde_json::to_string(&v[0]).unwrap()));
        }
    }
    // Everything honest parties sent declared invalid
    for h in f.honest.clone() {
        let mine: Vec<Mat> = f.mats.iter().filter(|m| m.by == h).cloned().collect();
        let leaked = mine.iter().filter(|m| m.session == 3).cloned().collect::<Vec<_>>();
        let some = mine.choose_multiple(&mut f.rng, 30).cloned().chain(leaked).collect::<Vec<_>>();
        for m in some {
            for tag in ["InvalidDirectMessage", "InvalidEchoBroadcast", "InvalidNormalBroadcast"] {
                if let Some(x) = t.get(tag).and_then(|v| v.first()) {
                    let mut doc = x.clone();
                    f.set_guilty(&mut doc, h);
                    doc["evidence"][tag] = m.part.clone();
                    judge(&doc, "declared invalid", &mut mon);
                }
            }
        }
        // Echo packs
        let packs: Vec<Mat> = mine.iter().filter(|m| is_echo(&m.rid) && m.kind == N).cloned().collect();
        if let Some(x) = t.get("InvalidEcho").and_then(|v| v.first()) {
            for m in packs.choose_multiple(&mut f.rng, 4).cloned().collect::<Vec<_>>() {
                for who in f.sim.parties.iter().copied().chain([Id(1000)]) {
                    let mut doc = x.clone();
                    f.set_guilty(&mut doc, h);
                    doc["evidence"]["InvalidEcho"]["normal_broadcast"] = m.part.clone();
                    doc["evidence"]["InvalidEcho"]["error"]["invalid_echo_sender"] = Value::from(who.0);
                    judge(&doc, "pack declared invalid", &mut mon);
                }
            }
        }
        // Pairs of parts
        if let Some(x) = t.get("MismatchedBroadcasts").and_then(|v| v.first()) {
            let base = x.pointer("/evidence/MismatchedBroadcasts/error/echoed_to_us").cloned();
            for _ in 0..12 {
                let (Some(base), Some(a)) = (&base, mine.choose(&mut f.rng).cloned()) else { break };
                let same = f.rng.gen_bool(0.8).then_some(&a.rid);
                let b = mine.iter().filter(|m| same.is_none_or(|r| *r == m.rid)).cloned().collect::<Vec<_>>();
                let b = b.choose(&mut f.rng).unwrap().clone();
                let mut doc = x.clone();
                f.set_guilty(&mut doc, h);
                doc["evidence"]["MismatchedBroadcasts"]["error"]["guilty_party"] = Value::from(h.0);
                doc["evidence"]["MismatchedBroadcasts"]["error"]["we_received"] = a.part.clone();
                if let Some(e) = hash_like::<SP>(base, &b.part, b.kind) {
                    doc["evidence"]["MismatchedBroadcasts"]["error"]["echoed_to_us"] = e;
                    judge(&doc, "pair", &mut mon);
                }
            }
        }
    }
    for _ in 0..60 {
        let Some(h) = f.choose(&f.honest.clone()) else { break };
        // Evidence in order, except that there is nothing wrong with the messages
        mon.count("coherent_attempts");
        for _ in 0..2 {
            let Some((doc, body)) = f.coherent(h) else { continue };
            mon.count(match body.why {
                Why::Content => "coherent_content",
                Why::Ref(..) if body.prev.is_empty() => "coherent_ref_this",
                Why::Ref(..) => "coherent_ref_previous",
                Why::Claim(_) => "coherent_claim",
            });
            judge(&doc, "coherent", &mut mon);
            for _ in 0..3 {
                let mut x = doc.clone();
                let how = f.aim(&mut x, h);
                judge(&x, how, &mut mon);
                if f.rng.gen_bool(0.5) {
                    f.mutate(&mut x, h);
                    judge(&x, "aimed and mutated", &mut mon);
                }
            }
        }
        // Malformed evidence all signatures of which are in order
        if let Some(c) = f.choose(&f.corrupt.clone()) {
            let mine: Vec<Value> = docs.iter().filter(|d| d.get("guilty_party") == Some(&Value::from(c.0))).cloned().collect();
            let base = match f.coherent(c) {
                Some((doc, _)) if mine.is_empty() || f.rng.gen_bool(0.7) => Some(doc),
                _ => f.choose(&mine),
            };
            if let Some(doc) = base {
                for _ in 0..3 {
                    let mut x = doc.clone();
                    if f.rng.gen_bool(0.3) {
                        f.aim(&mut x, c);
                    }
                    let how = f.resign(&mut x, c);
                    mon.count("malformed_and_signed");
                    judge(&x, how, &mut mon);
                }
            }
        }
        // Evidence against somebody else turned into one against an honest party
        let base = if !docs.is_empty() && f.rng.gen_bool(0.6) {
            f.choose(&docs).unwrap()
        } else {
            let tags: Vec<String> = t.keys().cloned().collect();
            let tag = f.choose(&tags).unwrap();
            f.choose(&t[&tag]).unwrap()
        };
        let mut x = base.clone();
        let all = f.rng.gen_bool(0.3);
        if f.rng.gen_bool(0.7) {
            f.transplant(&mut x, h, all);
            judge(&x, "transplanted", &mut mon);
        }
        for _ in 0..3 {
            let mut y = x.clone();
            let n = f.rng.gen_range(1..4);
            let mut how = "";
            for _ in 0..n {
                how = f.mutate(&mut y, h);
            }
            judge(&y, how, &mut mon);
        }
    }
    let trace = mix(seed, d.shape);
    Outcome { mon, trace, shape: d.shape, text, traces }
}

pub fn run(seed: u64, debug: bool) -> Outcome {
    let mut rng = ChaCha8Rng::seed_from_u64(seed ^ 0xe51d);
    let profile = *[
        Profile::Content,
        Profile::Content,
        Profile::Content,
        Profile::Equivocate,
        Profile::Equivocate,
        Profile::Packs,
        Profile::Hostile,
    ]
    .choose(&mut rng)
    .unwrap();
    let s: u64 = rng.gen();
    let bin = profile != Profile::Packs;
    match rng.gen_range(0..7) {
        0 | 1 if bin => case::<Plain, Sp<Bin>>(profile, s, debug),
        0..=3 => case::<Plain, Sp<Json>>(profile, s, debug),
        4 if bin => case::<ChainW<15, 15>, Sp<Bin>>(profile, s, debug),
        4 | 5 => case::<ChainW<15, 15>, Sp<Json>>(profile, s, debug),
        _ => case::<ChainLW<15, 10, 15>, Sp<Json>>(profile, s, debug),
    }
}

