//! Serialization: round trips, and decoding of damaged data.

use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::fmt::Debug;
use std::sync::{Arc, Mutex};

use manul::protocol::*;
use manul::session::{CanFinalize, Evidence, Message, PreprocessOutcome, RoundOutcome, Session, SessionId};
use manul::utils::SerializableMap;
use rand::seq::SliceRandom;
use rand::Rng;
use crate::light::ChaCha8Rng;
use rand_core::{CryptoRngCore, SeedableRng};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::{json, Value};

use crate::check::hash64;
use crate::oracle::guard_any;
use crate::scen::{self, simulate, Outcome, Profile};
use crate::sim::*;
use crate::sp::*;
use crate::spec::*;
use crate::surgery::*;

/// A way to turn objects into bytes and back.
pub trait Codec {
    const NAME: &'static str;
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String>;
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String>;
}
pub struct CJson;
impl Codec for CJson {
    const NAME: &'static str = "json";
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        serde_json::to_vec(v).map_err(|e| e.to_string())
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        serde_json::from_slice(b).map_err(|e| e.to_string())
    }
}
pub struct CPost;
impl Codec for CPost {
    const NAME: &'static str = "postcard";
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        postcard::to_allocvec(v).map_err(|e| e.to_string())
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        postcard::from_bytes(b).map_err(|e| e.to_string())
    }
}
pub struct CWire<SP>(std::marker::PhantomData<SP>);
impl<SP: Params> Codec for CWire<SP> {
    const NAME: &'static str = "wire format";
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        <SP::F as manul::session::WireFormat>::serialize(v).map(|x| x.into()).map_err(|e| e.to_string())
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        de::<SP, T>(b)
    }
}
/// Through a document
pub struct CValue;
impl Codec for CValue {
    const NAME: &'static str = "json document";
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        serde_json::to_value(v).map(|x| x.to_string().into_bytes()).map_err(|e| e.to_string())
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        let v: Value = serde_json::from_slice(b).map_err(|e| e.to_string())?;
        serde_json::from_value(v).map_err(|e| e.to_string())
    }
}
pub struct CAsn;
impl Codec for CAsn {
    const NAME: &'static str = "asn1";
    fn ser<T: Serialize>(v: &T) -> Result<Vec<u8>, String> {
        serde_asn1_der::to_vec(v).map_err(|e| e.to_string())
    }
    fn de<T: DeserializeOwned>(b: &[u8]) -> Result<T, String> {
        serde_asn1_der::from_bytes(b).map_err(|e| e.to_string())
    }
}

fn round_trip<C: Codec, T: Serialize + DeserializeOwned + Debug>(v: &T, what: &str, mon: &mut Mon) -> Option<Vec<u8>> {
    mon.count("round_trips");
    mon.count(&format!("round_trips {what} {}", C::NAME));
    let res = guard_any(|| -> Result<Vec<u8>, String> {
        let b = C::ser(v).map_err(|e| format!("cannot be serialized: {e}"))?;
        let x: T = C::de(&b).map_err(|e| format!("cannot be restored: {e}"))?;
        if format!("{x:?}") != format!("{v:?}") {
            return Err(format!("restored as {x:?} from {v:?}"));
        }
        if C::ser(&x)? != b {
            return Err("serialized differently afterwards".into());
        }
        if CJson::ser(&x)? != CJson::ser(v)? {
            return Err("serialized differently (in JSON) afterwards".into());
        }
        Ok(b)
    });
    match res {
        Ok(Ok(b)) => Some(b),
        Ok(Err(e)) => {
            mon.bad("C14", format!("{what} ({}): {e}", C::NAME));
            None
        }
        Err(p) => {
            mon.bad("C14", format!("{what} ({}): panicked: {p}", C::NAME));
            None
        }
    }
}

/// Decodes whatever was given; anything decoded has to be well-formed.
fn decode<C: Codec, T: Serialize + DeserializeOwned + Debug>(b: &[u8], what: &str, mon: &mut Mon) -> Option<T> {
    mon.count("cases");
    mon.count(&format!("damaged {what} {}", C::NAME));
    let show = || match std::str::from_utf8(b) {
        Ok(t) => t.chars().take(1500).collect(),
        Err(_) => hex(&b[..b.len().min(800)]),
    };
    match guard_any(|| C::de::<T>(b)) {
        Err(p) => {
            mon.bad("C14", format!("decoding damaged {what} ({}) panicked: {p}; {}", C::NAME, show()));
            None
        }
        Ok(Err(_)) => {
            mon.count("rejected");
            None
        }
        Ok(Ok(x)) => {
            mon.count(&format!("damaged {what} decoded"));
            let res = guard_any(|| -> Result<(), String> {
                let y = C::ser(&x)?;
                let z: T = C::de(&y).map_err(|e| format!("cannot be restored: {e}"))?;
                if format!("{z:?}") != format!("{x:?}") {
                    return Err(format!("restored as {z:?} from {x:?}"));
                }
                CJson::ser(&x)?;
                CPost::ser(&x)?;
                Ok(())
            });
            match res {
                Ok(Ok(())) => Some(x),
                Ok(Err(e)) => {
                    mon.bad("C14", format!("{what} decoded from damaged data ({}) is not well-formed: {e}; {}", C::NAME, show()));
                    None
                }
                Err(p) => {
                    mon.bad("C14", format!("{what} decoded from damaged data ({}): panicked: {p}; {}", C::NAME, show()));
                    None
                }
            }
        }
    }
}

/// Byte-level damage.
fn damage(rng: &mut impl Rng, b: &[u8], other: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..*[1, 1, 1, 2, 4].choose(rng).unwrap() {
        if b.is_empty() {
            b.push(rng.gen());
            continue;
        }
        let i = rng.gen_range(0..b.len());
        match rng.gen_range(0..9) {
            0 => b.truncate(i),
            1 => b[i] ^= 1 << rng.gen_range(0..8),
            2 => b[i] = *[0u8, 1, 2, 0x7f, 0x80, 0xff, b'"', b'[', b'{', b'0', b'-'].choose(rng).unwrap(),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, rng.gen()),
            5 => {
                // A huge length
                for k in 0..rng.gen_range(1..6) {
                    if i + k < b.len() {
                        b[i + k] = 0xff;
                    }
                }
            }
            6 if !other.is_empty() => {
                // The beginning of one, the rest of another
                let j = rng.gen_range(0..other.len());
                b.truncate(i);
                b.extend_from_slice(&other[j..]);
            }
            7 => {
                // A repetition
                let j = rng.gen_range(i..b.len().min(i + 60));
                let piece = b[i..j].to_vec();
                b.splice(i..i, piece);
            }
            _ => {
                let j = rng.gen_range(i..b.len().min(i + 40));
                b.drain(i..j);
            }
        }
    }
    b
}

fn strange(rng: &mut impl Rng, depth: u32) -> Value {
    match rng.gen_range(0..14) {
        0 => Value::Null,
        1 => json!(rng.gen::<bool>()),
        2 => json!(rng.gen::<u64>()),
        3 => json!(rng.gen::<i32>()),
        4 => json!(*[0u64, 1, 255, 256, 65535, 1 << 32, u64::MAX].choose(rng).unwrap()),
        5 => json!(1e300),
        6 => json!(-0.5),
        7 => json!(""),
        8 => {
            let mut s = *["0x", "0xf", "zz", "é", "\u{0}", "A", "AA", "AAA", "AAAA", "====", "0X00", "Protocol"].choose(rng).unwrap();
            if s.len() == 100 {
                s = "";
            }
            json!(s)
        }
        9 => {
            let mut b = vec![0u8; rng.gen_range(0..80)];
            rng.fill_bytes(&mut b);
            json!(format!("0x{}", hex(&b)))
        }
        10 => json!("A".repeat(rng.gen_range(0..300))),
        11 if depth > 0 => Value::Array((0..rng.gen_range(0..4)).map(|_| strange(rng, depth - 1)).collect()),
        12 if depth > 0 => {
            let mut v = strange(rng, 0);
            for _ in 0..rng.gen_range(0..200) {
                v = Value::Array(vec![v]);
            }
            v
        }
        _ => json!({}),
    }
}

/// Structural damage.
fn mangle(rng: &mut impl Rng, v: &mut Value, pool: &[Value]) {
    let all = find(v, |_| true);
    let p = all.choose(rng).unwrap().clone();
    let fresh = match rng.gen_range(0..3) {
        0 if !pool.is_empty() => {
            let o = pool.choose(rng).unwrap();
            let q = find(o, |_| true);
            at(o, q.choose(rng).unwrap()).unwrap().clone()
        }
        _ => strange(rng, 2),
    };
    let node = at_mut(v, &p).unwrap();
    match rng.gen_range(0..6) {
        0 => *node = fresh,
        1 => match node {
            Value::Array(a) if !a.is_empty() => {
                let i = rng.gen_range(0..a.len());
                a.remove(i);
            }
            Value::Object(m) if !m.is_empty() => {
                let k = m.keys().nth(rng.gen_range(0..m.len())).unwrap().clone();
                m.remove(&k);
            }
            _ => *node = Value::Null,
        },
        2 => match node {
            Value::Array(a) => {
                let i = rng.gen_range(0..=a.len());
                let x = if a.is_empty() || rng.gen() { fresh } else { a[rng.gen_range(0..a.len())].clone() };
                a.insert(i, x);
            }
            Value::Object(m) => {
                m.insert("unknown".into(), fresh);
            }
            _ => *node = fresh,
        },
        3 => match node {
            Value::Number(n) => {
                let x = n.as_u64().unwrap_or(0);
                *node = json!(*[x.wrapping_add(1), x.wrapping_sub(1), 0, x ^ 128, x.wrapping_mul(7)].choose(rng).unwrap());
            }
            Value::String(s) => {
                let mut c: Vec<char> = s.chars().collect();
                if !c.is_empty() {
                    let i = rng.gen_range(0..c.len());
                    match rng.gen_range(0..3) {
                        0 => {
                            c.remove(i);
                        }
                        1 => c[i] = *['0', 'f', 'F', 'g', '=', '-', '_', '+', '/', 'x', 'é'].choose(rng).unwrap(),
                        _ => c.truncate(i),
                    }
                }
                *s = c.into_iter().collect();
            }
            Value::Bool(b) => *b = !*b,
            _ => *node = fresh,
        },
        4 => {
            // Of the same type from elsewhere
            let kind = std::mem::discriminant(node);
            let mut same = Vec::new();
            for o in pool {
                for q in find(o, |x| std::mem::discriminant(x) == kind) {
                    same.push(at(o, &q).unwrap().clone());
                }
                if same.len() > 300 {
                    break;
                }
            }
            if let Some(x) = same.choose(rng) {
                *node = x.clone();
            }
        }
        _ => {
            if let Value::Array(a) = node {
                a.shuffle(rng);
            } else {
                *node = fresh;
            }
        }
    }
}

/// Repeats a key of some object in the text of the document.
fn repeat_key(rng: &mut impl Rng, v: &Value) -> Option<String> {
    let objs = find(v, |x| x.as_object().is_some_and(|m| !m.is_empty()));
    let p = objs.choose(rng)?.clone();
    let mut w = v.clone();
    let node = at_mut(&mut w, &p)?;
    let m = node.as_object()?.clone();
    let k = m.keys().nth(rng.gen_range(0..m.len()))?.clone();
    let inner = m.iter().map(|(a, b)| format!("{}:{}", json!(a), b)).collect::<Vec<_>>().join(",");
    let text = format!("{{{},{inner}}}", format_args!("{}:{}", json!(k), m[&k]));
    *node = json!("@@HERE@@");
    Some(w.to_string().replace("\"@@HERE@@\"", &text))
}

/// The maps in the evidence: sequences of pairs.
fn maps(doc: &Value) -> Vec<Path> {
    find(doc, |x| {
        x.as_array().is_some_and(|a| {
            !a.is_empty()
                && a.iter().all(|e| e.as_array().is_some_and(|p| p.len() == 2 && (p[1].is_object() || p[0].is_u64()) && !p[1].is_number()))
        })
    })
}

fn evidence_case<W: World, SP: Params>(seed: u64, mon: &mut Mon, traces: &mut Vec<u64>) {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let profile = *[Profile::Content, Profile::Equivocate, Profile::Packs, Profile::Hostile].choose(&mut rng).unwrap();
    let profile = if !SP::HUMAN && profile == Profile::Packs { Profile::Equivocate } else { profile };
    let d = simulate::<W, SP>(profile, rng.gen(), false);
    let sim = &d.sim;
    let Some(shared) = sim.nodes.iter().find(|n| n.honest).map(|n| W::shared(&n.run)) else { return };
    // Messages
    let pool: Vec<Value> = sim.messages.iter().rev().take(40).map(|e| (*e.v).clone()).collect();
    let mut msgs: Vec<&Env> = sim.messages.iter().collect();
    msgs.shuffle(&mut rng);
    msgs.truncate(6);
    let mut blobs: Vec<[Vec<u8>; 2]> = Vec::new();
    for e in &msgs {
        let Some(m) = to_message(&e.v) else { continue };
        round_trip::<CJson, Message<Id>>(&m, "message", mon);
        round_trip::<CValue, Message<Id>>(&m, "message", mon);
        let p = round_trip::<CPost, Message<Id>>(&m, "message", mon);
        let w = round_trip::<CWire<SP>, Message<Id>>(&m, "message", mon);
        if let (Some(p), Some(w)) = (p, w) {
            blobs.push([p, w]);
        }
    }
    let handle = |m: Message<Id>, rng: &mut ChaCha8Rng, mon: &mut Mon| {
        let to = *sim.honest.iter().next().unwrap();
        let from = *sim.parties.iter().find(|p| **p != to).unwrap_or(&Id(77));
        let run = Arc::new(Run::new(sim.scripts.clone()));
        let res = guard(|| {
            let s = Session::<W::P, SP>::new(rng, sim.sid.clone(), Signer::new(to), W::entry(&run))?;
            let mut a = s.make_accumulator();
            let _ = m.destination();
            match s.preprocess_message(&mut a, &from, m)? {
                PreprocessOutcome::ToProcess(m) => {
                    let p = s.process_message(*m);
                    s.add_processed_message(&mut a, p)?;
                    Ok("processed")
                }
                PreprocessOutcome::Cached => Ok("cached"),
                PreprocessOutcome::Error(_) => Ok("error"),
            }
        });
        match res {
            Ok(k) => mon.count(&format!("damaged message delivered: {k}")),
            Err(Fault_::Local(e)) => {
                for p in ["C08", "C14"] {
                    mon.bad(p, format!("a damaged message lead to a local error: {e}"));
                }
            }
            Err(Fault_::Panic(e)) => {
                for p in ["C08", "C14"] {
                    mon.bad(p, format!("a damaged message lead to a panic: {e}"));
                }
            }
        }
    };
    for e in msgs.iter().take(4) {
        for _ in 0..25 {
            let mut v = (*e.v).clone();
            for _ in 0..*[1, 1, 2, 3].choose(&mut rng).unwrap() {
                mangle(&mut rng, &mut v, &pool);
            }
            let t = v.to_string().into_bytes();
            traces.push(hash64(&t));
            if let Some(m) = decode::<CJson, Message<Id>>(&t, "message", mon) {
                handle(m, &mut rng, mon);
            }
        }
        if let Some(t) = repeat_key(&mut rng, &e.v) {
            if decode::<CJson, Message<Id>>(t.as_bytes(), "message", mon).is_some() {
                mon.bad("C14", format!("a message with a duplicate field is accepted: {t}"));
            }
            mon.count("duplicate_keys_tried");
        }
        let t = e.v.to_string().into_bytes();
        for _ in 0..25 {
            let b = damage(&mut rng, &t, &t);
            traces.push(hash64(&b));
            if let Some(m) = decode::<CJson, Message<Id>>(&b, "message", mon) {
                handle(m, &mut rng, mon);
            }
        }
    }
    for k in 0..blobs.len().min(4) {
        for _ in 0..50 {
            let j = rng.gen_range(0..blobs.len());
            let b = damage(&mut rng, &blobs[k][0], &blobs[j][0]);
            traces.push(hash64(&b));
            if let Some(m) = decode::<CPost, Message<Id>>(&b, "message", mon) {
                handle(m, &mut rng, mon);
            }
            let b = damage(&mut rng, &blobs[k][1], &blobs[j][1]);
            traces.push(hash64(&b));
            if let Some(m) = decode::<CWire<SP>, Message<Id>>(&b, "message", mon) {
                handle(m, &mut rng, mon);
            }
        }
        // Every prefix
        if rng.gen_bool(0.1) {
            for n in 0..blobs[k][0].len() {
                if decode::<CPost, Message<Id>>(&blobs[k][0][..n], "message", mon).is_some() {
                    mon.bad("C14", "a truncated message is accepted");
                }
            }
        }
    }
    // Evidence
    type Ev_<W, SP> = Evidence<<W as World>::P, SP>;
    let docs = crate::evid::documents(sim);
    let handle = |e: Ev_<W, SP>, what: &str, mon: &mut Mon| {
        let res = guard_any(|| {
            let _ = e.guilty_party();
            let _ = e.description();
            e.verify(&shared).is_ok()
        });
        match res {
            Ok(true) => mon.count("damaged evidence verified"),
            Ok(false) => mon.count("damaged evidence refuted"),
            Err(p) => {
                for c in ["C07", "C14"] {
                    mon.bad(c, format!("verifying damaged evidence ({what}) panicked: {p}; {}", serde_json::to_string(&e).unwrap_or_default()));
                }
            }
        }
    };
    let mut bins: Vec<[Vec<u8>; 2]> = Vec::new();
    for n in &sim.nodes {
        let Some(r) = &n.report else { continue };
        for e in r.provable_errors.values() {
            round_trip::<CJson, Ev_<W, SP>>(e, "evidence", mon);
            round_trip::<CValue, Ev_<W, SP>>(e, "evidence", mon);
            let p = round_trip::<CPost, Ev_<W, SP>>(e, "evidence", mon);
            let w = round_trip::<CWire<SP>, Ev_<W, SP>>(e, "evidence", mon);
            if let (Some(p), Some(w)) = (p, w) {
                bins.push([p, w]);
            }
        }
    }
    let mut evs: Vec<Value> = docs.clone();
    for v in crate::evid::templates().values() {
        evs.extend(v.iter().cloned());
    }
    for doc in evs.choose_multiple(&mut rng, 8).cloned().collect::<Vec<_>>() {
        let t = doc.to_string().into_bytes();
        for k in 0..40 {
            let b = if k % 2 == 0 {
                let mut v = doc.clone();
                for _ in 0..*[1, 1, 2, 3].choose(&mut rng).unwrap() {
                    let from = if rng.gen() { &evs } else { &pool };
                    mangle(&mut rng, &mut v, from);
                }
                v.to_string().into_bytes()
            } else {
                damage(&mut rng, &t, &t)
            };
            traces.push(hash64(&b));
            if let Some(e) = decode::<CJson, Ev_<W, SP>>(&b, "evidence", mon) {
                handle(e, "json", mon);
            }
        }
        if let Some(t) = repeat_key(&mut rng, &doc) {
            if decode::<CJson, Ev_<W, SP>>(t.as_bytes(), "evidence", mon).is_some() {
                mon.bad("C14", format!("evidence with a duplicate field is accepted: {t}"));
            }
            mon.count("duplicate_keys_tried");
        }
        // Duplicate keys in the maps
        for p in maps(&doc) {
            let is_pack = |x: &Value| x.as_array().is_some_and(|a| a.iter().all(|e| e[0].is_u64()));
            let mut v = doc.clone();
            let a = at_mut(&mut v, &p).unwrap();
            let parties = is_pack(a);
            let a = a.as_array_mut().unwrap();
            let mut e = a[rng.gen_range(0..a.len())].clone();
            if rng.gen() {
                // Another value under the same key
                e[1] = a[rng.gen_range(0..a.len())][1].clone();
            }
            let i = rng.gen_range(0..=a.len());
            a.insert(i, e);
            let t = v.to_string();
            mon.count(if parties { "duplicate_party_keys_tried" } else { "duplicate_round_keys_tried" });
            if decode::<CJson, Ev_<W, SP>>(t.as_bytes(), "evidence", mon).is_some() {
                mon.bad("C14", format!("evidence with a duplicate key in a map is accepted: {t}"));
            }
        }
    }
    for k in 0..bins.len().min(4) {
        for _ in 0..60 {
            let j = rng.gen_range(0..bins.len());
            let b = damage(&mut rng, &bins[k][0], &bins[j][0]);
            traces.push(hash64(&b));
            if let Some(e) = decode::<CPost, Ev_<W, SP>>(&b, "evidence", mon) {
                handle(e, "postcard", mon);
            }
            let b = damage(&mut rng, &bins[k][1], &bins[j][1]);
            traces.push(hash64(&b));
            if let Some(e) = decode::<CWire<SP>, Ev_<W, SP>>(&b, "evidence", mon) {
                handle(e, "wire format", mon);
            }
        }
        if rng.gen_bool(0.1) {
            for n in 0..bins[k][0].len() {
                if decode::<CPost, Ev_<W, SP>>(&bins[k][0][..n], "evidence", mon).is_some() {
                    mon.bad("C14", "truncated evidence is accepted");
                }
            }
        }
    }
    // Identifiers
    for rid in sim.rids.keys() {
        round_trip::<CJson, RoundId>(rid, "round id", mon);
        round_trip::<CPost, RoundId>(rid, "round id", mon);
        round_trip::<CWire<SP>, RoundId>(rid, "round id", mon);
    }
    round_trip::<CJson, SessionId>(&sim.sid, "session id", mon);
    round_trip::<CPost, SessionId>(&sim.sid, "session id", mon);
}

/// Pairs with possibly repeated keys serialized as a map would be.
fn map_case<C: Codec, K, V>(rng: &mut ChaCha8Rng, key: impl Fn(&mut ChaCha8Rng) -> K, val: impl Fn(&mut ChaCha8Rng) -> V, mon: &mut Mon)
where
    K: Ord + Clone + Debug + Serialize + DeserializeOwned,
    V: Clone + Debug + PartialEq + Serialize + DeserializeOwned,
{
    let n = *[0usize, 1, 2, 2, 3, 5, 17, 130].choose(rng).unwrap();
    let mut pairs: Vec<(K, V)> = (0..n).map(|_| (key(rng), val(rng))).collect();
    if n > 0 && rng.gen_bool(0.4) {
        let mut x = pairs.choose(rng).unwrap().clone();
        if rng.gen() {
            x.1 = val(rng);
        }
        let i = rng.gen_range(0..=pairs.len());
        pairs.insert(i, x);
    }
    let dup = pairs.iter().map(|p| p.0.clone()).collect::<BTreeSet<_>>().len() != pairs.len();
    mon.count("cases");
    let Ok(b) = C::ser(&pairs) else { return };
    let res = guard_any(|| C::de::<SerializableMap<K, V>>(&b));
    let what = C::NAME;
    match res {
        Err(p) => mon.bad("C14", format!("decoding a map ({what}) panicked: {p}")),
        Ok(Ok(m)) => {
            if dup {
                mon.bad("C14", format!("a map with duplicate keys is accepted ({what}): {pairs:?}"));
                return;
            }
            mon.count("maps_decoded");
            let truth: BTreeMap<K, V> = pairs.into_iter().collect();
            if *m != truth {
                mon.bad("C14", format!("a map is decoded ({what}) as {m:?} instead of {truth:?}"));
            }
            let same: SerializableMap<K, V> = truth.clone().into();
            let back: Result<SerializableMap<K, V>, String> = C::ser(&same).and_then(|b| C::de(&b));
            if back.as_ref().map(|x| &**x) != Ok(&truth) {
                mon.bad("C14", format!("a map does not survive ({what}): {truth:?} -> {back:?}"));
            }
        }
        Ok(Err(e)) => {
            if dup {
                mon.count("duplicate_keys_rejected");
            } else {
                mon.bad("C14", format!("a map cannot be decoded ({what}): {pairs:?}: {e}"));
            }
        }
    }
    // Damaged
    for _ in 0..4 {
        let x = damage(rng, &b, &b);
        mon.count("cases");
        if let Err(p) = guard_any(|| C::de::<SerializableMap<K, V>>(&x).map(|m| C::ser(&m))) {
            mon.bad("C14", format!("decoding a damaged map ({what}) panicked: {p}: {}", hex(&x)));
        }
    }
}

fn maps_case(rng: &mut ChaCha8Rng, mon: &mut Mon) {
    fn each<C: Codec>(rng: &mut ChaCha8Rng, mon: &mut Mon) {
        map_case::<C, u8, u8>(rng, |r| r.gen(), |r| r.gen(), mon);
        map_case::<C, u32, Vec<u8>>(rng, |r| r.gen_range(0..3000), |r| (0..r.gen_range(0..9)).map(|_| r.gen()).collect(), mon);
        map_case::<C, String, u16>(rng, |r| (0..r.gen_range(0..7)).map(|_| r.gen_range('a'..'d')).collect(), |r| r.gen(), mon);
        map_case::<C, (u8, u16), String>(rng, |r| (r.gen(), r.gen()), |r| "x".repeat(r.gen_range(0..5)), mon);
    }
    each::<CJson>(rng, mon);
    each::<CPost>(rng, mon);
    each::<CAsn>(rng, mon);
    each::<CWire<Sp<Json>>>(rng, mon);
    each::<CWire<Sp<Bin>>>(rng, mon);
    // Nested
    map_case::<CJson, u8, SerializableMapWrap>(rng, |r| r.gen(), wrap, mon);
    map_case::<CPost, u8, SerializableMapWrap>(rng, |r| r.gen(), wrap, mon);
    map_case::<CAsn, u8, SerializableMapWrap>(rng, |r| r.gen(), wrap, mon);
    // A duplicate key inside of a nested map
    let inner = vec![(5u8, 1u8), (5, 2)];
    let good = vec![(5u8, 1u8)];
    for k in 0..2u8 {
        let pairs = if k == 0 { vec![(1u8, inner.clone()), (2, good.clone())] } else { vec![(1, good.clone()), (2, inner.clone())] };
        let b = [CJson::ser(&pairs).unwrap(), CPost::ser(&pairs).unwrap(), CAsn::ser(&pairs).unwrap()];
        type M = SerializableMap<u8, SerializableMap<u8, u8>>;
        if CJson::de::<M>(&b[0]).is_ok() || CPost::de::<M>(&b[1]).is_ok() || CAsn::de::<M>(&b[2]).is_ok() {
            mon.bad("C14", "a nested map with duplicate keys is accepted");
        }
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct SerializableMapWrap(SerializableMap<u8, u8>);
fn wrap(rng: &mut ChaCha8Rng) -> SerializableMapWrap {
    SerializableMapWrap((0..rng.gen_range(0..4)).map(|_| (rng.gen(), rng.gen())).collect())
}

// Payloads of various types

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
enum Shape {
    Unit,
    New(Box<Rich>),
    Two(u8, Option<String>),
    Named { x: Option<Option<u8>>, y: (), z: [u16; 3] },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Unit;
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Wrapped(Vec<(bool, i64)>);

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
struct Rich {
    a: (u8, u16, u32, u64),
    b: (i8, i16, i32, i64),
    f: (f32, f64),
    c: char,
    s: String,
    t: bool,
    o: Option<u32>,
    bytes: Vec<u8>,
    list: Vec<Shape>,
    map: BTreeMap<String, u8>,
    sm: SerializableMap<u16, String>,
    unit: Unit,
    wrapped: Wrapped,
}

fn rich(rng: &mut ChaCha8Rng, depth: u32) -> Rich {
    fn edge(rng: &mut ChaCha8Rng) -> u64 {
        let x: u64 = rng.gen();
        *[0, 1, x, x >> rng.gen_range(0..64), u64::MAX, 127, 128, 1 << 63, (1 << 63) - 1].choose(rng).unwrap()
    }
    let n = |r: &mut ChaCha8Rng| *[0usize, 1, 2, 5, 127, 128, 300].choose(r).unwrap();
    let text = |r: &mut ChaCha8Rng| -> String {
        (0..n(r)).map(|_| *['a', '"', '\\', '\u{0}', '\n', 'é', '日', '\u{10ffff}', '😀', '0'].choose(r).unwrap()).collect()
    };
    Rich {
        a: (edge(rng) as u8, edge(rng) as u16, edge(rng) as u32, edge(rng)),
        b: (edge(rng) as i8, edge(rng) as i16, edge(rng) as i32, edge(rng) as i64),
        f: (rng.gen_range(-1000..1000) as f32 / 8.0, rng.gen_range(-100000..100000) as f64 / 64.0),
        c: *['a', '\u{0}', '\u{10ffff}', '"', '日'].choose(rng).unwrap(),
        s: text(rng),
        t: rng.gen(),
        o: rng.gen::<bool>().then(|| edge(rng) as u32),
        bytes: (0..n(rng)).map(|_| rng.gen()).collect(),
        list: if depth == 0 {
            Vec::new()
        } else {
            (0..rng.gen_range(0..4))
                .map(|_| match rng.gen_range(0..4) {
                    0 => Shape::Unit,
                    1 => Shape::New(Box::new(rich(rng, depth - 1))),
                    2 => Shape::Two(rng.gen(), rng.gen::<bool>().then(|| text(rng))),
                    // `Some(None)` cannot be represented in JSON
                    _ => Shape::Named { x: rng.gen::<bool>().then(|| Some(rng.gen())), y: (), z: rng.gen() },
                })
                .collect()
        },
        map: (0..rng.gen_range(0..4)).map(|_| (text(rng), rng.gen())).collect(),
        sm: (0..rng.gen_range(0..4)).map(|_| (rng.gen(), text(rng))).collect(),
        unit: Unit,
        wrapped: Wrapped((0..n(rng) % 7).map(|_| (rng.gen(), edge(rng) as i64)).collect()),
    }
}

#[derive(Default, Debug)]
struct Table {
    sent: BTreeMap<(Id, u8), Rich>,
    got: BTreeMap<(Id, Id), (Rich, Rich, Rich)>,
}
type Shelf = Arc<Mutex<Table>>;

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct RichProtocol;
impl Protocol<Id> for RichProtocol {
    type Result = ();
    type SharedData = ();
    fn round_info(id: &RoundId) -> Option<RoundInfo<Id, Self>> {
        (*id == 1).then(RoundInfo::new::<RichRound>)
    }
}

#[derive(Debug)]
struct RichRound {
    me: Id,
    others: BTreeSet<Id>,
    shelf: Shelf,
    mine: [Rich; 3],
}

impl Round<Id> for RichRound {
    type Protocol = RichProtocol;
    type ProtocolError = NoProtocolErrors<Self>;
    type Payload = ();
    type Artifact = ();
    type DirectMessage = Rich;
    type EchoBroadcast = Rich;
    type NormalBroadcast = Rich;
    fn transition_info(&self) -> TransitionInfo {
        TransitionInfo::new_linear_terminating(1)
    }
    fn communication_info(&self) -> CommunicationInfo<Id> {
        CommunicationInfo::regular(&self.others)
    }
    fn make_direct_message(&self, _: &mut impl CryptoRngCore, _: &Id) -> Result<(Rich, ()), LocalError> {
        Ok((self.mine[D].clone(), ()))
    }
    fn make_echo_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<Rich, LocalError> {
        Ok(self.mine[E].clone())
    }
    fn make_normal_broadcast(&self, _: &mut impl CryptoRngCore) -> Result<Rich, LocalError> {
        Ok(self.mine[N].clone())
    }
    fn receive_message(&self, from: &Id, m: ProtocolMessage<Id, Self>) -> Result<(), ReceiveError<Id, Self>> {
        self.shelf.lock().unwrap().got.insert((self.me, *from), (m.direct_message, m.echo_broadcast, m.normal_broadcast));
        Ok(())
    }
    fn finalize(
        self,
        _: &mut impl CryptoRngCore,
        _: BTreeMap<Id, ()>,
        _: BTreeMap<Id, ()>,
    ) -> Result<FinalizeOutcome<Id, RichProtocol>, LocalError> {
        Ok(FinalizeOutcome::Result(()))
    }
}

#[derive(Debug)]
struct RichEntry(BTreeSet<Id>, Shelf, [Rich; 3]);
impl EntryPoint<Id> for RichEntry {
    type Protocol = RichProtocol;
    fn entry_round_id() -> RoundId {
        RoundId::new(1)
    }
    fn make_round(self, _: &mut impl CryptoRngCore, _: &[u8], id: &Id) -> Result<BoxedRound<Id, RichProtocol>, LocalError> {
        let mut others = self.0;
        others.remove(id);
        Ok(BoxedRound::new(RichRound { me: *id, others, shelf: self.1, mine: self.2 }))
    }
}

/// Payloads of all kinds of types reach the receiver unchanged, also if the messages are transferred as bytes.
fn rich_case<SP: Params>(seed: u64, mon: &mut Mon) {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let ids: BTreeSet<Id> = (1..=rng.gen_range(2..4)).map(Id).collect();
    let shelf = Shelf::default();
    let res = guard(|| {
        let sid = SessionId::from_seed::<SP>(&seed.to_be_bytes());
        let mut live = BTreeMap::new();
        for id in &ids {
            let mine = [rich(&mut rng, 2), rich(&mut rng, 1), rich(&mut rng, 1)];
            for (k, m) in mine.iter().enumerate() {
                shelf.lock().unwrap().sent.insert((*id, k as u8), m.clone());
            }
            let s = Session::<RichProtocol, SP>::new(&mut rng, sid.clone(), Signer::new(*id), RichEntry(ids.clone(), shelf.clone(), mine))?;
            let a = s.make_accumulator();
            live.insert(*id, (s, a));
        }
        let mut done = 0;
        while !live.is_empty() {
            let mut queue = Vec::new();
            for (id, (s, a)) in live.iter_mut() {
                for to in s.message_destinations().clone() {
                    let (m, art) = s.make_message(&mut rng, &to)?;
                    s.add_artifact(a, art)?;
                    queue.push((*id, to, m));
                }
            }
            queue.shuffle(&mut rng);
            for (from, to, m) in queue {
                let m2: Result<Message<Id>, String> = match rng.gen_range(0..4) {
                    0 => Ok(m),
                    1 => CJson::ser(&m).and_then(|b| CJson::de(&b)),
                    2 => CPost::ser(&m).and_then(|b| CPost::de(&b)),
                    _ => CWire::<SP>::ser(&m).and_then(|b| CWire::<SP>::de(&b)),
                };
                let m = match m2 {
                    Ok(m) => m,
                    Err(e) => return Ok(Err(format!("a message cannot be transferred: {e}"))),
                };
                let Some((s, a)) = live.get_mut(&to) else { continue };
                match s.preprocess_message(a, &from, m)? {
                    PreprocessOutcome::ToProcess(m) => {
                        let p = s.process_message(*m);
                        s.add_processed_message(a, p)?;
                    }
                    PreprocessOutcome::Cached => return Ok(Err("unexpectedly cached".into())),
                    PreprocessOutcome::Error(e) => return Ok(Err(format!("rejected: {e}"))),
                }
            }
            for (id, (s, a)) in std::mem::take(&mut live) {
                if s.can_finalize(&a) != CanFinalize::Yes {
                    return Ok(Err(format!("{id:?}: {:?}", a)));
                }
                match s.finalize_round(&mut rng, a)? {
                    RoundOutcome::Finished(_) => done += 1,
                    RoundOutcome::AnotherRound { session, .. } => {
                        let a = session.make_accumulator();
                        live.insert(id, (*session, a));
                    }
                }
            }
        }
        let _ = done;
        Ok(Ok::<_, String>(()))
    });
    mon.count("cases");
    let text = match res {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(Fault_::Local(e)) => Some(format!("local error {e}")),
        Err(Fault_::Panic(e)) => Some(format!("panic {e}")),
    };
    if let Some(t) = text {
        mon.bad("C14", format!("payloads of various types ({}) are not delivered: {}", SP::NAME, t.chars().take(600).collect::<String>()));
        return;
    }
    let t = shelf.lock().unwrap();
    for a in &ids {
        for b in &ids {
            if a == b {
                continue;
            }
            let want = (&t.sent[&(*b, D as u8)], &t.sent[&(*b, E as u8)], &t.sent[&(*b, N as u8)]);
            match t.got.get(&(*a, *b)) {
                Some(g) if (&g.0, &g.1, &g.2) == want => mon.count("rich_messages_delivered"),
                g => mon.bad("C14", format!("payload ({}) changed on the way: {want:?} -> {g:?}", SP::NAME)),
            }
        }
    }
}

/// Evidence against a party in a protocol which has no errors of its own.
fn plain_case<SP: Params>(seed: u64, mon: &mut Mon) {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let ids: BTreeSet<Id> = (1..=3).map(Id).collect();
    let guilty = Id(1);
    let sid = SessionId::from_seed::<SP>(&seed.to_be_bytes());
    let mine = [rich(&mut rng, 1), rich(&mut rng, 0), rich(&mut rng, 0)];
    let made = guard(|| {
        let s = Session::<RichProtocol, SP>::new(&mut rng, sid.clone(), Signer::new(guilty), RichEntry(ids.clone(), Shelf::default(), mine))?;
        s.make_message(&mut rng, &Id(2))
    });
    let Ok((m, _)) = made else { return };
    let honest = to_value(&m);
    let s = Schema::get::<SP>();
    let rid = RoundId::new(1);
    let own: Value = to_value(&forge::<SP>(&mut rng, guilty, Id(2), &sid, &echo_of(&rid), [None, None, Some(ser::<SP, _>(&json!({"message_hashes": []})))]));
    for (tag, docs) in crate::evid::templates() {
        for doc in docs {
            for form in 0..6 {
                let mut doc = doc.clone();
                doc["guilty_party"] = json!(guilty.0);
                for p in crate::evid::part_paths::<SP>(&doc) {
                    let kind = if tag == "InvalidEcho" { N } else { crate::evid::kind_at(&p) };
                    let src = if tag == "InvalidEcho" && form % 2 == 0 || rng.gen_bool(0.05) { &own } else { &honest };
                    *at_mut(&mut doc, &p).unwrap() = s.part(src, kind).clone();
                }
                if tag == "MismatchedBroadcasts" {
                    doc["evidence"][tag]["error"]["guilty_party"] = json!(guilty.0);
                }
                if tag == "Protocol" {
                    let names = ["direct_message", "echo_broadcast", "normal_broadcast"];
                    let e = &mut doc["evidence"][tag];
                    if form >= 3 {
                        // Only the message itself
                        for (k, n) in names.iter().enumerate() {
                            e[*n] = if rng.gen_bool(0.3) { Value::Null } else { s.part(&honest, k).clone() };
                            e[format!("{n}s")] = json!([]);
                        }
                        e["echo_hashes"] = json!([]);
                        e["other_echo_broadcasts"] = json!([]);
                    }
                    let b: Vec<u8> = match form % 3 {
                        0 => ser::<SP, _>(&()),
                        1 => ser::<SP, _>(&NoProtocolErrorsLike),
                        _ => (0..rng.gen_range(0..5)).map(|_| rng.gen()).collect(),
                    };
                    e["error"] = json!(s.base64(&b));
                }
                mon.count("cases");
                let t = doc.to_string();
                let e = match guard_any(|| serde_json::from_str::<Evidence<RichProtocol, SP>>(&t)) {
                    Ok(Ok(e)) => e,
                    Ok(Err(_)) => {
                        mon.count("undecodable");
                        continue;
                    }
                    Err(p) => {
                        mon.bad("C14", format!("decoding evidence panicked: {p}: {t}"));
                        continue;
                    }
                };
                match guard_any(|| e.verify(&())) {
                    Err(p) => mon.bad("C07", format!("verifying evidence against a party of a protocol without errors panicked: {p}: {t}")),
                    Ok(Ok(())) if !t.contains(s.part(&own, N).pointer("/signature").and_then(|x| x.as_str()).unwrap_or("-")) => {
                        mon.bad("C07", format!("evidence against an honest party of a protocol without errors verifies: {t}"))
                    }
                    Ok(Ok(())) => mon.count("verifies_against_corrupt"),
                    Ok(Err(_)) => mon.count("forgeries_against_honest_rejected"),
                }
            }
        }
    }
}

#[derive(Serialize)]
struct NoProtocolErrorsLike;

/// Executions where messages are transferred as bytes go as those where they are not.
fn wire_case(seed: u64, mon: &mut Mon) {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let p = *[Profile::Honest, Profile::Honest, Profile::Content, Profile::Equivocate, Profile::Hostile].choose(&mut rng).unwrap();
    let s: u64 = rng.gen();
    let t = rng.gen_range(1..5);
    scen::TRANSPORT.with(|x| x.set(t));
    let a = guard_any(|| scen::dispatch(p, s, false, false));
    scen::TRANSPORT.with(|x| x.set(0));
    let b = guard_any(|| scen::dispatch(p, s, false, false));
    mon.count("cases");
    match (a, b) {
        (Ok(a), Ok(b)) => {
            if a.trace != b.trace || a.mon.viol.len() != b.mon.viol.len() || {
                let f = |m: &Mon| m.stats.iter().filter(|(k, _)| **k != *"transported").map(|(k, v)| (k.clone(), *v)).collect::<Vec<_>>();
                f(&a.mon) != f(&b.mon)
            } {
                mon.bad("C14", format!("an execution ({p:?} {s}) goes differently if messages are transferred serialized (mode {t}): {:?}", a.mon.viol.first()));
            }
            for (p, t) in &a.mon.viol {
                if p == "C14" {
                    mon.bad("C14", t.clone());
                }
            }
            mon.add("transported", a.mon.stats.get("transported").copied().unwrap_or(0));
            mon.count("executions_compared");
        }
        (Err(_), Err(_)) => {}
        _ => mon.bad("C14", format!("an execution ({p:?} {s}) fails only if messages are transferred serialized (mode {t}) or only if not")),
    }
}

pub fn run(seed: u64, _debug: bool) -> Outcome {
    let mut rng = ChaCha8Rng::seed_from_u64(seed ^ 0xf022);
    let mut mon = Mon::default();
    let mut traces = Vec::new();
    let s: u64 = rng.gen();
    match rng.gen_range(0..6) {
        0 => evidence_case::<Plain, Sp<Bin>>(s, &mut mon, &mut traces),
        1 | 2 => evidence_case::<Plain, Sp<Json>>(s, &mut mon, &mut traces),
        3 => evidence_case::<ChainW<15, 15>, Sp<Json>>(s, &mut mon, &mut traces),
        4 => evidence_case::<ChainLW<15, 10, 15>, Sp<Json>>(s, &mut mon, &mut traces),
        _ => evidence_case::<ChainRW<14, 15, 15>, Sp<Bin>>(s, &mut mon, &mut traces),
    }
    for _ in 0..4 {
        maps_case(&mut rng, &mut mon);
    }
    for _ in 0..2 {
        rich_case::<Sp<Json>>(rng.gen(), &mut mon);
        rich_case::<Sp<Bin>>(rng.gen(), &mut mon);
    }
    plain_case::<Sp<Json>>(rng.gen(), &mut mon);
    plain_case::<Sp<Bin>>(rng.gen(), &mut mon);
    wire_case(rng.gen(), &mut mon);
    let distinct: HashSet<u64> = traces.into_iter().collect();
    Outcome { mon, trace: seed, shape: seed, text: Vec::new(), traces: distinct.into_iter().collect() }
}
