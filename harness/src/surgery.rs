//! Message surgery: dissecting, altering and recombining messages through their serialized form.
//!
//! The positions of interest within a serialized message are discovered by content.

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::marker::PhantomData;
use std::sync::OnceLock;

use base64::Engine;
use manul::protocol::{
    BoxedRound, CommunicationInfo, EchoRoundParticipation, EntryPoint, FinalizeOutcome, LocalError, NoArtifact,
    NoMessage, NoProtocolErrors, Protocol, ProtocolMessage, ReceiveError, Round, RoundId, RoundInfo, TransitionInfo,
};
use manul::session::{Message, Session, SessionId};
use rand_core::CryptoRngCore;
use serde_json::Value;

use crate::sp::*;
use crate::spec::{D, E, N};

/// Path within a JSON value.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Seg {
    Key(String),
    Idx(usize),
}
pub type Path = Vec<Seg>;

pub fn at<'a>(v: &'a Value, p: &[Seg]) -> Option<&'a Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Seg::Key(k) => v.get(k)?,
            Seg::Idx(i) => v.get(i)?,
        };
    }
    Some(v)
}

pub fn at_mut<'a>(v: &'a mut Value, p: &[Seg]) -> Option<&'a mut Value> {
    let mut v = v;
    for s in p {
        v = match s {
            Seg::Key(k) => v.get_mut(k)?,
            Seg::Idx(i) => v.get_mut(i)?,
        };
    }
    Some(v)
}

/// Enumerates all the nodes of the value.
pub fn walk(v: &Value, f: &mut impl FnMut(&Path, &Value)) {
    fn go(v: &Value, p: &mut Path, f: &mut impl FnMut(&Path, &Value)) {
        f(p, v);
        match v {
            Value::Object(m) => {
                for (k, x) in m {
                    p.push(Seg::Key(k.clone()));
                    go(x, p, f);
                    p.pop();
                }
            }
            Value::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    p.push(Seg::Idx(i));
                    go(x, p, f);
                    p.pop();
                }
            }
            _ => {}
        }
    }
    go(v, &mut Vec::new(), f)
}

pub fn find(v: &Value, mut pred: impl FnMut(&Value) -> bool) -> Vec<Path> {
    let mut res = Vec::new();
    walk(v, &mut |p, x| {
        if pred(x) {
            res.push(p.clone())
        }
    });
    res
}

pub fn unhex(s: &str) -> Option<Vec<u8>> {
    let s = s.strip_prefix("0x").unwrap_or(s);
    if s.len() % 2 != 0 || !s.is_ascii() {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn unb64(s: &str) -> Option<Vec<u8>> {
    base64::engine::general_purpose::STANDARD
        .decode(s)
        .or_else(|_| base64::engine::general_purpose::STANDARD_NO_PAD.decode(s))
        .ok()
}

/// The positions of interest.
#[derive(Clone, Debug)]
pub struct Schema {
    pub part: [Path; 3],
    pub sig: Path,
    pub sid: Path,
    pub rid: Path,
    pub payload: Path,
    hex_prefix: bool,
    pad: bool,
}

/// The contents of the three parts of a message; `None` if absent.
pub type Payloads = [Option<Vec<u8>>; 3];

pub fn session_id_value(sid: &SessionId) -> Value {
    serde_json::to_value(sid).unwrap()
}

/// A round ID with the given properties obtained from the public interface only.
pub fn round_id(num: u8, echo: bool) -> RoundId {
    if echo {
        echo_of(&RoundId::new(num))
    } else {
        RoundId::new(num)
    }
}

pub fn echo_of(id: &RoundId) -> RoundId {
    flip_bool(id, true)
}
pub fn main_of(id: &RoundId) -> RoundId {
    flip_bool(id, false)
}
fn flip_bool(id: &RoundId, to: bool) -> RoundId {
    let mut v = serde_json::to_value(id).unwrap();
    let b = find(&v, |x| x.is_boolean());
    assert_eq!(b.len(), 1, "a round ID has one flag");
    *at_mut(&mut v, &b[0]).unwrap() = Value::Bool(to);
    serde_json::from_value(v).unwrap()
}
pub fn is_echo(id: &RoundId) -> bool {
    let v = serde_json::to_value(id).unwrap();
    let b = find(&v, |x| x.is_boolean());
    at(&v, &b[0]).unwrap().as_bool().unwrap()
}

// Forging

#[derive(Debug)]
pub struct ForgeP<SP>(PhantomData<fn() -> SP>);
impl<SP: Params> Protocol<Id> for ForgeP<SP> {
    type Result = ();
    type SharedData = ();
    fn round_info(_: &RoundId) -> Option<RoundInfo<Id, Self>> {
        None
    }
}

#[derive(Debug, Clone)]
pub struct ForgeEntry<SP> {
    id: RoundId,
    to: BTreeSet<Id>,
    payloads: Payloads,
    ph: PhantomData<fn() -> SP>,
}

macro_rules! fd {
    (1) => {
        type DirectMessage = RawBytes;
        type Artifact = ();
        fn make_direct_message(
            &self,
            _rng: &mut impl CryptoRngCore,
            _d: &Id,
        ) -> Result<(RawBytes, ()), LocalError> {
            Ok((RawBytes(self.0.payloads[D].clone().unwrap()), ()))
        }
    };
    (0) => {
        type DirectMessage = NoMessage;
        type Artifact = NoArtifact;
    };
}
macro_rules! fe {
    (1) => {
        type EchoBroadcast = RawBytes;
        fn make_echo_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<RawBytes, LocalError> {
            Ok(RawBytes(self.0.payloads[E].clone().unwrap()))
        }
    };
    (0) => {
        type EchoBroadcast = NoMessage;
    };
}
macro_rules! fnb {
    (1) => {
        type NormalBroadcast = RawBytes;
        fn make_normal_broadcast(&self, _rng: &mut impl CryptoRngCore) -> Result<RawBytes, LocalError> {
            Ok(RawBytes(self.0.payloads[N].clone().unwrap()))
        }
    };
    (0) => {
        type NormalBroadcast = NoMessage;
    };
}
macro_rules! forge_round {
    ($name:ident, $d:tt, $e:tt, $n:tt) => {
        #[derive(Debug)]
        pub struct $name<SP>(ForgeEntry<SP>);
        impl<SP: Params> Round<Id> for $name<SP> {
            type Protocol = ForgeP<SP>;
            type ProtocolError = NoProtocolErrors<Self>;
            type Payload = ();
            fd!($d);
            fe!($e);
            fnb!($n);
            fn transition_info(&self) -> TransitionInfo {
                TransitionInfo {
                    id: self.0.id.clone(),
                    parents: BTreeSet::new(),
                    siblings: BTreeSet::new(),
                    children: BTreeSet::new(),
                    may_produce_result: true,
                }
            }
            fn communication_info(&self) -> CommunicationInfo<Id> {
                CommunicationInfo {
                    message_destinations: self.0.to.clone(),
                    expecting_messages_from: BTreeSet::new(),
                    echo_round_participation: EchoRoundParticipation::Send,
                }
            }
            fn receive_message(&self, _: &Id, _: ProtocolMessage<Id, Self>) -> Result<(), ReceiveError<Id, Self>> {
                Ok(())
            }
            fn finalize(
                self,
                _: &mut impl CryptoRngCore,
                _: BTreeMap<Id, ()>,
                _: BTreeMap<Id, Self::Artifact>,
            ) -> Result<FinalizeOutcome<Id, ForgeP<SP>>, LocalError> {
                Ok(FinalizeOutcome::Result(()))
            }
        }
    };
}
forge_round!(F0, 0, 0, 0);
forge_round!(F1, 1, 0, 0);
forge_round!(F2, 0, 1, 0);
forge_round!(F3, 1, 1, 0);
forge_round!(F4, 0, 0, 1);
forge_round!(F5, 1, 0, 1);
forge_round!(F6, 0, 1, 1);
forge_round!(F7, 1, 1, 1);

impl<SP: Params> EntryPoint<Id> for ForgeEntry<SP> {
    type Protocol = ForgeP<SP>;
    fn entry_round_id() -> RoundId {
        RoundId::new(0)
    }
    fn make_round(
        self,
        _rng: &mut impl CryptoRngCore,
        _: &[u8],
        _: &Id,
    ) -> Result<BoxedRound<Id, Self::Protocol>, LocalError> {
        let b = |x: &Option<Vec<u8>>, n| if x.is_some() { n } else { 0 };
        let c = b(&self.payloads[D], 1) + b(&self.payloads[E], 2) + b(&self.payloads[N], 4);
        Ok(match c {
            0 => BoxedRound::new(F0(self)),
            1 => BoxedRound::new(F1(self)),
            2 => BoxedRound::new(F2(self)),
            3 => BoxedRound::new(F3(self)),
            4 => BoxedRound::new(F4(self)),
            5 => BoxedRound::new(F5(self)),
            6 => BoxedRound::new(F6(self)),
            _ => BoxedRound::new(F7(self)),
        })
    }
}

/// Creates a message with the given contents properly signed by `from`.
pub fn forge<SP: Params>(
    rng: &mut impl CryptoRngCore,
    from: Id,
    to: Id,
    sid: &SessionId,
    rid: &RoundId,
    payloads: Payloads,
) -> Message<Id> {
    let entry = ForgeEntry::<SP> { id: rid.clone(), to: BTreeSet::from([to]), payloads, ph: PhantomData };
    let session = Session::<_, SP>::new(rng, sid.clone(), Signer::new(from), entry).expect("forging works");
    session.make_message(rng, &to).expect("forging works").0
}

pub fn to_value(m: &Message<Id>) -> Value {
    serde_json::to_value(m).expect("messages serialize")
}

pub fn to_message(v: &Value) -> Option<Message<Id>> {
    // Via text to avoid any peculiarities of the value (de)serializer.
    serde_json::from_str(&v.to_string()).ok()
}

impl Schema {
    /// `None` if the positions could not be found.
    fn discover<SP: Params>() -> Option<Schema> {
        use rand_core::SeedableRng;
        let mut rng = crate::light::ChaCha8Rng::seed_from_u64(1);
        let sid = SessionId::from_seed::<SP>(b"schema");
        let rid = RoundId::new(177);
        let mut part: [Path; 3] = Default::default();
        let mut payload = Vec::new();
        let marker = b"some recognizable contents 0123456789".to_vec();
        for k in [D, E, N] {
            let mut ps: Payloads = [None, None, None];
            ps[k] = Some(marker.clone());
            let v = to_value(&forge::<SP>(&mut rng, Id(1), Id(2), &sid, &rid, ps));
            let found = find(&v, |x| x.as_str().and_then(unb64).as_deref() == Some(&marker));
            if found.len() != 1 || found[0].len() < 2 {
                return None;
            }
            part[k] = found[0][..1].to_vec();
            payload = found[0][1..].to_vec();
        }
        let ps = [Some(marker.clone()), Some(marker.clone()), Some(marker.clone())];
        let v = to_value(&forge::<SP>(&mut rng, Id(1), Id(2), &sid, &rid, ps));
        let p = at(&v, &part[0])?;
        let sidv = session_id_value(&sid);
        let ridv = serde_json::to_value(&rid).ok()?;
        let sids = find(p, |x| *x == sidv);
        let rids = find(p, |x| *x == ridv);
        let sigs = find(p, |x| x.as_str().and_then(unhex).is_some_and(|b| de::<SP, Sig>(&b).is_ok()) && *x != sidv);
        if sids.len() != 1 || rids.len() != 1 || sigs.len() != 1 {
            return None;
        }
        let hex_prefix = at(p, &sigs[0])?.as_str()?.starts_with("0x");
        Some(Schema {
            part,
            sig: sigs[0].clone(),
            sid: sids[0].clone(),
            rid: rids[0].clone(),
            pad: at(p, &payload)?.as_str()?.ends_with('='),
            payload,
            hex_prefix,
        })
    }

    pub fn get<SP: Params>() -> &'static Schema {
        static J: OnceLock<Schema> = OnceLock::new();
        static B: OnceLock<Schema> = OnceLock::new();
        let cell = if SP::HUMAN { &J } else { &B };
        cell.get_or_init(|| Schema::discover::<SP>().expect("the serialized form of messages is understood"))
    }

    pub fn part<'a>(&self, v: &'a Value, kind: usize) -> &'a Value {
        at(v, &self.part[kind]).expect("there is a part")
    }
    pub fn part_mut<'a>(&self, v: &'a mut Value, kind: usize) -> &'a mut Value {
        at_mut(v, &self.part[kind]).expect("there is a part")
    }
    pub fn sig_bytes(&self, part: &Value) -> Option<Vec<u8>> {
        at(part, &self.sig)?.as_str().and_then(unhex)
    }
    pub fn set_sig(&self, part: &mut Value, b: &[u8]) {
        let s = if self.hex_prefix { format!("0x{}", hex(b)) } else { hex(b) };
        *at_mut(part, &self.sig).unwrap() = Value::String(s);
    }
    /// The part without the signature, as a string.
    pub fn content(&self, part: &Value) -> String {
        let mut p = part.clone();
        *at_mut(&mut p, &self.sig).unwrap() = Value::Null;
        p.to_string()
    }
    pub fn rid(&self, part: &Value) -> Option<RoundId> {
        serde_json::from_value(at(part, &self.rid)?.clone()).ok()
    }
    pub fn payload_bytes(&self, part: &Value) -> Option<Vec<u8>> {
        at(part, &self.payload)?.as_str().and_then(unb64)
    }
    pub fn set_payload(&self, part: &mut Value, b: Option<&[u8]>) {
        *at_mut(part, &self.payload).unwrap() = match b {
            None => Value::Null,
            Some(b) => Value::String(self.base64(b)),
        };
    }
    pub fn base64(&self, b: &[u8]) -> String {
        if self.pad {
            base64::engine::general_purpose::STANDARD.encode(b)
        } else {
            base64::engine::general_purpose::STANDARD_NO_PAD.encode(b)
        }
    }
    pub fn set_sid(&self, part: &mut Value, sid: &SessionId) {
        *at_mut(part, &self.sid).unwrap() = session_id_value(sid);
    }
    pub fn set_rid(&self, part: &mut Value, rid: &RoundId) {
        *at_mut(part, &self.rid).unwrap() = serde_json::to_value(rid).unwrap();
    }
}

/// The record of everything ever signed, by content.
#[derive(Default)]
pub struct Ledger {
    /// (signer, kind, content) -> signatures
    signed: HashMap<(Id, usize, String), Vec<Vec<u8>>>,
}

impl Ledger {
    pub fn add<SP: Params>(&mut self, by: Id, v: &Value) {
        let s = Schema::get::<SP>();
        for k in [D, E, N] {
            let p = s.part(v, k);
            let sig = s.sig_bytes(p).expect("a signature");
            let e = self.signed.entry((by, k, s.content(p))).or_default();
            if !e.contains(&sig) {
                e.push(sig);
            }
        }
    }

    /// Whether the part is something `by` has really signed as a part of this kind.
    pub fn is_authentic<SP: Params>(&self, by: Id, kind: usize, part: &Value) -> bool {
        let s = Schema::get::<SP>();
        let Some(sigs) = self.signed.get(&(by, kind, s.content(part))) else { return false };
        let Some(sig) = s.sig_bytes(part) else { return false };
        if sigs.contains(&sig) {
            return true;
        }
        // Can be a different encoding of the same signature
        match de::<SP, Sig>(&sig) {
            Err(_) => false,
            Ok(sig) => sigs.iter().any(|x| de::<SP, Sig>(x).as_ref() == Ok(&sig)),
        }
    }
    pub fn len(&self) -> usize {
        self.signed.len()
    }
}

/// The hash of the part as used in the echo packs (as far as it is known to the harness;
/// only used to produce hostile material).
pub fn part_hash(kind: usize, payload: Option<&[u8]>) -> Vec<u8> {
    use sha3::Digest;
    let mut h = crate::light::Sha3_256::new();
    h.update(b"ProtocolMessagePart");
    h.update([match kind {
        E => 0u8,
        N => 1,
        _ => 2,
    }]);
    match payload {
        None => h.update([0u8]),
        Some(p) => {
            h.update([1u8]);
            h.update((p.len() as u64).to_be_bytes());
            h.update(p);
        }
    }
    h.finalize().to_vec()
}

/// The elements of an echo pack in the JSON format.
#[derive(Clone, Debug)]
pub struct PackDoc {
    doc: Value,
    path: Path,
    pub entries: Vec<(Value, Value)>,
}

impl PackDoc {
    pub fn parse(payload: &[u8]) -> Option<PackDoc> {
        let doc: Value = serde_json::from_slice(payload).ok()?;
        let paths = find(&doc, |x| {
            x.as_array().is_some_and(|a| {
                !a.is_empty()
                    && a.iter().all(|e| {
                        e.as_array().is_some_and(|p| p.len() == 2 && p[0].is_u64() && p[1].is_object())
                    })
            })
        });
        let path = paths.into_iter().min_by_key(|p| p.len())?;
        let entries = at(&doc, &path)?
            .as_array()?
            .iter()
            .map(|e| (e[0].clone(), e[1].clone()))
            .collect();
        Some(PackDoc { doc, path, entries })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut doc = self.doc.clone();
        *at_mut(&mut doc, &self.path).unwrap() =
            Value::Array(self.entries.iter().map(|(k, v)| Value::Array(vec![k.clone(), v.clone()])).collect());
        doc.to_string().into_bytes()
    }
}
