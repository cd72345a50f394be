//! Session parameters used by all workloads: ideal-functionality signatures that bind the digest,
//! and wire formats which allow injecting arbitrary raw payload bytes.

use std::cell::RefCell;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::sync::{Arc, Mutex};

use manul::dev::{BinaryFormat, HumanReadableFormat};
use manul::session::{LocalError, SessionParameters, WireFormat};
use rand_core::CryptoRngCore;
use serde::{Deserialize, Serialize};
use digest::Digest;

use crate::light::Sha3_256;

/// Party identifier.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub struct Id(pub u32);

impl Debug for Id {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "P{}", self.0)
    }
}

/// A record of nonces used for signing.
pub type SignLog = Arc<Mutex<Vec<(Id, u128)>>>;

#[derive(Clone)]
pub struct Signer {
    pub id: Id,
    pub log: Option<SignLog>,
    /// Makes signing fail from the given use on (for local failures).
    pub fail_after: Option<Arc<std::sync::atomic::AtomicI64>>,
}

impl Debug for Signer {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Signer({:?})", self.id)
    }
}

impl Signer {
    pub fn new(id: Id) -> Self {
        Self { id, log: None, fail_after: None }
    }
    pub fn with_log(id: Id, log: SignLog) -> Self {
        Self { id, log: Some(log), fail_after: None }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Sig {
    nonce: [u8; 16],
    tag: [u8; 16],
}

// The adversary code of the harness never evaluates this function,
// so only the party's own signer can produce valid tags for it.
fn tag(id: Id, nonce: &[u8; 16], digest: &[u8]) -> [u8; 16] {
    let mut h = Sha3_256::new();
    h.update(b"harness-ideal-signature-secret");
    h.update(id.0.to_be_bytes());
    h.update(nonce);
    h.update(digest);
    let out = h.finalize();
    let mut res = [0u8; 16];
    res.copy_from_slice(&out[..16]);
    res
}

impl signature::Keypair for Signer {
    type VerifyingKey = Id;
    fn verifying_key(&self) -> Id {
        self.id
    }
}

impl<D: digest::Digest> signature::RandomizedDigestSigner<D, Sig> for Signer {
    fn try_sign_digest_with_rng(&self, rng: &mut impl CryptoRngCore, digest: D) -> Result<Sig, signature::Error> {
        if let Some(n) = &self.fail_after {
            if n.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) <= 0 {
                return Err(signature::Error::new());
            }
        }
        let mut nonce = [0u8; 16];
        rng.fill_bytes(&mut nonce);
        if let Some(log) = &self.log {
            log.lock().unwrap().push((self.id, u128::from_be_bytes(nonce)));
        }
        let d = digest.finalize();
        Ok(Sig { nonce, tag: tag(self.id, &nonce, d.as_ref()) })
    }
}

impl<D: digest::Digest> signature::DigestVerifier<D, Sig> for Id {
    fn verify_digest(&self, digest: D, signature: &Sig) -> Result<(), signature::Error> {
        let d = digest.finalize();
        if tag(*self, &signature.nonce, d.as_ref()) == signature.tag {
            Ok(())
        } else {
            Err(signature::Error::new())
        }
    }
}

thread_local! {
    static RAW: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
}

/// A value which serializes into the given bytes exactly (with the formats below).
#[derive(Clone, Debug)]
pub struct RawBytes(pub Vec<u8>);

impl Serialize for RawBytes {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        RAW.with(|r| *r.borrow_mut() = Some(self.0.clone()));
        s.serialize_unit()
    }
}

impl<'de> Deserialize<'de> for RawBytes {
    fn deserialize<D: serde::Deserializer<'de>>(_d: D) -> Result<Self, D::Error> {
        Err(serde::de::Error::custom("RawBytes cannot be deserialized"))
    }
}

/// A format of the library with raw byte injection.
pub struct Fmt<F>(PhantomData<fn() -> F>);

impl<F> Debug for Fmt<F> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Fmt")
    }
}

impl<F: WireFormat> WireFormat for Fmt<F> {
    fn serialize<T: Serialize>(value: T) -> Result<Box<[u8]>, LocalError> {
        RAW.with(|r| *r.borrow_mut() = None);
        let res = F::serialize(value);
        if let Some(raw) = RAW.with(|r| r.borrow_mut().take()) {
            return Ok(raw.into());
        }
        res
    }
    type Deserializer<'de> = F::Deserializer<'de>;
    fn deserializer(bytes: &[u8]) -> Self::Deserializer<'_> {
        F::deserializer(bytes)
    }
}

pub type Json = Fmt<HumanReadableFormat>;
pub type Bin = Fmt<BinaryFormat>;

/// Session parameters with the given wire format.
#[derive(Debug)]
#[derive_where::derive_where(Serialize, Deserialize)]
pub struct Sp<F>(PhantomData<fn() -> F>);

impl<F: WireFormat> SessionParameters for Sp<F> {
    type Signer = Signer;
    type Verifier = Id;
    type Signature = Sig;
    type Digest = Sha3_256;
    type WireFormat = F;
}

/// Shorthand for the bounds on session parameters used by the generic workloads.
pub trait Params:
    SessionParameters<Signer = Signer, Verifier = Id, Signature = Sig, Digest = Sha3_256, WireFormat = Self::F>
    + Debug
    + Send
    + Sync
    + Serialize
    + for<'de> Deserialize<'de>
{
    type F: WireFormat;
    const NAME: &'static str;
    const HUMAN: bool;
}
impl Params for Sp<Json> {
    type F = Json;
    const NAME: &'static str = "json";
    const HUMAN: bool = true;
}
impl Params for Sp<Bin> {
    type F = Bin;
    const NAME: &'static str = "binary";
    const HUMAN: bool = false;
}

pub fn ser<SP: Params, T: Serialize>(v: &T) -> Vec<u8> {
    <SP::F as WireFormat>::serialize(v).expect("serializes").into()
}

pub fn de<SP: Params, T: for<'de> Deserialize<'de>>(b: &[u8]) -> Result<T, String> {
    T::deserialize(<SP::F as WireFormat>::deserializer(b)).map_err(|_| "deserialization failed".to_string())
}
