//! Session identifiers.

use std::collections::BTreeMap;

use manul::session::SessionId;
use rand::Rng;
use crate::light::ChaCha8Rng;
use rand_core::{RngCore, SeedableRng};

use crate::scen::Outcome;
use crate::sp::*;

pub fn run(seed: u64, _debug: bool) -> Outcome {
    let mut rng = ChaCha8Rng::seed_from_u64(seed);
    let mut o = Outcome { trace: seed, ..Outcome::default() };
    // Related seeds: prefixes, extensions, single bit changes, random ones
    let mut seeds: Vec<Vec<u8>> = vec![vec![]];
    for _ in 0..60 {
        let mut s = if rng.gen_bool(0.7) { seeds[rng.gen_range(0..seeds.len())].clone() } else { Vec::new() };
        match rng.gen_range(0..5) {
            0 => s.push(0),
            1 => s.push(rng.gen()),
            2 => {
                s.pop();
            }
            3 if !s.is_empty() => {
                let i = rng.gen_range(0..s.len());
                s[i] ^= 1 << rng.gen_range(0..8);
            }
            _ => {
                let mut x = vec![0; rng.gen_range(1..80)];
                rng.fill_bytes(&mut x);
                s.extend(x);
            }
        }
        seeds.push(s);
    }
    let mut seen: BTreeMap<Vec<u8>, Vec<u8>> = BTreeMap::new();
    for s in &seeds {
        let id = SessionId::from_seed::<Sp<Json>>(s);
        let again = SessionId::from_seed::<Sp<Json>>(&s.clone());
        if id != again || id.as_ref() != again.as_ref() {
            o.mon.bad("C01", format!("different session IDs for the same seed {s:?}"));
        }
        o.mon.count("session_ids_compared");
        if let Some(other) = seen.insert(id.as_ref().to_vec(), s.clone()) {
            if other != *s {
                o.mon.bad("C01", format!("the same session ID for the seeds {s:?} and {other:?}"));
            }
        }
    }
    let a = SessionId::random::<Sp<Json>>(&mut rng);
    let b = SessionId::random::<Sp<Json>>(&mut rng);
    if a == b {
        o.mon.bad("C01", "random session IDs coincide");
    }
    o
}
