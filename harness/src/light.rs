//! The random generator and the digest used by the workloads; under the interpreter, cheap replacements for them.

#[cfg(not(miri))]
pub use rand_chacha::ChaCha8Rng;
#[cfg(not(miri))]
pub use sha3::Sha3_256;

#[cfg(miri)]
mod cheap {
    use digest::generic_array::typenum::U32;

    #[derive(Clone, Debug)]
    pub struct ChaCha8Rng(u64);

    impl rand_core::RngCore for ChaCha8Rng {
        fn next_u32(&mut self) -> u32 {
            self.next_u64() as u32
        }
        fn next_u64(&mut self) -> u64 {
            self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
            let mut z = self.0;
            z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
            z ^ (z >> 31)
        }
        fn fill_bytes(&mut self, dest: &mut [u8]) {
            for chunk in dest.chunks_mut(8) {
                let x = self.next_u64().to_le_bytes();
                chunk.copy_from_slice(&x[..chunk.len()]);
            }
        }
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand_core::Error> {
            self.fill_bytes(dest);
            Ok(())
        }
    }
    impl rand_core::CryptoRng for ChaCha8Rng {}
    impl rand_core::SeedableRng for ChaCha8Rng {
        type Seed = [u8; 8];
        fn from_seed(seed: [u8; 8]) -> Self {
            Self(u64::from_le_bytes(seed))
        }
        fn seed_from_u64(seed: u64) -> Self {
            Self(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567)
        }
    }

    #[derive(Clone, Debug, Default)]
    pub struct Sha3_256([u64; 2]);

    impl digest::OutputSizeUser for Sha3_256 {
        type OutputSize = U32;
    }
    impl digest::HashMarker for Sha3_256 {}
    impl digest::Update for Sha3_256 {
        fn update(&mut self, data: &[u8]) {
            let mut mix = |x: u64| {
                self.0[0] = (self.0[0] ^ x).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
                self.0[1] = self.0[1].wrapping_add(x ^ self.0[0]).wrapping_mul(0x94d049bb133111eb);
            };
            // The words are not aligned across the calls, but the same sequences of calls give the same results
            let mut rest = data;
            while let Some((word, tail)) = rest.split_first_chunk::<8>() {
                mix(u64::from_le_bytes(*word));
                rest = tail;
            }
            let mut last = [0; 8];
            last[..rest.len()].copy_from_slice(rest);
            mix(u64::from_le_bytes(last));
            mix(data.len() as u64);
        }
    }
    impl digest::FixedOutput for Sha3_256 {
        fn finalize_into(self, out: &mut digest::Output<Self>) {
            let mut r = <ChaCha8Rng as rand_core::SeedableRng>::seed_from_u64(self.0[0]);
            rand_core::RngCore::fill_bytes(&mut r, out);
            for (o, x) in out.iter_mut().zip(self.0[1].to_le_bytes()) {
                *o ^= x;
            }
        }
    }
}
#[cfg(miri)]
pub use cheap::*;
