//! Stand-in for `foldhash` 0.2: same API surface hashbrown uses, but every hasher's seed and
//! quality come from the simulator (the real crate takes them from ASLR, time and counters).
#![no_std]

pub mod fast {
    use core::hash::{BuildHasher, Hasher};

    extern "Rust" {
        fn __bnfsim_hash_seed() -> (u64, u8);
        fn __bnfsim_hash_step();
    }

    /// Per-table seed, drawn from the simulator on creation.
    #[derive(Clone, Copy, Debug)]
    pub struct RandomState {
        seed: u64,
        mode: u8,
    }

    impl Default for RandomState {
        fn default() -> Self {
            let (seed, mode) = unsafe { __bnfsim_hash_seed() };
            Self { seed, mode }
        }
    }

    impl BuildHasher for RandomState {
        type Hasher = FoldHasher;
        fn build_hasher(&self) -> FoldHasher {
            unsafe { __bnfsim_hash_step() };
            FoldHasher { acc: self.seed, mode: self.mode }
        }
    }

    #[derive(Clone, Debug)]
    pub struct FoldHasher {
        acc: u64,
        mode: u8,
    }

    #[inline]
    fn mix(a: u64, b: u64) -> u64 {
        let m = ((a ^ b) as u128).wrapping_mul(0x9E37_79B9_7F4A_7C15_F39C_C060_5CED_C835);
        (m as u64) ^ ((m >> 64) as u64)
    }

    impl Hasher for FoldHasher {
        fn write(&mut self, bytes: &[u8]) {
            for chunk in bytes.chunks(8) {
                let mut b = [0u8; 8];
                b[..chunk.len()].copy_from_slice(chunk);
                self.acc = mix(self.acc, u64::from_le_bytes(b) ^ (chunk.len() as u64) << 56);
            }
        }
        fn write_u8(&mut self, i: u8) { self.acc = mix(self.acc, i as u64 + 1) }
        fn write_u16(&mut self, i: u16) { self.acc = mix(self.acc, i as u64 + 2) }
        fn write_u32(&mut self, i: u32) { self.acc = mix(self.acc, i as u64 + 3) }
        fn write_u64(&mut self, i: u64) { self.acc = mix(self.acc, i.wrapping_add(4)) }
        fn write_usize(&mut self, i: usize) { self.acc = mix(self.acc, (i as u64).wrapping_add(5)) }
        fn finish(&self) -> u64 {
            let h = mix(self.acc, 0x5bd1_e995_1234_5678);
            match self.mode {
                0 => h,
                // weak hash: few buckets and few control bytes, many collisions
                1 => (h & 0x7) | ((h & 0x3) << 57),
                // every key collides
                2 => 0,
                // reversed order of buckets
                _ => !h,
            }
        }
    }
}
