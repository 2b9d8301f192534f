//! Random choices.  Every random decision of a check is read from a choice vector produced by a
//! proptest strategy under a runner seeded from VERIF_SEED, the property id and the case index, so a
//! run is a pure function of the code and the seed.
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

pub struct Src {
    v: Vec<u32>,
    pos: usize,
    tail: u64,
}

fn seed_bytes(prop: &str, seed: u64, idx: u64) -> [u8; 32] {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    b[8..16].copy_from_slice(&idx.to_le_bytes());
    for (i, c) in prop.bytes().enumerate() {
        b[16 + i % 16] = b[16 + i % 16].wrapping_mul(31).wrapping_add(c);
    }
    b
}

impl Src {
    pub fn new(prop: &str, seed: u64, idx: u64) -> Src {
        let rng = TestRng::from_seed(RngAlgorithm::ChaCha, &seed_bytes(prop, seed, idx));
        let mut r = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng);
        let strat = (proptest::collection::vec(any::<u32>(), 512..=512), any::<u64>());
        let (v, tail) = strat.new_tree(&mut r).unwrap().current();
        Src { v, pos: 0, tail }
    }
    fn next(&mut self) -> u32 {
        let p = self.pos;
        self.pos += 1;
        if p < self.v.len() {
            return self.v[p];
        }
        // past the vector: continue with a splitmix stream keyed by the generated tail value
        let mut z = self.tail.wrapping_add((p as u64).wrapping_mul(0x9E3779B97F4A7C15));
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        (z ^ (z >> 31)) as u32
    }
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        ((self.next() as u64 * n as u64) >> 32) as usize
    }
    /// inclusive range
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn chance(&mut self, percent: usize) -> bool {
        self.below(100) < percent
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn u32(&mut self) -> u32 {
        self.next()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    /// weighted index
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let t: usize = w.iter().sum();
        let mut x = self.below(t);
        for (i, k) in w.iter().enumerate() {
            if x < *k {
                return i;
            }
            x -= k;
        }
        unreachable!()
    }
}
