PROP='C35'
FILE='tower/src/util/rng.rs'
OLD="        hasher.write_u64(self.counter);"
NEW="        // one byte of the counter is plenty to tell neighbouring draws apart\n        hasher.write_u8(self.counter as u8);"
NEEDS="more than 256 draws from one HasherRng: only then the sequence starts over"
BREAKS="the generator hashes the same input again after 256 draws, so the same 256 numbers (and pairs of endpoints) come round for ever"
MAIN='''use std::collections::HashSet;
use tower::util::rng::{HasherRng, Rng};

fn main() {
    let mut rng = HasherRng::default();
    let drawn: HashSet<u64> = (0..4096).map(|_| rng.next_u64()).collect();
    assert!(drawn.len() > 4000, "4096 draws gave only {} numbers", drawn.len());
}
'''
