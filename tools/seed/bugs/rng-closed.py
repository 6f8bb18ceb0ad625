PROP='C35'
FILE='tower/src/util/rng.rs'
OLD="let scale = 1.0 / ((1u64 << precision) as f64);"
NEW="let scale = 1.0 / (((1u64 << precision) - 1) as f64);"
NEEDS="a draw of the underlying generator with its 53 top bits all set"
BREAKS="next_f64 can return exactly 1.0, outside the half-open interval it promises"
MAIN='''use tower::util::rng::Rng;

struct Max;
impl Rng for Max {
    fn next_u64(&mut self) -> u64 {
        u64::MAX
    }
}

fn main() {
    let x = Max.next_f64();
    assert!((0.0..1.0).contains(&x), "next_f64 returned {}", x);
}
'''
