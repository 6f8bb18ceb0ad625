PROP='C16'
FILE='tower/src/retry/backoff.rs'
OLD="self.iterations += 1;"
NEW="// the factor is at its limit anyway\n        self.iterations = (self.iterations + 1).min(16);"
NEEDS="a request which is retried more than 16 times in a row with a maximum of more than 65536 times the minimum"
BREAKS="the exponential factor stops growing after 16 retries, so the wait stays far below the maximum for good"
MAIN='''use std::time::Duration;
use tower::retry::backoff::{Backoff, ExponentialBackoffMaker, MakeBackoff};
use tower::util::rng::HasherRng;

#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
    let max = Duration::from_secs(3600);
    let mut m = ExponentialBackoffMaker::new(Duration::from_millis(1), max, 0.0, HasherRng::default()).unwrap();
    let mut b = m.make_backoff();
    let mut last = Duration::ZERO;
    for _ in 0..30 {
        let t = tokio::time::Instant::now();
        b.next_backoff().await;
        last = t.elapsed();
    }
    assert!(last >= max, "wait 30 was {:?}", last);
}
'''
