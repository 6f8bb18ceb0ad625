PROP='C16'
FILE='tower/src/retry/budget/tps_budget.rs'
OLD="self.slots[gen.index].store(to_commit, Ordering::SeqCst);"
NEW="self.slots[gen.index].fetch_add(to_commit, Ordering::SeqCst);"
NEEDS="steady traffic for longer than one ttl, so that the ring of windows is used a second time"
BREAKS="the slot of the finished window is added to instead of replaced, so deposits of one ttl ago are counted on, and the budget grants retries for requests which expired long ago"
MAIN='''use std::time::Duration;
use tower::retry::budget::{Budget, TpsBudget};

#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
    let b = TpsBudget::new(Duration::from_secs(10), 0, 1.0);
    b.deposit();
    for _ in 0..40 {
        tokio::time::advance(Duration::from_millis(1000)).await;
        // nothing: touch the budget once a window
        if tokio::time::Instant::now().elapsed() > Duration::from_secs(99) {
            b.deposit();
        }
        let _ = &b;
    }
    // steady traffic: one deposit each window
    let b = TpsBudget::new(Duration::from_secs(10), 0, 1.0);
    for _ in 0..45 {
        b.deposit();
        tokio::time::advance(Duration::from_millis(1000)).await;
    }
    let mut n = 0;
    while b.withdraw() {
        n += 1;
    }
    assert!(n <= 13, "{} retries granted for the deposits of one ttl", n);
}
'''
