PROP='C20'
EDITS=[("tower/src/load/peak_ewma.rs","#[derive(Copy, Clone, Debug, PartialEq, PartialOrd)]\npub struct Cost(f64);","#[derive(Copy, Clone, Debug, PartialEq)]\npub struct Cost(f64);\n\nimpl PartialOrd for Cost {\n    fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {\n        // costs are nanoseconds: compare them as such\n        Some((self.0 as u32).cmp(&(other.0 as u32)))\n    }\n}")]
NEEDS="two endpoints whose costs are both above 2^32 ns (a latency estimate of 4.3 s, or 1 s with several requests pending)"
BREAKS="costs above 4.3 s compare as equal, so a balancer prefers a heavily loaded endpoint to a lighter one"
MAIN='''use std::time::Duration;
use tower::load::{CompleteOnResponse, Load, PeakEwma};
use tower::Service;

fn svc(rtt: u64) -> PeakEwma<impl Service<u8>> {
    let s = tower::service_fn(|_: u8| std::future::ready(Ok::<(), ()>(())));
    PeakEwma::new(s, Duration::from_secs(rtt), 1e18, CompleteOnResponse::default())
}

fn main() {
    let (light, heavy) = (svc(6), svc(60));
    assert!(light.load() < heavy.load(), "6 s is not less than 60 s");
}
'''
