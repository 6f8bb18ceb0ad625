PROP='C33'
FILE='tower/src/load/peak_ewma.rs'
OLD="            decay_ns: nanos(decay),"
NEW="            decay_ns: f64::from(decay.subsec_nanos()),"
NEEDS="a load tracking discovery wrapper with a decay of one second or more"
BREAKS="discovered services are wrapped with another decay than the configured one"
MAIN='''use support::*;
use std::time::Duration;
use tower::discover::{Change, ServiceList};
use tower::load::{CompleteOnResponse, Load, PeakEwma, PeakEwmaDiscover};
use futures::StreamExt;

#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
    let rtt = Duration::from_millis(10);
    let decay = Duration::from_millis(10100);
    let l = ServiceList::new::<String>(vec![Ctl::auto().1]);
    let mut d = PeakEwmaDiscover::new::<String>(l, rtt, decay, CompleteOnResponse::default());
    let s: PeakEwma<Svc> = match d.next().await {
        Some(Ok(Change::Insert(_, s))) => s,
        _ => panic!("no service"),
    };
    let t = PeakEwma::new(Ctl::auto().1, rtt, decay.as_nanos() as f64, CompleteOnResponse::default());
    tokio::time::advance(Duration::from_millis(500)).await;
    assert_eq!(format!("{:?}", s.load()), format!("{:?}", t.load()));
}
'''
