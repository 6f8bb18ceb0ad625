PROP='C12'
FILE='tower/src/limit/rate/service.rs'
OLD="""                    until = now + self.rate.per();"""
NEW="""                    until += self.rate.per();"""
NEEDS="a call after the window has been over for a while (the service idle for more than a period while ready)"
BREAKS="windows follow one another faster than one per period until the idle time is caught up, so the rate is exceeded"
MAIN='''use std::time::Duration;
use support::*;
use tokio_test::task;
use tower::limit::{rate::Rate, RateLimit};
use tower_service::Service;

#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
    let (ctl, svc) = Ctl::auto();
    let mut a = task::spawn(RateLimit::new(svc, Rate::new(2, Duration::from_secs(1))));
    assert_eq!(is_ready(&mut a), Some(true));
    drop((&mut *a).call("first".to_string()));
    tokio::time::advance(Duration::from_secs(20)).await;
    for _ in 0..10 {
        if is_ready(&mut a) == Some(true) {
            drop((&mut *a).call("x".to_string()));
        }
    }
    let n = ctl.calls().len() - 1;
    assert!(n <= 2, "{} requests in one instant", n);
}
'''
