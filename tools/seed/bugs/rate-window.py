PROP='C12'
FILE='tower/src/limit/rate/service.rs'
OLD="""                if now >= until {
                    until = now + self.rate.per();
                    rem"""
NEW="""                if now >= until {
                    until += self.rate.per();
                    rem"""
NEEDS="a handle that stays idle for several periods with room left in its window and is then used in a burst"
BREAKS="the window that follows an idle time begins in the past, so several windows' worth of requests are admitted within one period"
MAIN='''use support::*;
use std::time::Duration;
use tokio_test::task;
use tower::limit::RateLimit;
use tower::limit::rate::Rate;
use tower_service::Service;

#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
    let (ctl, svc) = Ctl::auto();
    let mut s = task::spawn(RateLimit::new(svc, Rate::new(2, Duration::from_millis(100))));
    assert_eq!(is_ready(&mut s), Some(true));
    let _ = s.call("first".into()).await;
    tokio::time::advance(Duration::from_millis(1050)).await;
    // at most 2 requests may pass within one period
    let mut n = 0;
    for _ in 0..10 {
        if is_ready(&mut s) == Some(true) {
            let _ = s.call("burst".into()).await;
            n += 1;
        }
    }
    assert!(n <= 2, "{} requests admitted in one period", n);
    assert!(ctl.violations().is_empty());
}
'''
