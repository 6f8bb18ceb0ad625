PROP='C02'
EDITS=[('tower/src/limit/rate/service.rs',"""                if Pin::new(&mut self.sleep).poll(cx).is_pending() {
""","""                // no need to go through the timer once the window is over
                if Instant::now() < self.sleep.deadline() {
"""),('tower/src/limit/rate/service.rs',"    future::Future,\n","")]
NEEDS="a task which is polled while the limit is exhausted and then waits to be woken"
BREAKS="the readiness poll answers pending without registering the task with the timer, so nothing wakes it when the period ends"
MAIN='''use std::time::Duration;
use support::*;
use tokio_test::task;
use tower::limit::rate::Rate;
use tower::limit::RateLimit;
use tower_service::Service;

#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
    let (_c, svc) = Ctl::auto();
    let mut s = task::spawn(RateLimit::new(svc, Rate::new(1, Duration::from_millis(100))));
    assert_eq!(is_ready(&mut s), Some(true));
    s.call("a".into()).await.unwrap();
    assert_eq!(is_ready(&mut s), None);
    tokio::time::sleep(Duration::from_secs(10)).await;
    assert!(s.is_woken(), "not woken ten seconds after the period ended");
}
'''
