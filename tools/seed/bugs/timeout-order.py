PROP='C14'
FILE='tower/src/timeout/future.rs'
OLD="""        // First, try polling the future
        match this.response.poll(cx) {
            Poll::Ready(v) => return Poll::Ready(v.map_err(Into::into)),
            Poll::Pending => {}
        }

        // Now check the sleep
        match this.sleep.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(_) => Poll::Ready(Err(Elapsed(()).into())),
        }"""
NEW="""        // First, check the sleep
        match this.sleep.poll(cx) {
            Poll::Ready(_) => return Poll::Ready(Err(Elapsed(()).into())),
            Poll::Pending => {}
        }

        // Now poll the future
        match this.response.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(v) => Poll::Ready(v.map_err(Into::into)),
        }"""
NEEDS="the response becomes available and the deadline passes between two polls of the response future"
BREAKS="a request whose response is available is failed with the timeout error"
MAIN='''use support::*;
use std::time::Duration;
use tokio_test::task;
use tower::timeout::Timeout;
use tower_service::Service;

#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
    let (ctl, svc) = Ctl::new();
    ctl.always(true);
    let mut s = task::spawn(Timeout::new(svc, Duration::from_millis(100)));
    assert_eq!(is_ready(&mut s), Some(true));
    let mut f = task::spawn(s.call("a".into()));
    assert!(f.poll().is_pending());
    ctl.reply(0, Ok("answer"));
    tokio::time::advance(Duration::from_millis(101)).await;
    match f.poll() {
        std::task::Poll::Ready(Ok(x)) => assert_eq!(x, "answer"),
        other => panic!("response lost: {:?}", other),
    }
}
'''
