PROP='C17'
FILE='tower/src/hedge/select.rs'
OLD="""        if let Poll::Ready(r) = this.a_fut.poll(cx) {
            return Poll::Ready(Ok(r.map_err(Into::into)?));
        }"""
NEW="""        match this.a_fut.poll(cx) {
            Poll::Ready(Err(_)) if this.b_fut.is_some() => {}
            Poll::Ready(r) => return Poll::Ready(Ok(r.map_err(Into::into)?)),
            Poll::Pending => {}
        }"""
NEEDS="a primary request that fails while a hedge is scheduled"
BREAKS="the first result is swallowed and the finished primary is polled again"
MAIN='''use support::*;
use std::time::Duration;
use tokio_test::task;
use tower::hedge::{Hedge, Policy};
use tower_service::Service;

#[derive(Clone)]
struct Yes;
impl Policy<String> for Yes {
    fn clone_request(&self, r: &String) -> Option<String> {
        Some(r.clone())
    }
    fn can_retry(&self, _: &String) -> bool {
        true
    }
}

#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
    let (ctl, svc) = Ctl::new();
    ctl.always(true);
    let lat = [20u64; 10];
    let mut s = task::spawn(Hedge::new_with_mock_latencies(svc, Yes, 5, 0.9, Duration::from_secs(60), &lat));
    assert_eq!(is_ready(&mut s), Some(true));
    let mut f = task::spawn(s.call("x".into()));
    assert!(f.poll().is_pending());
    ctl.reply(0, Err("refused"));
    match f.poll() {
        std::task::Poll::Ready(Err(e)) => assert_eq!(e.to_string(), "refused"),
        other => panic!("{:?}", other),
    }
}
'''
