PROP='C28'
FILE='tower/src/hedge/mod.rs'
OLD="""        self.policy.clone_request(req).filter(|_| {
            let mut locked = self.histo.lock().unwrap();
            // Do not attempt a retry if there are insufficiently many data
            // points in the histogram.
            locked.read().len() >= self.min_data_points
        })"""
NEW="""        // Do not attempt a retry if there are insufficiently many data
        // points in the histogram.
        match self.histo.lock().unwrap().read().len() {
            n if n >= self.min_data_points => self.policy.clone_request(req),
            _ => None,
        }"""
NEEDS="a policy whose clone_request uses the same hedged service (for example to derive the request)"
BREAKS="the policy runs while the histogram lock is held: the lock guard is a temporary that lives to the end of the match, so the policy deadlocks"
MAIN='''use support::*;
use futures::future::BoxFuture;
use futures::FutureExt;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use tokio_test::task;
use tower::hedge::{Hedge, Policy};
use tower_service::Service;

/// drives the previous request before it copies the next one
#[derive(Clone)]
struct Nested(Arc<Mutex<Option<BoxFuture<'static, Result<String, Error>>>>>);
impl Policy<String> for Nested {
    fn clone_request(&self, r: &String) -> Option<String> {
        if let Some(f) = self.0.lock().unwrap().take() {
            let mut t = task::spawn(f);
            let _ = t.poll();
        }
        Some(r.clone())
    }
    fn can_retry(&self, _: &String) -> bool {
        true
    }
}

fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let rt = tokio::runtime::Builder::new_current_thread().enable_all().build().unwrap();
        rt.block_on(async move {
            let (_ctl, svc) = Ctl::auto();
            let lat = [20u64; 10];
            let slot = Arc::new(Mutex::new(None));
            let mut s = task::spawn(Hedge::new_with_mock_latencies(svc, Nested(slot.clone()), 5, 0.9, Duration::from_secs(60), &lat));
            assert_eq!(is_ready(&mut s), Some(true));
            let f = s.call("first".into());
            *slot.lock().unwrap() = Some(f.boxed());
            assert_eq!(is_ready(&mut s), Some(true));
            let _ = s.call("second".into());
        });
        tx.send(()).unwrap();
    });
    rx.recv_timeout(Duration::from_secs(10)).expect("the policy deadlocked");
}
'''
