PROP='C21'
FILE='tower/src/steer/mod.rs'
OLD="""            if self.not_ready.is_empty() {
                return Poll::Ready(Ok(()));
            } else {
                if self.services[self.not_ready[0]]
                    .poll_ready(cx)?
                    .is_pending()
                {
                    return Poll::Pending;
                }

                self.not_ready.pop_front();
            }"""
NEW="""            let idx = match self.not_ready.pop_front() {
                Some(idx) => idx,
                None => return Poll::Ready(Ok(())),
            };
            if self.services[idx].poll_ready(cx)?.is_pending() {
                self.not_ready.push_back(idx);
                return Poll::Pending;
            }"""
NEEDS="a wrapped service which fails its readiness poll, after which the handle is polled again by its owner (for example one that retries readiness)"
BREAKS="the failed service leaves the set of services which still have to become ready, so the next readiness poll succeeds although that service is not ready, and a request may be dispatched to it"
MAIN='''use support::*;
use tokio_test::task;
use tower::steer::Steer;
use tower_service::Service;

fn main() {
    let (a, sa) = Ctl::auto();
    let (b, sb) = Ctl::new();
    b.ready(Err("transient"));
    let mut s = task::spawn(Steer::new(vec![sa, sb], |_: &String, _: &[Svc]| 1usize));
    assert_eq!(is_ready(&mut s), Some(false));
    // the second service still is not ready
    if is_ready(&mut s) == Some(true) {
        let _ = s.call("x".into());
    }
    assert!(b.violations().is_empty(), "{:?}", b.violations());
    let _ = a;
}
'''
