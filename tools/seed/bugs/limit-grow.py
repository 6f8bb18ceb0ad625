PROP='C11'
FILE='tower/src/limit/concurrency/service.rs'
OLD="""        // Once we've acquired a permit (or if we already had one), poll the
        // inner service.
        self.inner.poll_ready(cx)"""
NEW="""        // Once we've acquired a permit (or if we already had one), poll the
        // inner service.
        let ready = self.inner.poll_ready(cx);
        if let Poll::Ready(Err(_)) = ready {
            // nothing will be dispatched: let the next handle in
            self.semaphore.add_permits(1);
        }
        ready"""
NEEDS="a wrapped service whose readiness fails and which is used again"
BREAKS="every readiness failure adds a permit, so that more requests than the limit are dispatched"
MAIN='''use support::*;
use tokio_test::task;
use tower::limit::ConcurrencyLimit;
use tower_service::Service;

fn main() {
    let (ctl, svc) = Ctl::new();
    let a = ConcurrencyLimit::new(svc, 1);
    let mut b = task::spawn(a.clone());
    let mut a = task::spawn(a);
    ctl.ready(Err("failed"));
    assert_eq!(is_ready(&mut a), Some(false));
    ctl.always(true);
    assert_eq!(is_ready(&mut a), Some(true));
    let _f = (&mut *a).call("one".to_string());
    if is_ready(&mut b) == Some(true) {
        let _g = (&mut *b).call("two".to_string());
        assert!(ctl.calls().len() <= 1, "limit exceeded");
    }
}
'''
