PROP='C27'
FILE='tower/src/util/oneshot.rs'
OLD="let _ = ready!(svc.poll_ready(cx))?;"
NEW="let _ = ready!(svc.poll_ready(cx));"
NEEDS="a service whose readiness poll fails"
BREAKS="oneshot dispatches the request to a service which reported that it failed, instead of returning that error"
MAIN='''use support::*;
use tokio_test::task;
use tower::ServiceExt;

fn main() {
    let (c, svc) = Ctl::new();
    c.ready(Err("broken"));
    let mut f = task::spawn(svc.oneshot("x".to_string()));
    let r = f.poll();
    assert!(c.calls().is_empty() && c.violations().is_empty(), "{:?}", c.violations());
    assert!(matches!(r, std::task::Poll::Ready(Err(_))));
}
'''
