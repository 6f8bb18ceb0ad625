PROP='C01'
FILE='tower/src/util/future_service.rs'
OLD="""                State::Future(fut) => {
                    let fut = Pin::new(fut);
                    let svc = futures_core::ready!(fut.poll(cx)?);
                    State::Service(svc)
                }"""
NEW="""                State::Future(fut) => {
                    let fut = Pin::new(fut);
                    let svc = futures_core::ready!(fut.poll(cx)?);
                    self.state = State::Service(svc);
                    return Poll::Ready(Ok(()));
                }"""
NEEDS="a constructor future which produces a service that is not ready yet"
BREAKS="the first request is dispatched to a service that never reported readiness"
MAIN='''use support::*;
use tokio_test::task;
use tower::util::FutureService;
use tower_service::Service;

fn main() {
    let (ctl, svc) = Ctl::new();
    let mut s = task::spawn(FutureService::new(futures::future::ready(Ok::<_, Error>(svc))));
    if is_ready(&mut s) == Some(true) {
        let _ = s.call("x".into());
    }
    assert!(ctl.violations().is_empty(), "{:?}", ctl.violations());
}
'''
