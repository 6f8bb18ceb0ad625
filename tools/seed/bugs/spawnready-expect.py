PROP='C03'
FILE='tower/src/spawn_ready/service.rs'
OLD="let svc = ready!(Pin::new(fut).poll(cx))??;"
NEW="let svc = ready!(Pin::new(fut).poll(cx)).expect(\"the background task panicked\")?;"
NEEDS="a background readiness task which is cancelled, for example by a runtime which shuts down"
BREAKS="the readiness poll panics instead of returning an error when the background task is cancelled"
MAIN='''use support::*;
use std::task::Poll;
use tokio_test::task;
use tower::spawn_ready::SpawnReady;
use tower_service::Service;

fn main() {
    let (_c, svc) = Ctl::new();
    let mut s = task::spawn(SpawnReady::new(svc));
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let g = rt.enter();
    assert!(s.enter(|cx, s| s.get_mut().poll_ready(cx)).is_pending());
    drop(g);
    drop(rt);
    match s.enter(|cx, s| s.get_mut().poll_ready(cx)) {
        Poll::Ready(Err(_)) => {}
        _ => panic!("no error"),
    }
}
'''
