PROP='C32'
FILE='tower-test/src/mock/mod.rs'
OLD="            next_clone_id: 1,"
NEW="            next_clone_id: 0,"
NEEDS="two clones of one mock which both wait for readiness before the handle allows a request"
BREAKS="the first clone shares its task slot with the original handle, so a waiting task of one of them is never woken when the mock becomes ready"
MAIN='''use std::task::Poll;
use tokio_test::task;
use tower_service::Service;
use tower_test::mock::{pair, Mock};

fn main() {
    let (m, mut h) = pair::<String, String>();
    let mut a = task::spawn(m.clone());
    let mut b = task::spawn(m);
    h.allow(0);
    let p = |t: &mut task::Spawn<Mock<String, String>>| t.enter(|cx, s| matches!(s.get_mut().poll_ready(cx), Poll::Ready(Ok(()))));
    assert!(!p(&mut a));
    assert!(!p(&mut b));
    h.allow(2);
    assert!(a.is_woken() && b.is_woken(), "a task which waits for the mock was not woken: {} {}", a.is_woken(), b.is_woken());
}
'''
