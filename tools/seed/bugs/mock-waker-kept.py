PROP='C32'
FILE='tower-test/src/mock/mod.rs'
OLD="""            *state
                .tasks
                .entry(self.id)
                .or_insert_with(|| cx.waker().clone()) = cx.waker().clone();
"""
NEW="""            state
                .tasks
                .entry(self.id)
                .or_insert_with(|| cx.waker().clone());
"""
NEEDS="a mock which is polled for readiness by one task and, still pending, by another one before the handle allows requests"
BREAKS="the task which polled last is not woken when the handle allows requests"
MAIN='''use tower_test::mock;
use tower_service::Service;

fn main() {
    let (mut m, mut h) = mock::pair::<u8, u8>();
    h.allow(0);
    let mut a = tokio_test::task::spawn(());
    let mut b = tokio_test::task::spawn(());
    assert!(a.enter(|cx, _| m.poll_ready(cx)).is_pending());
    assert!(b.enter(|cx, _| m.poll_ready(cx)).is_pending());
    h.allow(1);
    assert!(b.is_woken(), "the waiting task is not woken");
}
'''
