PROP='C10'
FILE='tower/src/buffer/worker.rs'
OLD="""            if !msg.tx.is_closed() {
                tracing::trace!("resuming buffered request");
                return Poll::Ready(Some((msg, false)));
            }

            tracing::trace!("dropping cancelled buffered request");"""
NEW="""            tracing::trace!("resuming buffered request");
            return Poll::Ready(Some((msg, false)));"""
NEEDS="a request that is cancelled after the worker took it from the queue while the service was not ready"
BREAKS="the cancelled request is dispatched when the service becomes ready"
MAIN='''use support::*;
use tokio_test::task;
use tower::buffer::Buffer;
use tower_service::Service;

fn main() {
    let (ctl, svc) = Ctl::new();
    let (b, w) = Buffer::pair(svc, 2);
    let mut b = task::spawn(b);
    let mut w = task::spawn(w);
    assert_eq!(is_ready(&mut b), Some(true));
    let f = b.call("x".into());
    assert!(w.poll().is_pending());
    drop(f);
    ctl.ready(Ok(()));
    let _ = w.poll();
    assert!(ctl.calls().is_empty(), "a cancelled request was dispatched");
}
'''
