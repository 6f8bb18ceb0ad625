PROP='C04'
FILE='tower/src/util/call_all/common.rs'
OLD="""                if this.queue.is_empty() {
                    return Poll::Ready(None);
                } else {
                    return Poll::Pending;
                }"""
NEW="""                if this.queue.is_empty() {
                    return Poll::Ready(None);
                } else {
                    *this.eof = false;
                    return Poll::Pending;
                }"""
NEEDS="a request stream which ends while responses are outstanding"
BREAKS="the ended request stream is polled again (and, after a readiness failure, requests are taken again)"
MAIN='''use support::*;
use tokio_test::task;
use tower::ServiceExt;
use futures::Stream;
use std::pin::Pin;
use std::task::{Context, Poll};

/// a stream that must not be polled after its end
struct Once(Vec<String>, bool);
impl Stream for Once {
    type Item = String;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<String>> {
        assert!(!self.1, "stream polled after its end");
        let x = self.0.pop();
        self.1 = x.is_none();
        Poll::Ready(x)
    }
}

fn main() {
    let (ctl, svc) = Ctl::new();
    ctl.always(true);
    let mut s = task::spawn(svc.call_all(Once(vec!["a".into()], false)));
    assert!(s.enter(|cx, s| s.poll_next(cx)).is_pending());
    assert!(s.enter(|cx, s| s.poll_next(cx)).is_pending());
    ctl.reply(0, Ok("done"));
    assert!(s.enter(|cx, s| s.poll_next(cx)).is_ready());
}
'''
