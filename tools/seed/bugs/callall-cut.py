PROP='C26'
FILE='tower/src/util/call_all/common.rs'
OLD="""                if this.queue.is_empty() {
                    return Poll::Ready(None);"""
NEW="""                if this.queue.is_empty() || this.curr_req.is_some() {
                    return Poll::Ready(None);"""
NEEDS="a readiness failure while responses to earlier requests are outstanding"
BREAKS="the stream ends without the outstanding responses"
MAIN='''use support::*;
use std::task::Poll;
use tokio_test::{assert_pending, task};
use tokio_stream::StreamExt as _;
use tower::ServiceExt;

fn main() {
    let (ctl, svc) = Ctl::new();
    let reqs = tokio_stream::iter(vec!["one".to_string(), "two".to_string()]);
    let mut s = task::spawn(Box::pin(svc.call_all(reqs)));
    ctl.ready(Ok(()));
    assert_pending!(s.enter(|cx, mut s| { use futures::Stream; s.as_mut().as_mut().poll_next(cx) }));
    ctl.ready(Err("failed"));
    match s.enter(|cx, mut s| { use futures::Stream; s.as_mut().as_mut().poll_next(cx) }) {
        Poll::Ready(Some(Err(_))) => {}
        _ => panic!("failure not reported"),
    }
    assert_pending!(s.enter(|cx, mut s| { use futures::Stream; s.as_mut().as_mut().poll_next(cx) }));
    ctl.reply(0, Ok("one"));
    match s.enter(|cx, mut s| { use futures::Stream; s.as_mut().as_mut().poll_next(cx) }) {
        Poll::Ready(Some(Ok(x))) => assert_eq!(x, "one"),
        _ => panic!("response lost"),
    }
    let _ = tokio_stream::iter(vec![1]).next();
}
'''
