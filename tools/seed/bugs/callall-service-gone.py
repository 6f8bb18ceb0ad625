PROP='C36'
FILE='tower/src/util/call_all/common.rs'
OLD="""                *this.eof = true;
                return Poll::Ready(Some(Err(e)));"""
NEW="""                *this.eof = true;
                // the failed service is of no use any more
                *this.service = None;
                return Poll::Ready(Some(Err(e)));"""
NEEDS="a stream of calls whose service failed its readiness, and whose service is then extracted"
BREAKS="into_inner panics instead of handing out the wrapped service"
MAIN='''use support::*;
use std::task::Poll;
use tokio_test::task;
use tower::ServiceExt;

fn main() {
    let (ctl, svc) = Ctl::new();
    let reqs = tokio_stream::iter(vec!["one".to_string()]);
    let mut s = task::spawn(svc.call_all(reqs));
    ctl.ready(Err("failed"));
    match s.enter(|cx, s| { use futures::Stream; s.poll_next(cx) }) {
        Poll::Ready(Some(Err(_))) => {}
        _ => panic!("failure not reported"),
    }
    let svc = s.into_inner().into_inner();
    assert_eq!(svc.id, 0);
    drop(svc);
}
'''
