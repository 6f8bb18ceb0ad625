PROP='C03'
FILE='tower/src/util/call_all/common.rs'
OLD="""                *this.eof = true;
                return Poll::Ready(Some(Err(e)));"""
NEW="""                *this.eof = true;
                *this.service = None;
                return Poll::Ready(Some(Err(e)));"""
NEEDS="a service which fails its readiness poll, and a caller which takes the service back afterwards"
BREAKS="taking the service out of the combinator panics, although nobody took it before"
MAIN='''use support::*;
use futures::StreamExt;
use tower::ServiceExt;

#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (c, svc) = Ctl::new();
    c.ready(Err("broken"));
    let mut s = svc.call_all(futures::stream::iter(vec!["a".to_string()]));
    assert!(s.next().await.unwrap().is_err());
    let _back = s.into_inner();
}
'''
