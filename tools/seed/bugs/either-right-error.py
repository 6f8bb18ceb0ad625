PROP='C07'
FILE='tower/src/util/either.rs'
OLD="            Either::Right(service) => service.poll_ready(cx),"
NEW="            Either::Right(service) => match service.poll_ready(cx) {\n                Poll::Pending => Poll::Pending,\n                Poll::Ready(_) => Poll::Ready(Ok(())),\n            },"
NEEDS="an Either in its right variant whose service fails its readiness poll"
BREAKS="the readiness failure of the wrapped service is turned into readiness"
MAIN='''use support::*;
use tokio_test::task;
use tower::util::Either;

fn main() {
    let (c, svc) = Ctl::new();
    c.ready(Err("broken"));
    let mut s = task::spawn(Either::<Svc, Svc>::Right(svc));
    assert_eq!(is_ready(&mut s), Some(false), "readiness failure lost");
}
'''
