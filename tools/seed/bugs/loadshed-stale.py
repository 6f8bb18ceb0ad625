PROP='C13'
FILE='tower/src/load_shed/mod.rs'
OLD="""        self.is_ready = match self.inner.poll_ready(cx) {
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
            r => r.is_ready(),
        };"""
NEW="""        match self.inner.poll_ready(cx) {
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
            Poll::Ready(Ok(())) => self.is_ready = true,
            Poll::Pending => {}
        }"""
NEEDS="a wrapped service which reports readiness, is not used, and answers pending when asked again"
BREAKS="a request is forwarded although the wrapped service was not ready when last asked"
MAIN='''use support::*;
use tokio_test::task;
use tower::load_shed::LoadShed;
use tower_service::Service;

fn main() {
    let (ctl, svc) = Ctl::new();
    ctl.ready(Ok(()));
    let mut s = task::spawn(LoadShed::new(Fickle(svc)));
    assert_eq!(is_ready(&mut s), Some(true));
    // asked again: not ready now
    assert_eq!(is_ready(&mut s), Some(true));
    let _ = s.call("late".into());
    assert!(ctl.calls().is_empty(), "forwarded to a service that was not ready");
}

/// a service whose readiness lasts for one poll (say, a closed connection pool)
#[derive(Clone)]
struct Fickle(Svc);
impl Service<String> for Fickle {
    type Response = String;
    type Error = Error;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), Error>> {
        self.0.is_ready = false;
        self.0.poll_ready(cx)
    }
    fn call(&mut self, r: String) -> Fut {
        self.0.call(r)
    }
}
'''
