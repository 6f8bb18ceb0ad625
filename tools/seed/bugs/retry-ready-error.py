PROP='C15'
FILE='tower/src/retry/future.rs'
OLD="""                    ready!(this.retry.as_mut().project().service.poll_ready(cx))?;
                    let req"""
NEW="""                    if this
                        .retry
                        .as_mut()
                        .project()
                        .service
                        .poll_ready(cx)
                        .is_pending()
                    {
                        return Poll::Pending;
                    }
                    let req"""
NEEDS="a service whose readiness fails between two attempts of a retried request"
BREAKS="the readiness failure is ignored and the next attempt is dispatched to the failed service"
MAIN='''use support::*;
use tokio_test::task;
use tower::retry::{Policy, Retry};
use tower_service::Service;

#[derive(Clone)]
struct Always;
impl Policy<String, String, Error> for Always {
    type Future = futures::future::Ready<()>;
    fn retry(&mut self, _: &mut String, r: &mut Result<String, Error>) -> Option<Self::Future> {
        r.as_ref().err().map(|_| futures::future::ready(()))
    }
    fn clone_request(&mut self, r: &String) -> Option<String> {
        Some(r.clone())
    }
}

fn main() {
    let (ctl, svc) = Ctl::new();
    ctl.ready(Ok(()));
    let mut s = task::spawn(Retry::new(Always, svc));
    assert_eq!(is_ready(&mut s), Some(true));
    let mut f = task::spawn(s.call("x".into()));
    assert!(f.poll().is_pending());
    ctl.reply(0, Err("try again"));
    ctl.ready(Err("gone"));
    match f.poll() {
        std::task::Poll::Ready(Err(e)) => assert_eq!(e.to_string(), "gone"),
        other => panic!("{:?}, calls {:?}", other, ctl.calls()),
    }
    assert_eq!(ctl.calls().len(), 1);
}
'''
