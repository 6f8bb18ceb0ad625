PROP='C34'
EDITS=[('tower/src/make/make_service.rs',"""impl<M, S, Target, Request> Service<Target> for IntoService<M, Request>
where
    M: Service<Target, Response = S>,
    S: Service<Request>,
{
    type Response = M::Response;
    type Error = M::Error;
    type Future = M::Future;

    #[inline]
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        self.make.poll_ready(cx)
    }
""","""impl<M, S, Target, Request> Service<Target> for IntoService<M, Request>
where
    M: Service<Target, Response = S>,
    S: Service<Request>,
{
    type Response = M::Response;
    type Error = M::Error;
    type Future = M::Future;

    #[inline]
    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {
        // a failure shows up in the response of `make_service`
        match self.make.poll_ready(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(_) => Poll::Ready(Ok(())),
        }
    }
""")]
NEEDS="a service factory, used through into_service, whose readiness poll fails"
BREAKS="the adapter hides the readiness failure of the factory and reports ready, and a call then goes to a factory which is not ready"
MAIN='''use support::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use tokio_test::task;
use tower::MakeService;
use tower_service::Service;

struct Make;
impl Service<()> for Make {
    type Response = Svc;
    type Error = String;
    type Future = Pin<Box<dyn Future<Output = Result<Svc, String>>>>;
    fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), String>> {
        Poll::Ready(Err("no factory".into()))
    }
    fn call(&mut self, _: ()) -> Self::Future {
        panic!("called although not ready")
    }
}

fn main() {
    let mut s = task::spawn(MakeService::<(), String>::into_service(Make));
    let r = s.enter(|cx, s| Service::<()>::poll_ready(s.get_mut(), cx));
    assert_eq!(r, Poll::Ready(Err("no factory".to_string())));
}
'''
