PROP='C24'
FILE='tower/src/filter/future.rs'
OLD="""                    let request = ready!(check.as_mut().poll(cx))?;
                    let response = this.service.call(request);"""
NEW="""                    let request = ready!(check.as_mut().poll(cx))
                        // rejections cross tasks: carry their text only
                        .map_err(|e| crate::BoxError::from(e.to_string()))?;
                    let response = this.service.call(request);"""
NEEDS="an asynchronous predicate which rejects with an error type the caller looks for with downcast"
BREAKS="the request does not resolve to the predicate's error but to a new one with the same text"
MAIN='''use support::*;
use tower::filter::AsyncFilter;
use tower::{Service, ServiceExt};

#[derive(Debug)]
struct Refused(u32);
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "refused")
    }
}
impl std::error::Error for Refused {}

#[tokio::main(flavor = "current_thread")]
async fn main() {
    let (_ctl, svc) = Ctl::auto();
    let mut f = AsyncFilter::new(svc, |_r: String| std::future::ready(Err::<String, Error>(Box::new(Refused(7)))));
    let e = f.ready().await.unwrap().call("x".to_string()).await.unwrap_err();
    let r = e.downcast_ref::<Refused>().expect("not the predicate's error");
    assert_eq!(r.0, 7);
}
'''
