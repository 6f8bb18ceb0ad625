PROP='C22'
FILE='tower/src/spawn_ready/service.rs'
OLD="""                    let svc = ready!(Pin::new(fut).poll(cx))??;
                    Inner::Service(Some(svc))"""
NEW="""                    match ready!(Pin::new(fut).poll(cx)) {
                        Ok(svc) => Inner::Service(Some(svc?)),
                        Err(_) => return Poll::Pending,
                    }"""
NEEDS="a background task which is lost (it panicked or its runtime shut down) while the handle waits for it"
BREAKS="readiness stays pending for ever with nobody to wake the caller, instead of failing"
MAIN='''use support::*;
use tokio_test::task;
use tower::spawn_ready::SpawnReady;
use tower_service::Service;

struct Bad(usize);
impl Service<String> for Bad {
    type Response = String;
    type Error = Error;
    type Future = Fut;
    fn poll_ready(&mut self, _: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), Error>> {
        self.0 += 1;
        if self.0 > 1 {
            panic!("background failure");
        }
        std::task::Poll::Pending
    }
    fn call(&mut self, _: String) -> Fut {
        unreachable!()
    }
}

#[tokio::main(flavor = "current_thread")]
async fn main() {
    let mut s = task::spawn(SpawnReady::new(Bad(0)));
    assert_eq!(is_ready(&mut s), None);
    for _ in 0..5 {
        tokio::task::yield_now().await;
    }
    assert!(s.is_woken());
    assert_eq!(is_ready(&mut s), Some(false), "the lost task was not reported");
}
'''
