PROP='C19'
FILE='tower/src/ready_cache/cache.rs'
OLD="""                // If a new version of this service has been added to the
                // unready set, don't overwrite it.
                if !self.pending_contains(&key) {
                    self.push_pending(key, svc, cancel);
                }

                Ok(false)"""
NEW="""                self.push_pending(key, svc, cancel);

                Ok(false)"""
NEEDS="a ready service is replaced by pushing a newer one under its key and loses its readiness before the newer one is ready"
BREAKS="the stale service cancels and replaces the newer one"
MAIN='''use support::*;
use tokio_test::task;
use tower::ready_cache::ReadyCache;

fn main() {
    let (old, olds) = Ctl::new();
    let (new, news) = Ctl::new();
    let mut c: task::Spawn<ReadyCache<u8, Flaky, String>> = task::spawn(ReadyCache::default());
    old.ready(Ok(()));
    c.push(1, Flaky(olds));
    assert!(c.enter(|cx, mut c| c.poll_pending(cx)).is_ready());
    c.push(1, Flaky(news));
    // the old one is not ready any more
    assert_eq!(c.enter(|cx, mut c| c.check_ready_index(cx, 0)).unwrap(), false);
    new.always(true);
    old.always(true);
    assert!(c.enter(|cx, mut c| c.poll_pending(cx)).is_ready());
    assert_eq!(c.enter(|cx, mut c| c.check_ready(cx, &1)).unwrap(), true);
    let _ = c.call_ready(&1, "x".into());
    assert_eq!(new.calls().len(), 1, "the newer service was not used");
    assert_eq!(old.calls().len(), 0, "the replaced service was used");
}

/// a service that forgets its readiness at once
struct Flaky(Svc);
impl tower_service::Service<String> for Flaky {
    type Response = String;
    type Error = Error;
    type Future = Fut;
    fn poll_ready(&mut self, cx: &mut std::task::Context<'_>) -> std::task::Poll<Result<(), Error>> {
        self.0.is_ready = false;
        self.0.poll_ready(cx)
    }
    fn call(&mut self, r: String) -> Fut {
        self.0.call(r)
    }
}
'''
