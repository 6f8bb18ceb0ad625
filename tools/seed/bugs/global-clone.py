PROP='C25'
EDITS=[('tower/src/limit/concurrency/layer.rs',"""/// Cloning this layer will not create a new semaphore.
#[derive(Debug, Clone)]
pub struct GlobalConcurrencyLimitLayer {
    semaphore: Arc<Semaphore>,
}
""","""/// Cloning this layer will not create a new semaphore.
#[derive(Debug)]
pub struct GlobalConcurrencyLimitLayer {
    semaphore: Arc<Semaphore>,
}

impl Clone for GlobalConcurrencyLimitLayer {
    fn clone(&self) -> Self {
        Self::new(self.semaphore.available_permits())
    }
}
""")]
NEEDS="services built from two clones of one global concurrency limit layer, both with requests in flight"
BREAKS="clones of the layer count against separate limits, so together they exceed the global one"
MAIN='''use support::*;
use tokio_test::task;
use tower::limit::GlobalConcurrencyLimitLayer;
use tower_layer::Layer;
use tower_service::Service;

fn main() {
    let l = GlobalConcurrencyLimitLayer::new(1);
    let (a, sa) = Ctl::new();
    let (b, sb) = Ctl::new();
    a.always(true);
    b.always(true);
    let mut x = task::spawn(l.layer(sa));
    let mut y = task::spawn(l.clone().layer(sb));
    assert_eq!(is_ready(&mut x), Some(true));
    let _f = x.call("x".into());
    assert_eq!(is_ready(&mut y), None, "two requests under a global limit of one");
}
'''
