PROP='C09'
EDITS=[('tower/src/buffer/worker.rs',"""        let mut inner = self.handle.inner.lock().unwrap();

        if inner.is_some() {
            // Future::poll was called after we've already errored out!
            return;
        }

        *inner = Some(error.clone());
        drop(inner);

        self.rx.close();
""","""        if self.failed.is_some() {
            // Future::poll was called after we've already errored out!
            return;
        }

        self.rx.close();

        *self.handle.inner.lock().unwrap() = Some(error.clone());
""")]
NEEDS="a handle which waits for capacity and is polled again between the closing of the channel and the publication of the error (another thread, or a waker which polls at once)"
BREAKS="a caller sees the generic closed error instead of the error of the service"
MAIN='''use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use support::*;
use tokio_test::task;
use tower::buffer::Buffer;
use tower_service::Service;

type B = Buffer<String, Fut>;
struct W(Mutex<B>, Mutex<Option<String>>);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        let w = futures::task::noop_waker();
        if let Poll::Ready(Err(e)) = self.0.lock().unwrap().poll_ready(&mut Context::from_waker(&w)) {
            self.1.lock().unwrap().get_or_insert(e.to_string());
        }
    }
}

fn main() {
    let (ctl, svc) = Ctl::new();
    let (b, w) = Buffer::pair(svc, 1);
    let mut w = task::spawn(w);
    let mut a = task::spawn(b.clone());
    assert_eq!(is_ready(&mut a), Some(true));
    let _f = a.call("x".into());
    assert!(w.poll().is_pending());
    assert_eq!(is_ready(&mut a), Some(true));
    let _g = a.call("y".into());
    // the queue is full now
    let h = Arc::new(W(Mutex::new(b), Mutex::new(None)));
    let wk = Waker::from(h.clone());
    assert!(h.0.lock().unwrap().poll_ready(&mut Context::from_waker(&wk)).is_pending());
    ctl.ready(Err("broken"));
    let _ = w.poll();
    let e = h.1.lock().unwrap().clone().expect("the waiting handle was not woken");
    assert!(e.contains("broken"), "the waiting handle saw: {}", e);
}
'''
