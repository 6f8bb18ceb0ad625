PROP='C08'
EDITS=[('tower/src/buffer/worker.rs',"""        loop {
            match ready!(self.poll_next_msg(cx)) {
                Some((msg, first)) => {""","""        let mut batch = 0;
        loop {
            // do not keep the executor busy for too long
            if batch == 16 {
                return Poll::Pending;
            }
            batch += 1;

            match ready!(self.poll_next_msg(cx)) {
                Some((msg, first)) => {""")]
NEEDS="more than 16 requests which are queued when the worker is polled"
BREAKS="the worker gives up its turn without arranging to be polled again, so queued requests stay behind although the service is ready"
MAIN='''use support::*;
use tokio_test::task;
use tower::buffer::Buffer;
use tower_service::Service;

fn main() {
    let (ctl, svc) = Ctl::auto();
    let (b, w) = Buffer::pair(svc, 64);
    let mut b = task::spawn(b);
    let mut w = task::spawn(w);
    let mut v = Vec::new();
    for _ in 0..40 {
        assert_eq!(is_ready(&mut b), Some(true));
        v.push(b.call("x".into()));
    }
    let _ = w.poll();
    while w.is_woken() {
        let _ = w.poll();
    }
    assert_eq!(ctl.calls().len(), 40, "requests were left behind in the buffer");
}
'''
