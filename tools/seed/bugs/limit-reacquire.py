PROP='C06'
FILE='tower/src/limit/concurrency/service.rs'
OLD="""        if self.permit.is_none() {
            self.permit = ready!(self.semaphore.poll_acquire(cx));"""
NEW="""        if self.permit.is_none() || self.semaphore.available_permits() == 0 {
            self.permit = None;
            self.permit = ready!(self.semaphore.poll_acquire(cx));"""
NEEDS="a handle that polls readiness again after it reported ready, while another handle is queued for the same limit"
BREAKS="the second readiness poll gives the permit away to the waiting handle and answers pending"
MAIN='''use support::*;
use tokio_test::task;
use tower::limit::ConcurrencyLimit;

fn main() {
    let (_ctl, svc) = Ctl::auto();
    let a = ConcurrencyLimit::new(svc, 1);
    let mut b = task::spawn(a.clone());
    let mut a = task::spawn(a);
    assert_eq!(is_ready(&mut a), Some(true));
    assert_eq!(is_ready(&mut b), None);
    assert_eq!(is_ready(&mut a), Some(true), "readiness was taken back");
}
'''
