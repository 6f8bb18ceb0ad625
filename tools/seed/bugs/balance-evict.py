PROP='C18'
FILE='tower/src/balance/p2c/service.rs'
OLD="""                Some(Change::Remove(key)) => {
                    trace!("remove");
                    self.services.evict(&key);
                }"""
NEW="""                Some(Change::Remove(key)) => {
                    trace!("remove");
                    if self.services.pending_contains(&key) || self.ready_index.is_none() {
                        self.services.evict(&key);
                    }
                }"""
NEEDS="an endpoint that is removed by discovery while the balancer has already picked an endpoint for the next request"
BREAKS="a removed endpoint stays in the ready set and is called"
MAIN='''use support::*;
use tokio_test::task;
use tower::balance::p2c::Balance;
use tower::discover::Change;
use tower::load::Constant;
use tower_service::Service;

fn main() {
    let (a, sa) = Ctl::auto();
    let (tx, rx) = futures::channel::mpsc::unbounded::<Result<Change<u8, Constant<Svc, u8>>, Error>>();
    let mut s = task::spawn(Balance::new(rx));
    tx.unbounded_send(Ok(Change::Insert(1, Constant::new(sa, 1)))).unwrap();
    assert_eq!(is_ready(&mut s), Some(true));
    tx.unbounded_send(Ok(Change::Remove(1))).unwrap();
    if is_ready(&mut s) == Some(true) {
        let _ = s.call("x".into());
    }
    assert!(a.calls().is_empty(), "the removed endpoint was called");
}
'''
