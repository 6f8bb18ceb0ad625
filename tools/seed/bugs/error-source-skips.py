PROP='C37'
FILE='tower/src/balance/error.rs'
OLD="""        Some(&*self.0)"""
NEW="""        // our own message already shows the error: go on with what caused it
        self.0.source().or(Some(&*self.0))"""
NEEDS="a discovery failure whose error has a source of its own, and a caller which looks for the discovery error in the chain"
BREAKS="the discovery's error is left out of the chain of causes"
MAIN='''use std::fmt;
use tokio_test::task;
use tower::balance::p2c::Balance;
use tower::discover::Change;
use tower::load::Constant;
use support::*;

#[derive(Debug)]
struct Cause;
impl fmt::Display for Cause {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("cause")
    }
}
impl std::error::Error for Cause {}

#[derive(Debug)]
struct Lookup(Cause);
impl fmt::Display for Lookup {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("lookup failed")
    }
}
impl std::error::Error for Lookup {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        Some(&self.0)
    }
}

fn main() {
    let (_ctl, svc) = Ctl::auto();
    let mut svc = Some(svc);
    let disco = tokio_stream::iter(vec![Err::<Change<u8, Constant<Svc, u8>>, Lookup>(Lookup(Cause))]);
    drop(svc.take());
    let mut b = task::spawn(Balance::<_, String>::new(disco));
    let e = match b.enter(|cx, s| tower_service::Service::<String>::poll_ready(s.get_mut(), cx)) {
        std::task::Poll::Ready(Err(e)) => e,
        _ => panic!("failure not reported"),
    };
    let mut found = false;
    let mut e: Option<&(dyn std::error::Error + 'static)> = Some(&*e);
    while let Some(x) = e {
        found |= x.is::<Lookup>();
        e = x.source();
    }
    assert!(found, "the discovery error is not in the chain");
}
'''
