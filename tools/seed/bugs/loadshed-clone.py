PROP='C05'
FILE='tower/src/load_shed/mod.rs'
OLD="""            // new clones shouldn't carry the readiness state, as a cloneable
            // inner service likely tracks readiness per clone.
            is_ready: false,
"""
NEW="""            is_ready: self.is_ready,
"""
NEEDS="a handle which is cloned between its readiness poll and its request, the clone being used without a readiness poll of its own inner service"
BREAKS="the clone dispatches to its wrapped instance which never reported readiness"
MAIN='''use support::*;
use tokio_test::task;
use tower::load_shed::LoadShed;
use tower_service::Service;

fn main() {
    let (ctl, svc) = Ctl::new();
    ctl.ready(Ok(()));
    let mut s = task::spawn(LoadShed::new(svc));
    assert_eq!(is_ready(&mut s), Some(true));
    let mut c = s.enter(|_, s| s.as_ref().get_ref().clone());
    // the clone was not polled: it may shed the request, but must not forward it
    let _ = c.call("clone".into());
    assert!(ctl.violations().is_empty(), "{:?}", ctl.violations());
}
'''
