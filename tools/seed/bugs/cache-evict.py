PROP='C19'
FILE='tower/src/ready_cache/cache.rs'
OLD="""        let canceled = if let Some(c) = self.pending_cancel_txs.swap_remove(key) {
            c.cancel();
            true
        } else {
            false
        };

        self.ready
            .swap_remove_full(key)
            .map(|_| true)
            .unwrap_or(canceled)"""
NEW="""        if let Some(c) = self.pending_cancel_txs.swap_remove(key) {
            c.cancel();
            return true;
        }

        self.ready.swap_remove_full(key).is_some()"""
NEEDS="a key with a ready service and a newer, still pending one under the same key, which is then evicted"
BREAKS="the ready service survives the eviction of its key and keeps being offered"
MAIN='''use support::*;
use tokio_test::task;
use tower::ready_cache::ReadyCache;

fn main() {
    let (old, olds) = Ctl::new();
    let (_new, news) = Ctl::new();
    let mut c: task::Spawn<ReadyCache<u8, Svc, String>> = task::spawn(ReadyCache::default());
    old.ready(Ok(()));
    c.push(1, olds);
    assert!(c.enter(|cx, mut c| c.poll_pending(cx)).is_ready());
    c.push(1, news);
    assert!(c.evict(&1));
    let _ = c.enter(|cx, mut c| c.poll_pending(cx));
    assert_eq!(c.len(), 0, "an evicted service is still there");
}
'''
