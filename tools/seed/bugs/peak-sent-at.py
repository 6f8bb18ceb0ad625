PROP='C20'
EDITS=[('tower/src/load/peak_ewma.rs',"""pub struct PeakEwma<S, C = CompleteOnResponse> {
    service: S,
""","""pub struct PeakEwma<S, C = CompleteOnResponse> {
    service: S,
    ready_at: Option<Instant>,
"""),('tower/src/load/peak_ewma.rs',"""        Self {
            service,
            decay_ns,
""","""        Self {
            service,
            ready_at: None,
            decay_ns,
"""),('tower/src/load/peak_ewma.rs',"            sent_at: Instant::now(),","            sent_at: self.ready_at.unwrap_or_else(Instant::now),"),
('tower/src/load/peak_ewma.rs',"""        self.service.poll_ready(cx)
    }

    fn call(&mut self, req: Request) -> Self::Future {
        TrackCompletionFuture""","""        let ready = self.service.poll_ready(cx);
        if ready.is_ready() {
            self.ready_at = Some(Instant::now());
        }
        ready
    }

    fn call(&mut self, req: Request) -> Self::Future {
        TrackCompletionFuture""")]
NEEDS="time which passes between the readiness poll and the dispatch of a request"
BREAKS="the time a handle sits ready before its request counts as latency of the request, so the load of an idle service rises"
MAIN='''use support::*;
use std::time::Duration;
use tower::load::{CompleteOnResponse, Load, PeakEwma};
use tower_service::Service;

#[tokio::main(flavor = "current_thread", start_paused = true)]
async fn main() {
    let (c, svc) = Ctl::new();
    c.always(true);
    let mut s = PeakEwma::new(svc, Duration::from_millis(10), 1e9, CompleteOnResponse::default());
    std::future::poll_fn(|cx| s.poll_ready(cx)).await.unwrap();
    tokio::time::advance(Duration::from_secs(1)).await;
    let f = s.call("x".into());
    tokio::time::advance(Duration::from_millis(20)).await;
    c.reply(0, Ok("y"));
    f.await.unwrap();
    let a = format!("{:?}", s.load());
    assert_eq!(a, "Cost(20000000.0)", "load right after a latency of 20 ms");
}
'''
