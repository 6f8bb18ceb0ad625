//! scripted service used by the demonstrations
#![allow(dead_code)]
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};
use tower_service::Service;

pub type Error = Box<dyn std::error::Error + Send + Sync>;

#[derive(Default)]
pub struct Inner {
    /// readiness answers: Some(Ok) ready, Some(Err) failed; empty = pending
    pub ready: VecDeque<Result<(), String>>,
    pub always: bool,
    pub waker: Option<Waker>,
    /// instances (clone numbers) which answered ready and were not called since
    pub calls: Vec<(usize, String)>,
    pub polls: usize,
    pub clones: usize,
    pub dropped: usize,
    pub violations: Vec<String>,
    pub replies: Vec<Option<tokio::sync::oneshot::Sender<Result<String, String>>>>,
    pub auto: bool,
}

/// handle on the scripted service
#[derive(Clone, Default)]
pub struct Ctl(pub Arc<Mutex<Inner>>);

pub struct Svc {
    pub ctl: Ctl,
    pub id: usize,
    pub is_ready: bool,
}

impl Clone for Svc {
    fn clone(&self) -> Self {
        let mut i = self.ctl.0.lock().unwrap();
        i.clones += 1;
        let id = i.clones;
        drop(i);
        Svc { ctl: self.ctl.clone(), id, is_ready: false }
    }
}

impl Drop for Svc {
    fn drop(&mut self) {
        self.ctl.0.lock().unwrap().dropped += 1;
    }
}

impl Ctl {
    pub fn new() -> (Ctl, Svc) {
        let c = Ctl::default();
        (c.clone(), Svc { ctl: c, id: 0, is_ready: false })
    }
    /// always ready, answers at once with the request
    pub fn auto() -> (Ctl, Svc) {
        let (c, s) = Ctl::new();
        c.0.lock().unwrap().always = true;
        c.0.lock().unwrap().auto = true;
        (c, s)
    }
    pub fn always(&self, on: bool) {
        let mut i = self.0.lock().unwrap();
        i.always = on;
        if let Some(w) = i.waker.take() {
            drop(i);
            w.wake()
        }
    }
    pub fn ready(&self, r: Result<(), &str>) {
        let mut i = self.0.lock().unwrap();
        i.ready.push_back(r.map_err(|e| e.to_string()));
        if let Some(w) = i.waker.take() {
            drop(i);
            w.wake()
        }
    }
    pub fn calls(&self) -> Vec<String> {
        self.0.lock().unwrap().calls.iter().map(|c| c.1.clone()).collect()
    }
    pub fn reply(&self, n: usize, r: Result<&str, &str>) {
        let t = self.0.lock().unwrap().replies[n].take().expect("already replied");
        let _ = t.send(r.map(|x| x.to_string()).map_err(|x| x.to_string()));
    }
    pub fn violations(&self) -> Vec<String> {
        self.0.lock().unwrap().violations.clone()
    }
}

impl Service<String> for Svc {
    type Response = String;
    type Error = Error;
    type Future = Fut;

    fn poll_ready(&mut self, cx: &mut Context<'_>) -> Poll<Result<(), Error>> {
        let mut i = self.ctl.0.lock().unwrap();
        i.polls += 1;
        if self.is_ready {
            return Poll::Ready(Ok(()));
        }
        if i.always {
            self.is_ready = true;
            return Poll::Ready(Ok(()));
        }
        match i.ready.pop_front() {
            Some(Ok(())) => {
                self.is_ready = true;
                Poll::Ready(Ok(()))
            }
            Some(Err(e)) => Poll::Ready(Err(e.into())),
            None => {
                i.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }

    fn call(&mut self, req: String) -> Fut {
        let mut i = self.ctl.0.lock().unwrap();
        if !self.is_ready {
            i.violations.push(format!("{} dispatched to instance {} which was not ready", req, self.id));
        }
        self.is_ready = false;
        i.calls.push((self.id, req.clone()));
        let (tx, rx) = tokio::sync::oneshot::channel();
        if i.auto {
            let _ = tx.send(Ok(req));
            i.replies.push(None);
        } else {
            i.replies.push(Some(tx));
        }
        Fut(rx, false)
    }
}

pub struct Fut(tokio::sync::oneshot::Receiver<Result<String, String>>, bool);

impl Future for Fut {
    type Output = Result<String, Error>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        assert!(!self.1, "future polled after completion");
        let r = match Pin::new(&mut self.0).poll(cx) {
            Poll::Pending => return Poll::Pending,
            Poll::Ready(r) => r,
        };
        self.1 = true;
        Poll::Ready(match r {
            Ok(Ok(x)) => Ok(x),
            Ok(Err(e)) => Err(e.into()),
            Err(_) => Err("reply dropped".into()),
        })
    }
}

pub fn is_ready<S: Service<String> + Unpin>(t: &mut tokio_test::task::Spawn<S>) -> Option<bool>
where
    S::Error: std::fmt::Debug,
{
    match t.enter(|cx, s| s.get_mut().poll_ready(cx)) {
        Poll::Pending => None,
        Poll::Ready(r) => Some(r.is_ok()),
    }
}
