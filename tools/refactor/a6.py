# the same behaviour over other data structures
T='tower/src/'
RL=T+'limit/rate/service.rs'; RF=T+'retry/future.rs'; BW=T+'buffer/worker.rs'; SR=T+'spawn_ready/service.rs'; ST=T+'steer/mod.rs'
LS=T+'load_shed/mod.rs'; LSF=T+'load_shed/future.rs'; PR=T+'load/pending_requests.rs'; TF=T+'timeout/future.rs'; RC=T+'reconnect/mod.rs'
RCF=T+'reconnect/future.rs'; FM=T+'filter/mod.rs'; OS=T+'util/oneshot.rs'; CM=T+'load/completion.rs'; HD=T+'hedge/delay.rs'
EDITS=[
# RateLimit: a flag and two counters instead of an enum
(RL,"""    state: State,
    sleep: Pin<Box<Sleep>>,
}

#[derive(Debug)]
enum State {
    // The service has hit its limit
    Limited,
    Ready { until: Instant, rem: u64 },
}
""","""    window_end: Instant,
    // zero: the service has hit its limit
    left: u64,
    sleep: Pin<Box<Sleep>>,
}
"""),
(RL,"""        let state = State::Ready {
            until,
            rem: rate.num(),
        };

        RateLimit {
            inner,
            rate,
            state,
""","""        RateLimit {
            inner,
            left: rate.num(),
            window_end: until,
            rate,
"""),
(RL,"""        match self.state {
            State::Ready { .. } => return Poll::Ready(ready!(self.inner.poll_ready(cx))),
            State::Limited => {
                if Pin::new(&mut self.sleep).poll(cx).is_pending() {
                    tracing::trace!("rate limit exceeded; sleeping.");
                    return Poll::Pending;
                }
            }
        }

        self.state = State::Ready {
            until: Instant::now() + self.rate.per(),
            rem: self.rate.num(),
        };

        Poll::Ready(ready!(self.inner.poll_ready(cx)))
""","""        if self.left == 0 {
            ready!(Pin::new(&mut self.sleep).poll(cx));
            self.window_end = Instant::now() + self.rate.per();
            self.left = self.rate.num();
        }

        self.inner.poll_ready(cx)
"""),
(RL,"""        match self.state {
            State::Ready { mut until, mut rem } => {
                let now = Instant::now();

                // If the period has elapsed, reset it.
                if now >= until {
                    until = now + self.rate.per();
                    rem = self.rate.num();
                }

                if rem > 1 {
                    rem -= 1;
                    self.state = State::Ready { until, rem };
                } else {
                    // The service is disabled until further notice
                    // Reset the sleep future in place, so that we don't have to
                    // deallocate the existing box and allocate a new one.
                    self.sleep.as_mut().reset(until);
                    self.state = State::Limited;
                }

                // Call the inner future
                self.inner.call(request)
            }
            State::Limited => panic!("service not ready; poll_ready must be called first"),
        }
""","""        assert_ne!(self.left, 0, "service not ready; poll_ready must be called first");
        let now = Instant::now();
        if now >= self.window_end {
            self.window_end = now + self.rate.per();
            self.left = self.rate.num();
        }
        self.left -= 1;
        if self.left == 0 {
            self.sleep.as_mut().reset(self.window_end);
        }
        self.inner.call(request)
"""),
# Retry: the request travels inside a helper
(RF,"""                    let mut result = ready!(future.poll(cx));
                    if let Some(req) = &mut this.request {
                        match this.retry.policy.retry(req, &mut result) {
                            Some(waiting) => {
                                this.state.set(State::Waiting { waiting });
                            }
                            None => return Poll::Ready(result),
                        }
                    } else {
                        // request wasn't cloned, so no way to retry it
                        return Poll::Ready(result);
                    }
""","""                    let mut result = ready!(future.poll(cx));
                    let policy = this.retry.as_mut().project().policy;
                    let again = this
                        .request
                        .as_mut()
                        .and_then(|req| policy.retry(req, &mut result));
                    let Some(waiting) = again else {
                        return Poll::Ready(result);
                    };
                    this.state.set(State::Waiting { waiting });
"""),
(RF,"""                    ready!(this.retry.as_mut().project().service.poll_ready(cx))?;
                    let req = this
                        .request
                        .take()
                        .expect("retrying requires cloned request");
                    *this.request = this.retry.policy.clone_request(&req);
                    this.state.set(State::Called {
                        future: this.retry.as_mut().project().service.call(req),
                    });
""","""                    let retry = this.retry.as_mut().project();
                    if let Err(e) = ready!(retry.service.poll_ready(cx)) {
                        return Poll::Ready(Err(e));
                    }
                    let spare = this
                        .request
                        .as_ref()
                        .map(|r| retry.policy.clone_request(r))
                        .expect("retrying requires cloned request");
                    let req = std::mem::replace(this.request, spare).unwrap();
                    let future = retry.service.call(req);
                    this.state.set(State::Called { future });
"""),
# Buffer: the failure is recorded in a cell written once
(BW,"""    inner: Arc<Mutex<Option<ServiceError>>>,
""","""    inner: Arc<std::sync::OnceLock<ServiceError>>,
"""),
(BW,"""            inner: Arc::new(Mutex::new(None)),
""","""            inner: Arc::default(),
"""),
(BW,"""        let mut inner = self.handle.inner.lock().unwrap();

        if inner.is_some() {
            // Future::poll was called after we've already errored out!
            return;
        }

        *inner = Some(error.clone());
        drop(inner);

        self.rx.close();
""","""        if self.handle.inner.set(error.clone()).is_err() {
            // Future::poll was called after we've already errored out!
            return;
        }

        self.rx.close();
"""),
(BW,"""        self.inner
            .lock()
            .unwrap()
            .as_ref()
            .map(|svc_err| svc_err.clone().into())
            .unwrap_or_else(|| Closed::new().into())
""","""        match self.inner.get() {
            Some(svc_err) => svc_err.clone().into(),
            None => Closed::new().into(),
        }
"""),
(BW,"""use std::sync::{Arc, Mutex};
""","""use std::sync::Arc;
"""),
# SpawnReady: two optional fields
(SR,"""    inner: Inner<S>,
}

#[derive(Debug)]
enum Inner<S> {
    Service(Option<S>),
    Future(tokio::task::JoinHandle<Result<S, BoxError>>),
}
""","""    service: Option<S>,
    task: Option<tokio::task::JoinHandle<Result<S, BoxError>>>,
}
"""),
(SR,"""            inner: Inner::Service(Some(service)),
""","""            service: Some(service),
            task: None,
"""),
(SR,"""        if let Inner::Future(ref mut task) = self.inner {
            task.abort();
        }
""","""        if let Some(task) = &self.task {
            task.abort();
        }
"""),
(SR,"""            self.inner = match self.inner {
                Inner::Service(ref mut svc) => {
                    if let Poll::Ready(r) = svc.as_mut().expect("illegal state").poll_ready(cx) {
                        return Poll::Ready(r.map_err(Into::into));
                    }

                    let svc = svc.take().expect("illegal state");
                    let rx =
                        tokio::spawn(svc.ready_oneshot().map_err(Into::into).in_current_span());
                    Inner::Future(rx)
                }
                Inner::Future(ref mut fut) => {
                    let svc = ready!(Pin::new(fut).poll(cx))??;
                    Inner::Service(Some(svc))
                }
            }
""","""            if let Some(task) = &mut self.task {
                let svc = ready!(Pin::new(task).poll(cx))??;
                self.task = None;
                self.service = Some(svc);
            }
            let svc = self.service.as_mut().expect("illegal state");
            if let Poll::Ready(r) = svc.poll_ready(cx) {
                return Poll::Ready(r.map_err(Into::into));
            }
            let svc = self.service.take().expect("illegal state");
            self.task = Some(tokio::spawn(
                svc.ready_oneshot().map_err(Into::into).in_current_span(),
            ));
"""),
(SR,"""        match self.inner {
            Inner::Service(Some(ref mut svc)) => {
                ResponseFuture::new(svc.call(request).map_err(Into::into))
            }
            _ => unreachable!("poll_ready must be called"),
        }
""","""        let svc = self.service.as_mut().expect("poll_ready must be called");
        ResponseFuture::new(svc.call(request).map_err(Into::into))
"""),
# Steer: a flag per service
(ST,"""    not_ready: VecDeque<usize>,
    _phantom: PhantomData<Req>,
}

""","""    not_ready: Vec<bool>,
    _phantom: PhantomData<Req>,
}

"""),
(ST,"""        let not_ready: VecDeque<_> = services.iter().enumerate().map(|(i, _)| i).collect();
""","""        let not_ready = vec![true; services.len()];
"""),
(ST,"""        loop {
            // must wait for *all* services to be ready.
            // this will cause head-of-line blocking unless the underlying services are always ready.
            if self.not_ready.is_empty() {
                return Poll::Ready(Ok(()));
            } else {
                if self.services[self.not_ready[0]]
                    .poll_ready(cx)?
                    .is_pending()
                {
                    return Poll::Pending;
                }

                self.not_ready.pop_front();
            }
        }
""","""        for (service, waiting) in self.services.iter_mut().zip(self.not_ready.iter_mut()) {
            if *waiting {
                ready!(service.poll_ready(cx))?;
                *waiting = false;
            }
        }
        Poll::Ready(Ok(()))
"""),
(ST,"""            self.not_ready.is_empty(),
""","""            !self.not_ready.iter().any(|w| *w),
"""),
(ST,"""        self.not_ready.push_back(idx);
""","""        self.not_ready[idx] = true;
"""),
(ST,"""            not_ready: (0..self.services.len()).collect(),
""","""            not_ready: self.services.iter().map(|_| true).collect(),
"""),
(ST,"""use std::task::{Context, Poll};
use std::{collections::VecDeque, fmt, marker::PhantomData};
""","""use std::task::{ready, Context, Poll};
use std::{fmt, marker::PhantomData};
"""),
# LoadShed: what the last readiness check said
(LS,"""        self.is_ready = match self.inner.poll_ready(cx) {
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
            r => r.is_ready(),
        };

        // But we always report Ready, so that layers above don't wait until
        // the inner service is ready (the entire point of this layer!)
        Poll::Ready(Ok(()))
""","""        let polled = self.inner.poll_ready(cx).map_err(Into::into);
        if let Poll::Ready(Err(_)) = polled {
            return polled;
        }
        self.is_ready = matches!(polled, Poll::Ready(Ok(())));
        Poll::Ready(Ok(()))
"""),
(LS,"""        if self.is_ready {
            // readiness only counts once, you need to check again!
            self.is_ready = false;
            ResponseFuture::called(self.inner.call(req))
        } else {
            ResponseFuture::overloaded()
        }
""","""        if std::mem::take(&mut self.is_ready) {
            return ResponseFuture::called(self.inner.call(req));
        }
        ResponseFuture::overloaded()
"""),
# PendingRequests: a counter
(PR,"""#[derive(Clone, Debug, Default)]
struct RefCount(Arc<()>);
""","""#[derive(Debug, Default)]
struct RefCount(Arc<std::sync::atomic::AtomicUsize>);

impl Clone for RefCount {
    fn clone(&self) -> Self {
        self.0.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        RefCount(self.0.clone())
    }
}

impl Drop for RefCount {
    fn drop(&mut self) {
        self.0.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
    }
}
"""),
(PR,"""        Count(self.ref_count.ref_count() - 1)
""","""        Count(self.ref_count.ref_count())
"""),
(PR,"""        Arc::strong_count(&self.0)
""","""        self.0.load(std::sync::atomic::Ordering::SeqCst)
"""),
# Reconnect: one step per helper call
(RC,"""                    match self.mk_service.poll_ready(cx) {
                        Poll::Ready(r) => r?,
                        Poll::Pending => {
                            trace!("poll_ready; MakeService not ready");
                            return Poll::Pending;
                        }
                    }

                    let fut = self.mk_service.make_service(self.target.clone());
                    self.state = State::Connecting(fut);
                    continue;
""","""                    std::task::ready!(self.mk_service.poll_ready(cx))?;
                    let target = Target::clone(&self.target);
                    self.state = State::Connecting(self.mk_service.make_service(target));
"""),
(RC,"""        let service = match self.state {
            State::Connected(ref mut service) => service,
            _ => panic!("service not ready; poll_ready must be called first"),
        };

        let fut = service.call(request);
        ResponseFuture::new(fut)
""","""        if let State::Connected(service) = &mut self.state {
            ResponseFuture::new(service.call(request))
        } else {
            panic!("service not ready; poll_ready must be called first")
        }
"""),
(FM,"""        use std::mem;

        let inner = self.inner.clone();
        // In case the inner service has state that's driven to readiness and
        // not tracked by clones (such as `Buffer`), pass the version we have
        // already called `poll_ready` on into the future, and leave its clone
        // behind.
        let inner = mem::replace(&mut self.inner, inner);

        // Check the request
        let check = self.predicate.check(request);

        AsyncResponseFuture::new(check, inner)
""","""        let mut ready = self.inner.clone();
        std::mem::swap(&mut self.inner, &mut ready);
        AsyncResponseFuture::new(self.predicate.check(request), ready)
"""),
(OS,"""                    let _ = ready!(svc.poll_ready(cx))?;
                    let f = svc.call(req.take().expect("already called"));
                    this.state.set(State::called(f));
""","""                    if let Err(e) = ready!(svc.poll_ready(cx)) {
                        return Poll::Ready(Err(e));
                    }
                    let fut = req.take().map(|req| svc.call(req)).expect("already called");
                    this.state.set(State::Called { fut });
"""),
(CM,"""        let h = this.handle.take().expect("handle");
        Poll::Ready(Ok(this.completion.track_completion(h, rsp)))
""","""        let out = match this.handle.take() {
            Some(handle) => this.completion.track_completion(handle, rsp),
            None => unreachable!("handle"),
        };
        Poll::Ready(Ok(out))
"""),
(TF,"""        match this.response.poll(cx) {
            Poll::Ready(v) => return Poll::Ready(v.map_err(Into::into)),
            Poll::Pending => {}
        }

        // Now check the sleep
        match this.sleep.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(_) => Poll::Ready(Err(Elapsed(()).into())),
        }
""","""        let response = this.response.poll(cx).map_err(Into::into);
        if response.is_ready() {
            return response;
        }
        this.sleep.poll(cx).map(|()| Err(Elapsed(()).into()))
"""),
]
