BS='tower/src/buffer/service.rs'
BW='tower/src/buffer/worker.rs'
BF='tower/src/buffer/future.rs'
CL='tower/src/limit/concurrency/service.rs'
RL='tower/src/limit/rate/service.rs'
CA='tower/src/util/call_all/common.rs'
RF='tower/src/retry/future.rs'
RM='tower/src/retry/mod.rs'
EDITS=[
(BS,"""        // First, check if the worker is still alive.
        if self.tx.is_closed() {
            // If the inner service has errored, then we error here.
            return Poll::Ready(Err(self.get_worker_error()));
        }

        // Poll the sender to acquire a permit.
        self.tx
            .poll_reserve(cx)
            .map_err(|_| self.get_worker_error())
""","""        if !self.tx.is_closed() {
            return match self.tx.poll_reserve(cx) {
                Poll::Pending => Poll::Pending,
                Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
                Poll::Ready(Err(_closed)) => self.closed(),
            };
        }
        self.closed()
"""),
(BS,"""    fn get_worker_error(&self) -> crate::BoxError {
        self.handle.get_error_on_closed()
    }
""","""    fn get_worker_error(&self) -> crate::BoxError {
        self.handle.get_error_on_closed()
    }

    fn closed<T>(&self) -> Poll<Result<T, crate::BoxError>> {
        Poll::Ready(Err(self.get_worker_error()))
    }
"""),
(BS,"""        match self.tx.send_item(Message { request, span, tx }) {
            Ok(_) => ResponseFuture::new(rx),
            // If the channel is closed, propagate the error from the worker.
            Err(_) => {
                tracing::trace!("buffer channel closed");
                ResponseFuture::failed(self.get_worker_error())
            }
        }
""","""        let message = Message { request, span, tx };
        if self.tx.send_item(message).is_err() {
            drop(rx);
            return ResponseFuture::failed(self.get_worker_error());
        }
        ResponseFuture::new(rx)
"""),
(BS,"""        let (tx, rx) = mpsc::channel(bound);
        let (handle, worker) = Worker::new(service, rx);
        let buffer = Self {
            tx: PollSender::new(tx),
            handle,
        };
        (buffer, worker)
""","""        let (sender, receiver) = mpsc::channel(bound);
        let (handle, worker) = Worker::new(service, receiver);
        let tx = PollSender::new(sender);
        (Self { tx, handle }, worker)
"""),
(BW,"""        if let Some(msg) = self.current_message.take() {
            // If the oneshot sender is closed, then the receiver is dropped,
            // and nobody cares about the response. If this is the case, we
            // should continue to the next request.
            if !msg.tx.is_closed() {
                tracing::trace!("resuming buffered request");
                return Poll::Ready(Some((msg, false)));
            }

            tracing::trace!("dropping cancelled buffered request");
        }

        // Get the next request
        while let Some(msg) = ready!(Pin::new(&mut self.rx).poll_recv(cx)) {
            if !msg.tx.is_closed() {
                tracing::trace!("processing new request");
                return Poll::Ready(Some((msg, true)));
            }
            // Otherwise, request is canceled, so pop the next one.
            tracing::trace!("dropping cancelled request");
        }

        Poll::Ready(None)
    }
""","""        let resumed = self.current_message.take().filter(|m| !m.tx.is_closed());
        if resumed.is_some() {
            return Poll::Ready(resumed.map(|m| (m, false)));
        }
        loop {
            let msg = match self.rx.poll_recv(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => break Poll::Ready(None),
                Poll::Ready(Some(m)) => m,
            };
            if msg.tx.is_closed() {
                continue;
            }
            return Poll::Ready(Some((msg, true)));
        }
    }

    fn first_failure(&self, error: &ServiceError) -> bool {
        let mut slot = self.handle.inner.lock().unwrap();
        let first = slot.is_none();
        if first {
            slot.replace(error.clone());
        }
        first
    }
"""),
(BW,"""        let mut inner = self.handle.inner.lock().unwrap();

        if inner.is_some() {
            // Future::poll was called after we've already errored out!
            return;
        }

        *inner = Some(error.clone());
        drop(inner);

        self.rx.close();
""","""        if !self.first_failure(&error) {
            // Future::poll was called after we've already errored out!
            return;
        }

        self.rx.close();
"""),
(BW,"""            match ready!(self.poll_next_msg(cx)) {
                Some((msg, first)) => {
                    let _guard = msg.span.enter();
                    if let Some(ref failed) = self.failed {
                        tracing::trace!("notifying caller about worker failure");
                        let _ = msg.tx.send(Err(failed.clone()));
                        continue;
                    }

                    // Wait for the service to be ready
                    tracing::trace!(
                        resumed = !first,
                        message = "worker received request; waiting for service readiness"
                    );
                    match self.service.poll_ready(cx) {
                        Poll::Ready(Ok(())) => {
                            tracing::debug!(service.ready = true, message = "processing request");
                            let response = self.service.call(msg.request);

                            // Send the response future back to the sender.
                            //
                            // An error means the request had been canceled in-between
                            // our calls, the response future will just be dropped.
                            tracing::trace!("returning response future");
                            let _ = msg.tx.send(Ok(response));
                        }
                        Poll::Pending => {
                            tracing::trace!(service.ready = false, message = "delay");
                            // Put out current message back in its slot.
                            drop(_guard);
                            self.current_message = Some(msg);
                            return Poll::Pending;
                        }
                        Poll::Ready(Err(e)) => {
                            let error = e.into();
                            tracing::debug!({ %error }, "service failed");
                            drop(_guard);
                            self.failed(error);
                            let _ = msg.tx.send(Err(self
                                .failed
                                .as_ref()
                                .expect("Worker::failed did not set self.failed?")
                                .clone()));
                        }
                    }
                }
                None => {
                    // No more more requests _ever_.
                    self.finish = true;
                    return Poll::Ready(());
                }
            }
""","""            let Some((msg, first)) = ready!(self.poll_next_msg(cx)) else {
                // No more more requests _ever_.
                self.finish = true;
                return Poll::Ready(());
            };
            let this = &mut *self;
            let guard = msg.span.enter();
            if let Some(failed) = this.failed.as_ref() {
                let _ = msg.tx.send(Err(failed.clone()));
                continue;
            }
            tracing::trace!(resumed = !first, "worker received request");
            let ready = this.service.poll_ready(cx);
            match ready {
                Poll::Pending => {
                    drop(guard);
                    this.current_message = Some(msg);
                    return Poll::Pending;
                }
                Poll::Ready(Ok(())) => {
                    let Message { request, tx, .. } = { drop(guard); msg };
                    let response = this.service.call(request);
                    tx.send(Ok(response)).ok();
                }
                Poll::Ready(Err(e)) => {
                    drop(guard);
                    this.failed(e.into());
                    let error = this.failed.as_ref().map(|e| e.clone()).expect("Worker::failed did not set self.failed?");
                    if msg.tx.send(Err(error)).is_err() {
                        tracing::trace!("cancelled");
                    }
                }
            }
"""),
(BW,"""        self.inner
            .lock()
            .unwrap()
            .as_ref()
            .map(|svc_err| svc_err.clone().into())
            .unwrap_or_else(|| Closed::new().into())
""","""        let recorded = self.inner.lock().unwrap().as_ref().map(ServiceError::clone);
        match recorded {
            None => Closed::new().into(),
            Some(e) => e.into(),
        }
"""),
(BF,"""                ResponseStateProj::Rx { rx } => match ready!(rx.poll(cx)) {
                    Ok(Ok(fut)) => this.state.set(ResponseState::Poll { fut }),
                    Ok(Err(e)) => return Poll::Ready(Err(e.into())),
                    Err(_) => return Poll::Ready(Err(Closed::new().into())),
                },
                ResponseStateProj::Poll { fut } => return fut.poll(cx).map_err(Into::into),
""","""                ResponseStateProj::Rx { rx } => {
                    let answer = ready!(rx.poll(cx)).map_err(|_| crate::BoxError::from(Closed::new()))?;
                    let fut = answer?;
                    this.state.as_mut().set(ResponseState::Poll { fut });
                }
                ResponseStateProj::Poll { fut } => {
                    let out = ready!(fut.poll(cx));
                    return Poll::Ready(match out {
                        Ok(v) => Ok(v),
                        Err(e) => Err(e.into()),
                    });
                }
"""),
(CL,"""        if self.permit.is_none() {
            self.permit = ready!(self.semaphore.poll_acquire(cx));
            debug_assert!(
                self.permit.is_some(),
                "ConcurrencyLimit semaphore is never closed, so `poll_acquire` \\
                 should never fail",
            );
        }

        // Once we've acquired a permit (or if we already had one), poll the
        // inner service.
        self.inner.poll_ready(cx)
""","""        let permit = match self.permit.take() {
            Some(p) => Some(p),
            None => match self.semaphore.poll_acquire(cx) {
                Poll::Ready(p) => p,
                Poll::Pending => return Poll::Pending,
            },
        };
        self.permit = permit;
        match ready!(self.inner.poll_ready(cx)) {
            Ok(()) => Poll::Ready(Ok(())),
            Err(e) => Poll::Ready(Err(e)),
        }
"""),
(CL,"""        let permit = self
            .permit
            .take()
            .expect("max requests in-flight; poll_ready must be called first");

        // Call the inner service
        let future = self.inner.call(request);

        ResponseFuture::new(future, permit)
""","""        match std::mem::take(&mut self.permit) {
            Some(permit) => ResponseFuture::new(self.inner.call(request), permit),
            None => panic!("max requests in-flight; poll_ready must be called first"),
        }
"""),
(CL,"""        Self {
            inner: self.inner.clone(),
            semaphore: self.semaphore.clone(),
            permit: None,
        }
""","""        let semaphore = self.semaphore.clone_inner();
        Self::with_semaphore(self.inner.clone(), semaphore)
"""),
(RL,"""        match self.state {
            State::Ready { .. } => return Poll::Ready(ready!(self.inner.poll_ready(cx))),
            State::Limited => {
                if Pin::new(&mut self.sleep).poll(cx).is_pending() {
                    tracing::trace!("rate limit exceeded; sleeping.");
                    return Poll::Pending;
                }
            }
        }

        self.state = State::Ready {
            until: Instant::now() + self.rate.per(),
            rem: self.rate.num(),
        };

        Poll::Ready(ready!(self.inner.poll_ready(cx)))
    }
""","""        if let State::Limited = self.state {
            ready!(self.sleep.as_mut().poll(cx));
            self.state = self.fresh(Instant::now());
        }
        self.inner.poll_ready(cx)
    }
"""),
(RL,"""    /// Get a reference to the inner service
""","""    fn fresh(&self, now: Instant) -> State {
        let rem = self.rate.num();
        State::Ready { until: now + self.rate.per(), rem }
    }

    /// Get a reference to the inner service
"""),
(RL,"""        match self.state {
            State::Ready { mut until, mut rem } => {
                let now = Instant::now();

                // If the period has elapsed, reset it.
                if now >= until {
                    until = now + self.rate.per();
                    rem = self.rate.num();
                }

                if rem > 1 {
                    rem -= 1;
                    self.state = State::Ready { until, rem };
                } else {
                    // The service is disabled until further notice
                    // Reset the sleep future in place, so that we don't have to
                    // deallocate the existing box and allocate a new one.
                    self.sleep.as_mut().reset(until);
                    self.state = State::Limited;
                }

                // Call the inner future
                self.inner.call(request)
            }
            State::Limited => panic!("service not ready; poll_ready must be called first"),
        }
""","""        let now = Instant::now();
        if let State::Ready { until, .. } = self.state {
            if until <= now {
                self.state = self.fresh(now);
            }
        }
        let (until, left) = match &self.state {
            State::Limited => panic!("service not ready; poll_ready must be called first"),
            State::Ready { until, rem } => (*until, rem.saturating_sub(1)),
        };
        self.state = if left == 0 {
            self.sleep.as_mut().reset(until);
            State::Limited
        } else {
            State::Ready { until, rem: left }
        };
        self.inner.call(request)
"""),
(CA,"""            // First, see if we have any responses to yield
            if let Poll::Ready(r) = this.queue.poll(cx) {
                if let Some(rsp) = r.transpose()? {
                    return Poll::Ready(Some(Ok(rsp)));
                }
            }

            // If there are no more requests coming, check if we're done
            if *this.eof {
                if this.queue.is_empty() {
                    return Poll::Ready(None);
                } else {
                    return Poll::Pending;
                }
            }

            // If not done, and we don't have a stored request, gather the next request from the
            // stream (if there is one), or return `Pending` if the stream is not ready.
            if this.curr_req.is_none() {
                *this.curr_req = match ready!(this.stream.as_mut().poll_next(cx)) {
                    Some(next_req) => Some(next_req),
                    None => {
                        // Mark that there will be no more requests.
                        *this.eof = true;
                        continue;
                    }
                };
            }
""","""            // First, see if we have any responses to yield
            match this.queue.poll(cx) {
                Poll::Ready(Some(rsp)) => return Poll::Ready(Some(rsp)),
                Poll::Ready(None) if *this.eof => return Poll::Ready(None),
                Poll::Pending if *this.eof => return Poll::Pending,
                Poll::Ready(None) | Poll::Pending => {}
            }

            if this.curr_req.is_none() {
                match this.stream.as_mut().poll_next(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(next) => {
                        *this.eof = next.is_none();
                        *this.curr_req = next;
                    }
                }
                if *this.eof {
                    continue;
                }
            }
"""),
(CA,"""            // Unwrap: The check above always sets `this.curr_req` if none.
            this.queue.push(svc.call(this.curr_req.take().unwrap()));
""","""            if let Some(req) = this.curr_req.take() {
                let fut = svc.call(req);
                this.queue.push(fut);
            }
"""),
(RF,"""                    let mut result = ready!(future.poll(cx));
                    if let Some(req) = &mut this.request {
                        match this.retry.policy.retry(req, &mut result) {
                            Some(waiting) => {
                                this.state.set(State::Waiting { waiting });
                            }
                            None => return Poll::Ready(result),
                        }
                    } else {
                        // request wasn't cloned, so no way to retry it
                        return Poll::Ready(result);
                    }
                }
                StateProj::Waiting { waiting } => {
                    ready!(waiting.poll(cx));

                    this.state.set(State::Retrying);
                }
""","""                    let mut result = ready!(future.poll(cx));
                    let waiting = match this.request.as_mut() {
                        Some(req) => this.retry.as_mut().project().policy.retry(req, &mut result),
                        None => None,
                    };
                    let Some(waiting) = waiting else {
                        return Poll::Ready(result);
                    };
                    this.state.set(State::Waiting { waiting });
                }
                StateProj::Waiting { waiting } => match waiting.poll(cx) {
                    Poll::Ready(()) => this.state.set(State::Retrying),
                    Poll::Pending => return Poll::Pending,
                },
"""),
(RF,"""                    ready!(this.retry.as_mut().project().service.poll_ready(cx))?;
                    let req = this
                        .request
                        .take()
                        .expect("retrying requires cloned request");
                    *this.request = this.retry.policy.clone_request(&req);
                    this.state.set(State::Called {
                        future: this.retry.as_mut().project().service.call(req),
                    });
""","""                    let retry = this.retry.as_mut().project();
                    if let Err(e) = ready!(retry.service.poll_ready(cx)) {
                        return Poll::Ready(Err(e));
                    }
                    let req = this.request.take().expect("retrying requires cloned request");
                    let next = retry.policy.clone_request(&req);
                    let future = retry.service.call(req);
                    *this.request = next;
                    this.state.set(State::Called { future });
"""),
(RM,"""        let cloned = self.policy.clone_request(&request);
        let future = self.service.call(request);

        ResponseFuture::new(cloned, self.clone(), future)
""","""        let keep = self.policy.clone_request(&request);
        let first = self.service.call(request);
        let twin = Retry { policy: self.policy.clone(), service: self.service.clone() };
        ResponseFuture::new(keep, twin, first)
"""),
]
