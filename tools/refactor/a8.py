# worker, limits, spawn_ready, call_all, retry: rewritten control flow
T='tower/src/'
BW=T+'buffer/worker.rs'; BV=T+'buffer/service.rs'; CL=T+'limit/concurrency/service.rs'; SR=T+'spawn_ready/service.rs'; CA=T+'util/call_all/common.rs'
RF=T+'retry/future.rs'; CM=T+'load/completion.rs'
EDITS=[
(BW,"""        loop {
            match ready!(self.poll_next_msg(cx)) {
                Some((msg, first)) => {
                    let _guard = msg.span.enter();
                    if let Some(ref failed) = self.failed {
                        tracing::trace!("notifying caller about worker failure");
                        let _ = msg.tx.send(Err(failed.clone()));
                        continue;
                    }

                    // Wait for the service to be ready
                    tracing::trace!(
                        resumed = !first,
                        message = "worker received request; waiting for service readiness"
                    );
                    match self.service.poll_ready(cx) {
                        Poll::Ready(Ok(())) => {
                            tracing::debug!(service.ready = true, message = "processing request");
                            let response = self.service.call(msg.request);

                            // Send the response future back to the sender.
                            //
                            // An error means the request had been canceled in-between
                            // our calls, the response future will just be dropped.
                            tracing::trace!("returning response future");
                            let _ = msg.tx.send(Ok(response));
                        }
                        Poll::Pending => {
                            tracing::trace!(service.ready = false, message = "delay");
                            // Put out current message back in its slot.
                            drop(_guard);
                            self.current_message = Some(msg);
                            return Poll::Pending;
                        }
                        Poll::Ready(Err(e)) => {
                            let error = e.into();
                            tracing::debug!({ %error }, "service failed");
                            drop(_guard);
                            self.failed(error);
                            let _ = msg.tx.send(Err(self
                                .failed
                                .as_ref()
                                .expect("Worker::failed did not set self.failed?")
                                .clone()));
                        }
                    }
                }
                None => {
                    // No more more requests _ever_.
                    self.finish = true;
                    return Poll::Ready(());
                }
            }
        }
""","""        while let Some((msg, _)) = ready!(self.poll_next_msg(cx)) {
            let Message { request, tx, span } = msg;
            let outcome = match self.failed.as_ref().map(|e| e.clone()) {
                Some(failed) => Err(failed),
                None => {
                    let _guard = span.enter();
                    match self.service.poll_ready(cx) {
                        Poll::Pending => {
                            drop(_guard);
                            self.current_message = Some(Message { request, tx, span });
                            return Poll::Pending;
                        }
                        Poll::Ready(Ok(())) => Ok(self.service.call(request)),
                        Poll::Ready(Err(e)) => Err(self.failed(e.into())),
                    }
                }
            };
            // An error means that nobody waits for the response any more.
            tx.send(outcome).unwrap_or(());
        }
        // No more more requests _ever_.
        self.finish = true;
        Poll::Ready(())
"""),
(BW,"""    fn failed(&mut self, error: crate::BoxError) {""","""    fn failed(&mut self, error: crate::BoxError) -> ServiceError {"""),
(BW,"""        let mut inner = self.handle.inner.lock().unwrap();

        if inner.is_some() {
            // Future::poll was called after we've already errored out!
            return;
        }

        *inner = Some(error.clone());
        drop(inner);

        self.rx.close();

        // By closing the mpsc::Receiver, we know that poll_next_msg will soon return Ready(None),
        // which will trigger the `self.finish == true` phase. We just need to make sure that any
        // requests that we receive before we've exhausted the receiver receive the error:
        self.failed = Some(error);
""","""        let stored = {
            let mut inner = self.handle.inner.lock().unwrap();
            inner.get_or_insert_with(|| error).clone()
        };
        self.rx.close();
        self.failed.insert(stored).clone()
"""),
(BW,"""        if let Some(msg) = self.current_message.take() {
            // If the oneshot sender is closed, then the receiver is dropped,
            // and nobody cares about the response. If this is the case, we
            // should continue to the next request.
            if !msg.tx.is_closed() {
                tracing::trace!("resuming buffered request");
                return Poll::Ready(Some((msg, false)));
            }

            tracing::trace!("dropping cancelled buffered request");
        }

        // Get the next request
        while let Some(msg) = ready!(Pin::new(&mut self.rx).poll_recv(cx)) {
            if !msg.tx.is_closed() {
                tracing::trace!("processing new request");
                return Poll::Ready(Some((msg, true)));
            }
            // Otherwise, request is canceled, so pop the next one.
            tracing::trace!("dropping cancelled request");
        }

        Poll::Ready(None)
""","""        loop {
            let (next, fresh) = match self.current_message.take() {
                Some(msg) => (Some(msg), false),
                None => (ready!(self.rx.poll_recv(cx)), true),
            };
            match next {
                Some(msg) if msg.tx.is_closed() => tracing::trace!("dropping cancelled request"),
                Some(msg) => return Poll::Ready(Some((msg, fresh))),
                None => return Poll::Ready(None),
            }
        }
"""),
(BW,"""        self.inner
            .lock()
            .unwrap()
            .as_ref()
            .map(|svc_err| svc_err.clone().into())
            .unwrap_or_else(|| Closed::new().into())
""","""        let guard = self.inner.lock().unwrap();
        match &*guard {
            Some(e) => e.clone().into(),
            None => Closed::new().into(),
        }
"""),
(BV,"""        if self.tx.is_closed() {
            // If the inner service has errored, then we error here.
            return Poll::Ready(Err(self.get_worker_error()));
        }

        // Poll the sender to acquire a permit.
        self.tx
            .poll_reserve(cx)
            .map_err(|_| self.get_worker_error())
""","""        let reserved = match self.tx.is_closed() {
            true => false,
            false => match self.tx.poll_reserve(cx) {
                Poll::Ready(r) => r.is_ok(),
                Poll::Pending => return Poll::Pending,
            },
        };
        Poll::Ready(reserved.then_some(()).ok_or_else(|| self.get_worker_error()))
"""),
(BV,"""        match self.tx.send_item(Message { request, span, tx }) {
            Ok(_) => ResponseFuture::new(rx),
            // If the channel is closed, propagate the error from the worker.
            Err(_) => {
                tracing::trace!("buffer channel closed");
                ResponseFuture::failed(self.get_worker_error())
            }
        }
""","""        self.tx
            .send_item(Message { request, span, tx })
            .map(move |()| ResponseFuture::new(rx))
            .unwrap_or_else(|_| ResponseFuture::failed(self.get_worker_error()))
"""),
(CL,"""        if self.permit.is_none() {
            self.permit = ready!(self.semaphore.poll_acquire(cx));
            debug_assert!(
                self.permit.is_some(),
                "ConcurrencyLimit semaphore is never closed, so `poll_acquire` \\
                 should never fail",
            );
        }

        // Once we've acquired a permit (or if we already had one), poll the
        // inner service.
        self.inner.poll_ready(cx)
""","""        let permit = match self.permit.take() {
            Some(held) => held,
            None => ready!(self.semaphore.poll_acquire(cx))
                .expect("ConcurrencyLimit semaphore is never closed"),
        };
        self.permit = Some(permit);
        self.inner.poll_ready(cx)
"""),
(SR,"""        loop {
            self.inner = match self.inner {
                Inner::Service(ref mut svc) => {
                    if let Poll::Ready(r) = svc.as_mut().expect("illegal state").poll_ready(cx) {
                        return Poll::Ready(r.map_err(Into::into));
                    }

                    let svc = svc.take().expect("illegal state");
                    let rx =
                        tokio::spawn(svc.ready_oneshot().map_err(Into::into).in_current_span());
                    Inner::Future(rx)
                }
                Inner::Future(ref mut fut) => {
                    let svc = ready!(Pin::new(fut).poll(cx))??;
                    Inner::Service(Some(svc))
                }
            }
        }
""","""        loop {
            match &mut self.inner {
                Inner::Future(task) => {
                    let joined = ready!(Pin::new(task).poll(cx));
                    let svc = joined.map_err(BoxError::from).and_then(|r| r)?;
                    self.inner = Inner::Service(Some(svc));
                }
                Inner::Service(slot) => {
                    let mut svc = slot.take().expect("illegal state");
                    match svc.poll_ready(cx) {
                        Poll::Ready(r) => {
                            *slot = Some(svc);
                            return Poll::Ready(r.map_err(Into::into));
                        }
                        Poll::Pending => {
                            let task = async move {
                                let mut svc = svc;
                                match std::future::poll_fn(|cx| svc.poll_ready(cx)).await {
                                    Ok(()) => Ok(svc),
                                    Err(e) => Err(e.into()),
                                }
                            };
                            self.inner = Inner::Future(tokio::spawn(task.in_current_span()));
                        }
                    }
                }
            }
        }
"""),
(CA,"""        loop {
            // First, see if we have any responses to yield
            if let Poll::Ready(r) = this.queue.poll(cx) {
                if let Some(rsp) = r.transpose()? {
                    return Poll::Ready(Some(Ok(rsp)));
                }
            }

            // If there are no more requests coming, check if we're done
            if *this.eof {
                if this.queue.is_empty() {
                    return Poll::Ready(None);
                } else {
                    return Poll::Pending;
                }
            }

            // If not done, and we don't have a stored request, gather the next request from the
            // stream (if there is one), or return `Pending` if the stream is not ready.
            if this.curr_req.is_none() {
                *this.curr_req = match ready!(this.stream.as_mut().poll_next(cx)) {
                    Some(next_req) => Some(next_req),
                    None => {
                        // Mark that there will be no more requests.
                        *this.eof = true;
                        continue;
                    }
                };
            }
""","""        loop {
            // First, see if we have any responses to yield
            match this.queue.poll(cx) {
                Poll::Ready(Some(res)) => return Poll::Ready(Some(res)),
                Poll::Ready(None) if *this.eof => return Poll::Ready(None),
                Poll::Pending if *this.eof => return Poll::Pending,
                _ => {}
            }

            if this.curr_req.is_none() {
                let next = ready!(this.stream.as_mut().poll_next(cx));
                *this.eof = next.is_none();
                if *this.eof {
                    continue;
                }
                *this.curr_req = next;
            }
"""),
(RF,"""                    let mut result = ready!(future.poll(cx));
                    if let Some(req) = &mut this.request {
                        match this.retry.policy.retry(req, &mut result) {
                            Some(waiting) => {
                                this.state.set(State::Waiting { waiting });
                            }
                            None => return Poll::Ready(result),
                        }
                    } else {
                        // request wasn't cloned, so no way to retry it
                        return Poll::Ready(result);
                    }
""","""                    let mut result = ready!(future.poll(cx));
                    let retry = this.retry.as_mut().project();
                    let again = this
                        .request
                        .as_mut()
                        .and_then(|req| retry.policy.retry(req, &mut result));
                    let waiting = match again {
                        Some(waiting) => waiting,
                        // not to be retried, or no clone to retry with
                        None => return Poll::Ready(result),
                    };
                    this.state.set(State::Waiting { waiting });
"""),
(RF,"""                    ready!(this.retry.as_mut().project().service.poll_ready(cx))?;
                    let req = this
                        .request
                        .take()
                        .expect("retrying requires cloned request");
                    *this.request = this.retry.policy.clone_request(&req);
                    this.state.set(State::Called {
                        future: this.retry.as_mut().project().service.call(req),
                    });
""","""                    let retry = this.retry.as_mut().project();
                    match retry.service.poll_ready(cx) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                        Poll::Ready(Ok(())) => {}
                    }
                    let spare = this
                        .request
                        .as_ref()
                        .and_then(|req| retry.policy.clone_request(req));
                    let req = std::mem::replace(&mut *this.request, spare)
                        .expect("retrying requires cloned request");
                    let future = retry.service.call(req);
                    this.state.set(State::Called { future });
"""),
(CM,"""        let rsp = ready!(this.future.poll(cx))?;
""","""        let rsp = match ready!(this.future.poll(cx)) {
            Ok(rsp) => rsp,
            Err(e) => return Poll::Ready(Err(e)),
        };
"""),
]
