T='tower/src/'
HS=T+'hedge/select.rs'; HD=T+'hedge/delay.rs'; HL=T+'hedge/latency.rs'; RH=T+'hedge/rotating_histogram.rs'; HM=T+'hedge/mod.rs'
RC=T+'reconnect/mod.rs'; RCF=T+'reconnect/future.rs'; ST=T+'steer/mod.rs'; SR=T+'spawn_ready/service.rs'
FF=T+'filter/future.rs'; LS=T+'load_shed/mod.rs'; LSF=T+'load_shed/future.rs'; TM=T+'timeout/mod.rs'; TF=T+'timeout/future.rs'
OS=T+'util/oneshot.rs'; RD=T+'util/ready.rs'; FS=T+'util/future_service.rs'
EDITS=[
(HS,"""        match (self.a.poll_ready(cx), self.b.poll_ready(cx)) {
            (Poll::Ready(Ok(())), Poll::Ready(Ok(()))) => Poll::Ready(Ok(())),
            (Poll::Ready(Err(e)), _) => Poll::Ready(Err(e.into())),
            (_, Poll::Ready(Err(e))) => Poll::Ready(Err(e.into())),
            _ => Poll::Pending,
        }
""","""        let a = self.a.poll_ready(cx).map_err(Into::into)?;
        let b = self.b.poll_ready(cx).map_err(Into::into)?;
        if a.is_pending() || b.is_pending() {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
"""),
(HS,"""        let b_fut = if let Some(cloned_req) = self.policy.clone_request(&request) {
            Some(self.b.call(cloned_req))
        } else {
            None
        };
        ResponseFuture {
            a_fut: self.a.call(request),
            b_fut,
        }
""","""        let extra = self.policy.clone_request(&request);
        let b_fut = extra.map(|req| self.b.call(req));
        let a_fut = self.a.call(request);
        ResponseFuture { a_fut, b_fut }
"""),
(HS,"""        if let Poll::Ready(r) = this.a_fut.poll(cx) {
            return Poll::Ready(Ok(r.map_err(Into::into)?));
        }
        if let Some(b_fut) = this.b_fut.as_pin_mut() {
            if let Poll::Ready(r) = b_fut.poll(cx) {
                return Poll::Ready(Ok(r.map_err(Into::into)?));
            }
        }
        Poll::Pending
""","""        match this.a_fut.poll(cx) {
            Poll::Ready(r) => Poll::Ready(r.map_err(Into::into)),
            Poll::Pending => match this.b_fut.as_pin_mut() {
                Some(b) => b.poll(cx).map_err(Into::into),
                None => Poll::Pending,
            },
        }
"""),
(HD,"""                StateProj::Delaying { delay, req } => {
                    ready!(delay.poll(cx));
                    let req = req.take().expect("Missing request in delay");
                    let svc = this.service.take().expect("Missing service in delay");
                    let fut = Oneshot::new(svc, req);
                    this.state.set(State::called(fut));
                }
""","""                StateProj::Delaying { delay, req } => {
                    if delay.poll(cx).is_pending() {
                        return Poll::Pending;
                    }
                    match (this.service.take(), req.take()) {
                        (Some(svc), Some(req)) => this.state.set(State::called(Oneshot::new(svc, req))),
                        _ => panic!("Missing request in delay"),
                    }
                }
"""),
(HD,"""        let delay = self.policy.delay(&request);
        ResponseFuture {
            service: Some(self.service.clone()),
            state: State::delaying(tokio::time::sleep(delay), Some(request)),
        }
""","""        let sleep = tokio::time::sleep(self.policy.delay(&request));
        let service = self.service.clone();
        let state = State::Delaying { delay: sleep, req: Some(request) };
        ResponseFuture { service: service.into(), state }
"""),
(HL,"""        ResponseFuture {
            start: Instant::now(),
            rec: self.rec.clone(),
            inner: self.service.call(request),
        }
""","""        let start = Instant::now();
        let rec = Clone::clone(&self.rec);
        let inner = self.service.call(request);
        ResponseFuture { inner, rec, start }
"""),
(HL,"""        let rsp = ready!(this.inner.poll(cx)).map_err(Into::into)?;
        let duration = Instant::now().saturating_duration_since(*this.start);
        this.rec.record(duration);
        Poll::Ready(Ok(rsp))
""","""        match this.inner.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Err(e)) => Poll::Ready(Err(e.into())),
            Poll::Ready(Ok(rsp)) => {
                this.rec.record(this.start.elapsed());
                Poll::Ready(Ok(rsp))
            }
        }
"""),
(RH,"""        let rotations = nanos(delta) / period;
        if rotations >= 2 {
            trace!("Time since last rotation is {:?}.  clearing!", delta);
            self.clear();
        } else if rotations == 1 {
            trace!("Time since last rotation is {:?}. rotating!", delta);
            self.rotate();
        }
        self.last_rotation += Duration::from_nanos(period * rotations);
""","""        let rotations = (delta.as_nanos() / u128::from(period)) as u64;
        match rotations {
            0 => return,
            1 => self.rotate(),
            _ => self.clear(),
        }
        self.last_rotation = self.last_rotation + Duration::from_nanos(rotations * period);
"""),
(RH,"""        std::mem::swap(&mut self.read, &mut self.write);
        trace!("Rotated {:?} points into read", self.read.len());
        self.write.clear();
""","""        let Self { read, write, .. } = self;
        read.clear();
        std::mem::swap(read, write);
"""),
(HM,"""        let mut locked = self.lock().unwrap();
        locked.write().record(millis(latency)).unwrap_or_else(|e| {
            error!("Failed to write to hedge histogram: {:?}", e);
        })
""","""        let ms = millis(latency);
        let outcome = self.lock().unwrap().write().record(ms);
        if let Err(e) = outcome {
            error!("Failed to write to hedge histogram: {:?}", e);
        }
"""),
(HM,"""        if self.0.can_retry(&request) {
            future::Either::Left(future::ready(Ok(request)))
        } else {
            // If the hedge retry should not be issued, we simply want to wait
            // for the result of the original request.  Therefore we don't want
            // to return an error here.  Instead, we use future::pending to ensure
            // that the original request wins the select.
            future::Either::Right(future::pending())
        }
""","""        let wanted = self.0.can_retry(&request);
        if !wanted {
            return future::Either::Right(future::pending());
        }
        future::Either::Left(future::ok(request))
"""),
(HM,"""        let mut locked = self.histo.lock().unwrap();
        let millis = locked
            .read()
            .value_at_quantile(self.latency_percentile.into());
        Duration::from_millis(millis)
""","""        let quantile = f64::from(self.latency_percentile);
        let mut histo = match self.histo.lock() {
            Ok(h) => h,
            Err(e) => panic!("{}", e),
        };
        Duration::from_millis(histo.read().value_at_quantile(quantile))
"""),
(HM,"""        self.policy.clone_request(req).filter(|_| {
            let mut locked = self.histo.lock().unwrap();
            // Do not attempt a retry if there are insufficiently many data
            // points in the histogram.
            locked.read().len() >= self.min_data_points
        })
""","""        let copy = self.policy.clone_request(req)?;
        let points = self.histo.lock().unwrap().read().len();
        if points < self.min_data_points {
            return None;
        }
        Some(copy)
"""),
(RC,"""        if self.error.is_some() {
            return Poll::Ready(Ok(()));
        }

        loop {
            match &mut self.state {
                State::Idle => {
                    trace!("poll_ready; idle");
                    match self.mk_service.poll_ready(cx) {
                        Poll::Ready(r) => r?,
                        Poll::Pending => {
                            trace!("poll_ready; MakeService not ready");
                            return Poll::Pending;
                        }
                    }

                    let fut = self.mk_service.make_service(self.target.clone());
                    self.state = State::Connecting(fut);
                    continue;
                }
                State::Connecting(ref mut f) => {
                    trace!("poll_ready; connecting");
                    match Pin::new(f).poll(cx) {
                        Poll::Ready(Ok(service)) => {
                            self.state = State::Connected(service);
                        }
                        Poll::Pending => {
                            trace!("poll_ready; not ready");
                            return Poll::Pending;
                        }
                        Poll::Ready(Err(e)) => {
                            trace!("poll_ready; error");
                            self.state = State::Idle;
                            self.error = Some(e);
                            break;
                        }
                    }
                }
                State::Connected(ref mut inner) => {
                    trace!("poll_ready; connected");
                    match inner.poll_ready(cx) {
                        Poll::Ready(Ok(())) => {
                            trace!("poll_ready; ready");
                            return Poll::Ready(Ok(()));
                        }
                        Poll::Pending => {
                            trace!("poll_ready; not ready");
                            return Poll::Pending;
                        }
                        Poll::Ready(Err(_)) => {
                            trace!("poll_ready; error");
                            self.state = State::Idle;
                        }
                    }
                }
            }
        }

        Poll::Ready(Ok(()))
""","""        while self.error.is_none() {
            let next = match self.state {
                State::Connected(ref mut inner) => match std::task::ready!(inner.poll_ready(cx)) {
                    Ok(()) => break,
                    Err(_) => State::Idle,
                },
                State::Connecting(ref mut f) => match std::task::ready!(Pin::new(f).poll(cx)) {
                    Ok(service) => State::Connected(service),
                    Err(e) => {
                        self.error.replace(e);
                        State::Idle
                    }
                },
                State::Idle => {
                    std::task::ready!(self.mk_service.poll_ready(cx))?;
                    State::Connecting(self.mk_service.make_service(self.target.clone()))
                }
            };
            self.state = next;
        }
        Poll::Ready(Ok(()))
"""),
(RC,"""        if let Some(error) = self.error.take() {
            return ResponseFuture::error(error);
        }

        let service = match self.state {
            State::Connected(ref mut service) => service,
            _ => panic!("service not ready; poll_ready must be called first"),
        };

        let fut = service.call(request);
        ResponseFuture::new(fut)
""","""        match (self.error.take(), &mut self.state) {
            (Some(error), _) => ResponseFuture::error(error),
            (None, State::Connected(service)) => ResponseFuture::new(service.call(request)),
            (None, _) => panic!("service not ready; poll_ready must be called first"),
        }
"""),
(RCF,"""        match me.inner.project() {
            InnerProj::Future { fut } => fut.poll(cx).map_err(Into::into),
            InnerProj::Error { error } => {
                let e = error.take().expect("Polled after ready.").into();
                Poll::Ready(Err(e))
            }
        }
""","""        Poll::Ready(match me.inner.project() {
            InnerProj::Error { error } => Err(error.take().expect("Polled after ready.").into()),
            InnerProj::Future { fut } => std::task::ready!(fut.poll(cx)).map_err(Into::into),
        })
"""),
(ST,"""        loop {
            // must wait for *all* services to be ready.
            // this will cause head-of-line blocking unless the underlying services are always ready.
            if self.not_ready.is_empty() {
                return Poll::Ready(Ok(()));
            } else {
                if self.services[self.not_ready[0]]
                    .poll_ready(cx)?
                    .is_pending()
                {
                    return Poll::Pending;
                }

                self.not_ready.pop_front();
            }
        }
""","""        while let Some(&idx) = self.not_ready.front() {
            match self.services[idx].poll_ready(cx) {
                Poll::Ready(Ok(())) => {
                    self.not_ready.pop_front();
                }
                other => return other,
            }
        }
        Poll::Ready(Ok(()))
"""),
(ST,"""        let idx = self.router.pick(&req, &self.services[..]);
        let cl = &mut self.services[idx];
        self.not_ready.push_back(idx);
        cl.call(req)
""","""        let Self { router, services, not_ready, .. } = self;
        let idx = router.pick(&req, services);
        let fut = services[idx].call(req);
        not_ready.push_back(idx);
        fut
"""),
(ST,"""        let services: Vec<_> = services.into_iter().collect();
        let not_ready: VecDeque<_> = services.iter().enumerate().map(|(i, _)| i).collect();
        Self {
""","""        let services = services.into_iter().collect::<Vec<S>>();
        let not_ready = (0..services.len()).collect();
        Self {
"""),
(SR,"""            self.inner = match self.inner {
                Inner::Service(ref mut svc) => {
                    if let Poll::Ready(r) = svc.as_mut().expect("illegal state").poll_ready(cx) {
                        return Poll::Ready(r.map_err(Into::into));
                    }

                    let svc = svc.take().expect("illegal state");
                    let rx =
                        tokio::spawn(svc.ready_oneshot().map_err(Into::into).in_current_span());
                    Inner::Future(rx)
                }
                Inner::Future(ref mut fut) => {
                    let svc = ready!(Pin::new(fut).poll(cx))??;
                    Inner::Service(Some(svc))
                }
            }
""","""            match &mut self.inner {
                Inner::Service(slot) => {
                    let svc = slot.as_mut().expect("illegal state");
                    match svc.poll_ready(cx) {
                        Poll::Ready(Ok(())) => return Poll::Ready(Ok(())),
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                        Poll::Pending => {}
                    }
                    let svc = slot.take().expect("illegal state");
                    let task = svc.ready_oneshot().map_err(Into::into);
                    self.inner = Inner::Future(tokio::spawn(task.in_current_span()));
                }
                Inner::Future(fut) => {
                    let joined = ready!(Pin::new(fut).poll(cx));
                    let svc = match joined {
                        Ok(Ok(svc)) => svc,
                        Ok(Err(e)) => return Poll::Ready(Err(e)),
                        Err(e) => return Poll::Ready(Err(e.into())),
                    };
                    self.inner = Inner::Service(Some(svc));
                }
            }
"""),
(SR,"""        match self.inner {
            Inner::Service(Some(ref mut svc)) => {
                ResponseFuture::new(svc.call(request).map_err(Into::into))
            }
            _ => unreachable!("poll_ready must be called"),
        }
""","""        let Inner::Service(Some(svc)) = &mut self.inner else {
            unreachable!("poll_ready must be called")
        };
        let fut = svc.call(request);
        ResponseFuture::new(fut.map_err(Into::into))
"""),
(FF,"""                StateProj::Check { mut check } => {
                    let request = ready!(check.as_mut().poll(cx))?;
                    let response = this.service.call(request);
                    this.state.set(State::WaitResponse { response });
                }
                StateProj::WaitResponse { response } => {
                    return response.poll(cx).map_err(Into::into);
                }
""","""                StateProj::WaitResponse { response } => {
                    return Poll::Ready(ready!(response.poll(cx)).map_err(|e| e.into()));
                }
                StateProj::Check { check } => match ready!(check.poll(cx)) {
                    Err(e) => return Poll::Ready(Err(e)),
                    Ok(request) => this.state.set(State::WaitResponse {
                        response: this.service.call(request),
                    }),
                },
"""),
(LS,"""        self.is_ready = match self.inner.poll_ready(cx) {
            Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
            r => r.is_ready(),
        };
""","""        let state = self.inner.poll_ready(cx).map_err(Into::into)?;
        self.is_ready = state == Poll::Ready(());
"""),
(LS,"""        if self.is_ready {
            // readiness only counts once, you need to check again!
            self.is_ready = false;
            ResponseFuture::called(self.inner.call(req))
        } else {
            ResponseFuture::overloaded()
        }
""","""        // readiness only counts once, you need to check again!
        if !std::mem::replace(&mut self.is_ready, false) {
            return ResponseFuture::overloaded();
        }
        let fut = self.inner.call(req);
        ResponseFuture::called(fut)
"""),
(LSF,"""            ResponseStateProj::Called { fut } => {
                Poll::Ready(ready!(fut.poll(cx)).map_err(Into::into))
            }
            ResponseStateProj::Overloaded => Poll::Ready(Err(Overloaded::new().into())),
""","""            ResponseStateProj::Overloaded => Poll::Ready(Err(Box::new(Overloaded::new()))),
            ResponseStateProj::Called { fut } => match ready!(fut.poll(cx)) {
                Ok(rsp) => Poll::Ready(Ok(rsp)),
                Err(e) => Poll::Ready(Err(e.into())),
            },
"""),
(TM,"""        let response = self.inner.call(request);
        let sleep = tokio::time::sleep(self.timeout);

        ResponseFuture::new(response, sleep)
""","""        let Self { inner, timeout } = self;
        let response = inner.call(request);
        ResponseFuture::new(response, tokio::time::sleep(*timeout))
"""),
(TF,"""        match this.response.poll(cx) {
            Poll::Ready(v) => return Poll::Ready(v.map_err(Into::into)),
            Poll::Pending => {}
        }

        // Now check the sleep
        match this.sleep.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(_) => Poll::Ready(Err(Elapsed(()).into())),
        }
""","""        if let Poll::Ready(v) = this.response.poll(cx) {
            return Poll::Ready(v.map_err(Into::into));
        }
        this.sleep.poll(cx).map(|()| Err(Elapsed(()).into()))
"""),
(OS,"""                    let _ = ready!(svc.poll_ready(cx))?;
                    let f = svc.call(req.take().expect("already called"));
                    this.state.set(State::called(f));
                }
                StateProj::Called { fut } => {
                    let res = ready!(fut.poll(cx))?;
                    this.state.set(State::Done);
                    return Poll::Ready(Ok(res));
                }
""","""                    match svc.poll_ready(cx) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                        Poll::Ready(Ok(())) => {}
                    }
                    let Some(req) = req.take() else { panic!("already called") };
                    let fut = svc.call(req);
                    this.state.as_mut().set(State::Called { fut });
                }
                StateProj::Called { fut } => {
                    let res = ready!(fut.poll(cx));
                    this.state.set(State::Done);
                    return Poll::Ready(res);
                }
"""),
(RD,"""        ready!(self
            .inner
            .as_mut()
            .expect("poll after Poll::Ready")
            .poll_ready(cx))?;

        Poll::Ready(Ok(self.inner.take().expect("poll after Poll::Ready")))
""","""        let mut service = self.inner.take().expect("poll after Poll::Ready");
        match service.poll_ready(cx) {
            Poll::Pending => {
                self.inner = Some(service);
                Poll::Pending
            }
            Poll::Ready(Err(e)) => {
                self.inner = Some(service);
                Poll::Ready(Err(e))
            }
            Poll::Ready(Ok(())) => Poll::Ready(Ok(service)),
        }
"""),
(FS,"""        loop {
            self.state = match &mut self.state {
                State::Future(fut) => {
                    let fut = Pin::new(fut);
                    let svc = futures_core::ready!(fut.poll(cx)?);
                    State::Service(svc)
                }
                State::Service(svc) => return svc.poll_ready(cx),
            };
        }
""","""        if let State::Future(ref mut fut) = self.state {
            match Pin::new(fut).poll(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(made) => self.state = State::Service(made?),
            }
        }
        match &mut self.state {
            State::Service(svc) => svc.poll_ready(cx),
            State::Future(_) => unreachable!(),
        }
"""),
]
