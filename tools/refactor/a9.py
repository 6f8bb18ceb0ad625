# balance, hedge, steer, reconnect, peak_ewma once more: let-else, while-let, matches!, mem::replace, Poll combinators, tuples
T='tower/src/'
BS=T+'balance/p2c/service.rs'; HD=T+'hedge/delay.rs'; SEL=T+'hedge/select.rs'; LAT=T+'hedge/latency.rs'; RH=T+'hedge/rotating_histogram.rs'
RE=T+'reconnect/mod.rs'; ST=T+'steer/mod.rs'; PE=T+'load/peak_ewma.rs'
EDITS=[
(BS,"""        loop {
            match ready!(Pin::new(&mut self.discover).poll_discover(cx))
                .transpose()
                .map_err(|e| error::Discover(e.into()))?
            {
                None => {
                    self.discover_done = true;
                    return Poll::Ready(None);
                }
                Some(Change::Remove(key)) => {
                    trace!("remove");
                    self.services.evict(&key);
                }
                Some(Change::Insert(key, svc)) => {
                    trace!("insert");
                    // If this service already existed in the set, it will be
                    // replaced as the new one becomes ready.
                    self.services.push(key, svc);
                }
            }
        }
    }
""","""        while let Some(change) = ready!(Pin::new(&mut self.discover).poll_discover(cx)) {
            match change {
                Ok(change) => self.apply_change(change),
                Err(e) => return Poll::Ready(Some(Err(error::Discover(e.into())))),
            }
        }
        self.discover_done = true;
        Poll::Ready(None)
    }

    fn apply_change(&mut self, change: Change<D::Key, D::Service>) {
        match change {
            Change::Insert(key, svc) => self.services.push(key, svc),
            Change::Remove(ref key) => {
                let existed = self.services.evict(key);
                trace!(existed, "remove");
            }
        }
    }
"""),
(BS,"""        loop {
            match self.services.poll_pending(cx) {
                Poll::Ready(Ok(())) => {
                    // There are no remaining pending services.
                    debug_assert_eq!(self.services.pending_len(), 0);
                    break;
                }
                Poll::Pending => {
                    // None of the pending services are ready.
                    debug_assert!(self.services.pending_len() > 0);
                    break;
                }
                Poll::Ready(Err(error)) => {
                    // An individual service was lost; continue processing
                    // pending services.
                    debug!(%error, "dropping failed endpoint");
                }
            }
        }
""","""        while let Poll::Ready(Err(error)) = self.services.poll_pending(cx) {
            debug!(%error, "dropping failed endpoint");
        }
"""),
(BS,"""        match self.services.ready_len() {
            0 => None,
            1 => Some(0),
            len => {
                // Get two distinct random indexes (in a random order) and
                // compare the loads of the service at each index.
                let [aidx, bidx] = sample_floyd2(&mut self.rng, len as u64);
                debug_assert_ne!(aidx, bidx, "random indices must be distinct");

                let aload = self.ready_index_load(aidx as usize);
                let bload = self.ready_index_load(bidx as usize);
                let chosen = if aload <= bload { aidx } else { bidx };

                trace!(
                    a.index = aidx,
                    a.load = ?aload,
                    b.index = bidx,
                    b.load = ?bload,
                    chosen = if chosen == aidx { "a" } else { "b" },
                    "p2c",
                );
                Some(chosen as usize)
            }
        }
""","""        let len = self.services.ready_len();
        if len < 2 {
            return len.checked_sub(1);
        }
        let picks = sample_floyd2(&mut self.rng, len as u64).map(|i| i as usize);
        let loads = picks.map(|i| self.ready_index_load(i));
        let second = loads[1] < loads[0];
        let incomparable = loads[0].partial_cmp(&loads[1]).is_none();
        Some(picks[usize::from(second || incomparable)])
"""),
(BS,"""        loop {
            // If a service has already been selected, ensure that it is ready.
            // This ensures that the underlying service is ready immediately
            // before a request is dispatched to it (i.e. in the same task
            // invocation). If, e.g., a failure detector has changed the state
            // of the service, it may be evicted from the ready set so that
            // another service can be selected.
            if let Some(index) = self.ready_index.take() {
                match self.services.check_ready_index(cx, index) {
                    Ok(true) => {
                        // The service remains ready.
                        self.ready_index = Some(index);
                        return Poll::Ready(Ok(()));
                    }
                    Ok(false) => {
                        // The service is no longer ready. Try to find a new one.
                        trace!("ready service became unavailable");
                    }
                    Err(Failed(_, error)) => {
                        // The ready endpoint failed, so log the error and try
                        // to find a new one.
                        debug!(%error, "endpoint failed");
                    }
                }
            }

            // Select a new service by comparing two at random and using the
            // lesser-loaded service.
            self.ready_index = self.p2c_ready_index();
            if self.ready_index.is_none() {
                debug_assert_eq!(self.services.ready_len(), 0);
                // We have previously registered interest in updates from
                // discover and pending services.
                return Poll::Pending;
            }
        }
    }
""","""        let mut candidate = self.ready_index.take().or_else(|| self.p2c_ready_index());
        while let Some(index) = candidate {
            let still_ready = self
                .services
                .check_ready_index(cx, index)
                .unwrap_or_else(|Failed(_, error)| {
                    debug!(%error, "endpoint failed");
                    false
                });
            if still_ready {
                self.ready_index = candidate;
                return Poll::Ready(Ok(()));
            }
            candidate = self.p2c_ready_index();
        }
        Poll::Pending
    }
"""),
(HD,"""        loop {
            match this.state.as_mut().project() {
                StateProj::Delaying { delay, req } => {
                    ready!(delay.poll(cx));
                    let req = req.take().expect("Missing request in delay");
                    let svc = this.service.take().expect("Missing service in delay");
                    let fut = Oneshot::new(svc, req);
                    this.state.set(State::called(fut));
                }
                StateProj::Called { fut } => {
                    return fut.poll(cx).map_err(Into::into);
                }
            };
        }
""","""        if let StateProj::Delaying { delay, req } = this.state.as_mut().project() {
            ready!(delay.poll(cx));
            let (Some(svc), Some(req)) = (this.service.take(), req.take()) else {
                unreachable!("delayed without a request")
            };
            this.state.set(State::called(Oneshot::new(svc, req)));
        }
        let StateProj::Called { fut } = this.state.project() else {
            unreachable!("the request was sent")
        };
        fut.poll(cx).map_err(Into::into)
"""),
(SEL,"""        if let Poll::Ready(r) = this.a_fut.poll(cx) {
            return Poll::Ready(Ok(r.map_err(Into::into)?));
        }
        if let Some(b_fut) = this.b_fut.as_pin_mut() {
            if let Poll::Ready(r) = b_fut.poll(cx) {
                return Poll::Ready(Ok(r.map_err(Into::into)?));
            }
        }
        Poll::Pending
""","""        let first = this.a_fut.poll(cx).map_err(Into::into);
        if first.is_ready() {
            return first;
        }
        this.b_fut
            .as_pin_mut()
            .map_or(Poll::Pending, |b| b.poll(cx).map_err(Into::into))
"""),
(SEL,"""        let b_fut = if let Some(cloned_req) = self.policy.clone_request(&request) {
            Some(self.b.call(cloned_req))
        } else {
            None
        };
        ResponseFuture {
            a_fut: self.a.call(request),
            b_fut,
        }
""","""        let Self { policy, a, b } = self;
        let b_fut = policy.clone_request(&request).map(|copy| b.call(copy));
        let a_fut = a.call(request);
        ResponseFuture { a_fut, b_fut }
"""),
(SEL,"""        match (self.a.poll_ready(cx), self.b.poll_ready(cx)) {
            (Poll::Ready(Ok(())), Poll::Ready(Ok(()))) => Poll::Ready(Ok(())),
            (Poll::Ready(Err(e)), _) => Poll::Ready(Err(e.into())),
            (_, Poll::Ready(Err(e))) => Poll::Ready(Err(e.into())),
            _ => Poll::Pending,
        }
""","""        let a = self.a.poll_ready(cx).map_err(Into::into)?;
        let b = self.b.poll_ready(cx).map_err(Into::into)?;
        if a.is_pending() || b.is_pending() {
            return Poll::Pending;
        }
        Poll::Ready(Ok(()))
"""),
(LAT,"""        let rsp = ready!(this.inner.poll(cx)).map_err(Into::into)?;
        let duration = Instant::now().saturating_duration_since(*this.start);
        this.rec.record(duration);
        Poll::Ready(Ok(rsp))
""","""        let result = ready!(this.inner.poll(cx));
        if result.is_ok() {
            this.rec.record(this.start.elapsed());
        }
        Poll::Ready(result.map_err(Into::into))
"""),
(RH,"""        if rotations >= 2 {
            trace!("Time since last rotation is {:?}.  clearing!", delta);
            self.clear();
        } else if rotations == 1 {
            trace!("Time since last rotation is {:?}. rotating!", delta);
            self.rotate();
        }
        self.last_rotation += Duration::from_nanos(period * rotations);
""","""        match rotations {
            0 => return,
            1 => self.rotate(),
            _ => self.clear(),
        }
        trace!("Time since last rotation is {:?}", delta);
        let over = nanos(delta) % period;
        self.last_rotation += Duration::from_nanos(nanos(delta) - over);
"""),
(RE,"""        loop {
            match &mut self.state {
                State::Idle => {
                    trace!("poll_ready; idle");
                    match self.mk_service.poll_ready(cx) {
                        Poll::Ready(r) => r?,
                        Poll::Pending => {
                            trace!("poll_ready; MakeService not ready");
                            return Poll::Pending;
                        }
                    }

                    let fut = self.mk_service.make_service(self.target.clone());
                    self.state = State::Connecting(fut);
                    continue;
                }
                State::Connecting(ref mut f) => {
                    trace!("poll_ready; connecting");
                    match Pin::new(f).poll(cx) {
                        Poll::Ready(Ok(service)) => {
                            self.state = State::Connected(service);
                        }
                        Poll::Pending => {
                            trace!("poll_ready; not ready");
                            return Poll::Pending;
                        }
                        Poll::Ready(Err(e)) => {
                            trace!("poll_ready; error");
                            self.state = State::Idle;
                            self.error = Some(e);
                            break;
                        }
                    }
                }
                State::Connected(ref mut inner) => {
                    trace!("poll_ready; connected");
                    match inner.poll_ready(cx) {
                        Poll::Ready(Ok(())) => {
                            trace!("poll_ready; ready");
                            return Poll::Ready(Ok(()));
                        }
                        Poll::Pending => {
                            trace!("poll_ready; not ready");
                            return Poll::Pending;
                        }
                        Poll::Ready(Err(_)) => {
                            trace!("poll_ready; error");
                            self.state = State::Idle;
                        }
                    }
                }
            }
        }

        Poll::Ready(Ok(()))
""","""        loop {
            let next = match self.state {
                State::Idle => {
                    std::task::ready!(self.mk_service.poll_ready(cx))?;
                    State::Connecting(self.mk_service.make_service(self.target.clone()))
                }
                State::Connecting(ref mut f) => match std::task::ready!(Pin::new(f).poll(cx)) {
                    Ok(service) => State::Connected(service),
                    Err(e) => {
                        self.error = Some(e);
                        State::Idle
                    }
                },
                State::Connected(ref mut inner) => match std::task::ready!(inner.poll_ready(cx)) {
                    Ok(()) => return Poll::Ready(Ok(())),
                    Err(_) => State::Idle,
                },
            };
            drop(std::mem::replace(&mut self.state, next));
            if self.error.is_some() {
                return Poll::Ready(Ok(()));
            }
        }
"""),
(ST,"""            if self.not_ready.is_empty() {
                return Poll::Ready(Ok(()));
            } else {
                if self.services[self.not_ready[0]]
                    .poll_ready(cx)?
                    .is_pending()
                {
                    return Poll::Pending;
                }

                self.not_ready.pop_front();
            }
""","""            let Some(&next) = self.not_ready.front() else {
                return Poll::Ready(Ok(()));
            };
            match self.services.get_mut(next).map(|svc| svc.poll_ready(cx)) {
                Some(Poll::Ready(Ok(()))) => drop(self.not_ready.pop_front()),
                Some(other) => return other,
                None => unreachable!("one index per service"),
            }
"""),
(PE,"""        self.rtt_ns = if self.rtt_ns < rtt {
            // For Peak-EWMA, always use the worst-case (peak) value as the estimate for
            // subsequent requests.
            trace!(
                "update peak rtt={}ms prior={}ms",
                rtt / NANOS_PER_MILLI,
                self.rtt_ns / NANOS_PER_MILLI,
            );
            rtt
        } else {
            // When an RTT is observed that is less than the estimated RTT, we decay the
            // prior estimate according to how much time has elapsed since the last
            // update. The inverse of the decay is used to scale the estimate towards the
            // observed RTT value.
            let elapsed = nanos(now.saturating_duration_since(self.update_at));
            let decay = (-elapsed / decay_ns).exp();
            let recency = 1.0 - decay;
            let next_estimate = (self.rtt_ns * decay) + (rtt * recency);
            trace!(
                "update rtt={:03.0}ms decay={:06.0}ns; next={:03.0}ms",
                rtt / NANOS_PER_MILLI,
                self.rtt_ns - next_estimate,
                next_estimate / NANOS_PER_MILLI,
            );
            next_estimate
        };
        self.update_at = now;

        self.rtt_ns
""","""        let elapsed = nanos(now.saturating_duration_since(std::mem::replace(
            &mut self.update_at,
            now,
        )));
        if self.rtt_ns < rtt {
            trace!("update peak rtt={}ms", rtt / NANOS_PER_MILLI);
            self.rtt_ns = rtt;
        } else {
            let weight = (-elapsed / decay_ns).exp();
            self.rtt_ns = (rtt * (1.0 - weight)) + (self.rtt_ns * weight);
        }
        self.rtt_ns
"""),
]
