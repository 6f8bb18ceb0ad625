# ready_cache, balance, tps budget, hedge, reconnect, peak_ewma: restructured
T='tower/src/'
RC=T+'ready_cache/cache.rs'; BS=T+'balance/p2c/service.rs'; TB=T+'retry/budget/tps_budget.rs'
SEL=T+'hedge/select.rs'; LAT=T+'hedge/latency.rs'; HM=T+'hedge/mod.rs'; RH=T+'hedge/rotating_histogram.rs'; PE=T+'load/peak_ewma.rs'; RE=T+'reconnect/mod.rs'
EDITS=[
# one AtomicUsize state instead of a bool; Pending holds an option of a triple
(RC,"""struct Cancel {
    waker: AtomicWaker,
    canceled: AtomicBool,
}
""","""struct Cancel {
    waker: AtomicWaker,
    state: AtomicUsize,
}

const LIVE: usize = 0;
const CANCELED: usize = 1;

impl Cancel {
    fn is_canceled(&self) -> bool {
        self.state.load(Ordering::Acquire) == CANCELED
    }
}
"""),
(RC,"use std::sync::atomic::{AtomicBool, Ordering};","use std::sync::atomic::{AtomicUsize, Ordering};"),
(RC,"canceled: AtomicBool::new(false),","state: AtomicUsize::new(LIVE),"),
(RC,"self.0.canceled.store(true, Ordering::SeqCst);","self.0.state.store(CANCELED, Ordering::Release);"),
(RC,"""    struct Pending<K, S, Req> {
        key: Option<K>,
        cancel: Option<CancelRx>,
        ready: Option<S>,
        _pd""","""    struct Pending<K, S, Req> {
        parts: Option<(K, S, CancelRx)>,
        _pd"""),
(RC,"""            key: Some(key),
            cancel: Some(cancel_rx),
            ready: Some(svc),
""","""            parts: Some((key, svc, cancel_rx)),
"""),
(RC,"""        let CancelRx(cancel) = this.cancel.as_mut().expect("polled after complete");
        if cancel.canceled.load(Ordering::SeqCst) {
            let key = this.key.take().expect("polled after complete");
            return Err(PendingError::Canceled(key)).into();
        }

        match this
            .ready
            .as_mut()
            .expect("polled after ready")
            .poll_ready(cx)
        {
            Poll::Pending => {
                // Before returning Pending, register interest in cancelation so
                // that this future is polled again if the state changes.
                let CancelRx(cancel) = this.cancel.as_mut().expect("polled after complete");
                cancel.waker.register(cx.waker());
                // Because both the cancel receiver and cancel sender are held
                // by the `ReadyCache` (i.e., on a single task), then it must
                // not be possible for the cancelation state to change while
                // polling a `Pending` service.
                assert!(
                    !cancel.canceled.load(Ordering::SeqCst),
                    "cancelation cannot be notified while polling a pending service"
                );
                Poll::Pending
            }
            Poll::Ready(Ok(())) => {
                let key = this.key.take().expect("polled after complete");
                let cancel = this.cancel.take().expect("polled after complete");
                Ok((key, this.ready.take().expect("polled after ready"), cancel)).into()
            }
            Poll::Ready(Err(e)) => {
                let key = this.key.take().expect("polled after compete");
                Err(PendingError::Inner(key, e)).into()
            }
        }
""","""        let (key, mut svc, cancel) = this.parts.take().expect("polled after complete");
        if cancel.0.is_canceled() {
            return Poll::Ready(Err(PendingError::Canceled(key)));
        }
        match svc.poll_ready(cx) {
            Poll::Ready(Ok(())) => Poll::Ready(Ok((key, svc, cancel))),
            Poll::Ready(Err(e)) => Poll::Ready(Err(PendingError::Inner(key, e))),
            Poll::Pending => {
                cancel.0.waker.register(cx.waker());
                assert!(!cancel.0.is_canceled(), "canceled while polling a pending service");
                *this.parts = Some((key, svc, cancel));
                Poll::Pending
            }
        }
"""),
(RC,"""        let Self {
            key,
            cancel,
            ready,
            _pd,
        } = self;
        f.debug_struct("Pending")
            .field("key", key)
            .field("cancel", cancel)
            .field("ready", ready)
            .finish()
""","""        f.debug_struct("Pending")
            .field("key", &self.parts.as_ref().map(|p| &p.0))
            .field("cancel", &self.parts.as_ref().map(|p| &p.2))
            .field("ready", &self.parts.as_ref().map(|p| &p.1))
            .finish()
"""),
(RC,"""        let canceled = if let Some(c) = self.pending_cancel_txs.swap_remove(key) {
            c.cancel();
            true
        } else {
            false
        };

        self.ready
            .swap_remove_full(key)
            .map(|_| true)
            .unwrap_or(canceled)
""","""        let pending = self.pending_cancel_txs.swap_remove(key);
        let ready = self.ready.swap_remove(key);
        let found = pending.is_some() || ready.is_some();
        pending.into_iter().for_each(CancelTx::cancel);
        found
"""),
(RC,"""        if let Some(c) = self.pending_cancel_txs.insert(key.clone(), cancel_tx) {
            // If there is already a service for this key, cancel it.
            c.cancel();
        }
        self.pending.push(Pending {""","""        match self.pending_cancel_txs.entry(key.clone()) {
            indexmap::map::Entry::Occupied(mut e) => {
                // If there is already a service for this key, cancel it.
                e.insert(cancel_tx).cancel();
            }
            indexmap::map::Entry::Vacant(e) => {
                e.insert(cancel_tx);
            }
        }
        self.pending.push(Pending {"""),
(RC,"""        loop {
            match Pin::new(&mut self.pending).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(Ok(())),
                Poll::Ready(Some(Ok((key, svc, cancel_rx)))) => {
                    trace!("endpoint ready");
                    let cancel_tx = self.pending_cancel_txs.swap_remove(&key);
                    if let Some(cancel_tx) = cancel_tx {
                        // Keep track of the cancelation so that it need not be
                        // recreated after the service is used.
                        self.ready.insert(key, (svc, (cancel_tx, cancel_rx)));
                    } else {
                        assert!(
                            cancel_tx.is_some(),
                            "services that become ready must have a pending cancelation"
                        );
                    }
                }
                Poll::Ready(Some(Err(PendingError::Canceled(_)))) => {
                    debug!("endpoint canceled");
                    // The cancellation for this service was removed in order to
                    // cause this cancellation.
                }
                Poll::Ready(Some(Err(PendingError::Inner(key, e)))) => {
                    let cancel_tx = self.pending_cancel_txs.swap_remove(&key);
                    assert!(
                        cancel_tx.is_some(),
                        "services that return an error must have a pending cancelation"
                    );
                    return Err(error::Failed(key, e.into())).into();
                }
            }
        }
""","""        while let Some(res) = futures_util::ready!(Pin::new(&mut self.pending).poll_next(cx)) {
            let (key, outcome) = match res {
                Err(PendingError::Canceled(_)) => continue,
                Err(PendingError::Inner(key, e)) => (key, Err(e)),
                Ok((key, svc, rx)) => (key, Ok((svc, rx))),
            };
            let tx = self
                .pending_cancel_txs
                .swap_remove(&key)
                .expect("services that resolve must have a pending cancelation");
            match outcome {
                Ok((svc, rx)) => {
                    let _old = self.ready.insert(key, (svc, (tx, rx)));
                }
                Err(e) => return Poll::Ready(Err(error::Failed(key, e.into()))),
            }
        }
        Poll::Ready(Ok(()))
"""),
(RC,"""        match svc.poll_ready(cx) {
            Poll::Ready(Ok(())) => Ok(true),
            Poll::Pending => {
                // became unready; so move it back there.
                let (key, (svc, cancel)) = self
                    .ready
                    .swap_remove_index(index)
                    .expect("invalid ready index");

                // If a new version of this service has been added to the
                // unready set, don't overwrite it.
                if !self.pending_contains(&key) {
                    self.push_pending(key, svc, cancel);
                }

                Ok(false)
            }
            Poll::Ready(Err(e)) => {
                // failed, so drop it.
                let (key, _) = self
                    .ready
                    .swap_remove_index(index)
                    .expect("invalid ready index");
                Err(error::Failed(key, e.into()))
            }
        }
""","""        let failed = match svc.poll_ready(cx) {
            Poll::Ready(Ok(())) => return Ok(true),
            Poll::Ready(Err(e)) => Some(e.into()),
            Poll::Pending => None,
        };
        let (key, (svc, cancel)) = self
            .ready
            .swap_remove_index(index)
            .expect("invalid ready index");
        if let Some(e) = failed {
            return Err(error::Failed(key, e));
        }
        self.put_back(key, svc, cancel);
        Ok(false)
"""),
(RC,"""        let fut = svc.call(req);

        // If a new version of this service has been added to the
        // unready set, don't overwrite it.
        if !self.pending_contains(&key) {
            self.push_pending(key, svc, cancel);
        }

        fut
    }
""","""        let fut = svc.call(req);
        self.put_back(key, svc, cancel);
        fut
    }

    fn put_back(&mut self, key: K, svc: S, cancel: CancelPair) {
        if self.pending_contains(&key) {
            drop((svc, cancel));
        } else {
            self.push_pending(key, svc, cancel);
        }
    }
"""),
# balance
(BS,"""        self.ready_index = None;
""","""        self.ready_index = None;
""") if 0 else
(BS,"""        loop {
            // If a service has already been selected, ensure that it is ready.
            // This ensures that the underlying service is ready immediately
            // before a request is dispatched to it (i.e. in the same task
            // invocation). If, e.g., a failure detector has changed the state
            // of the service, it may be evicted from the ready set so that
            // another service can be selected.
            if let Some(index) = self.ready_index.take() {
                match self.services.check_ready_index(cx, index) {
                    Ok(true) => {
                        // The service remains ready.
                        self.ready_index = Some(index);
                        return Poll::Ready(Ok(()));
                    }
                    Ok(false) => {
                        // The service is no longer ready. Try to find a new one.
                        trace!("ready service became unavailable");
                    }
                    Err(Failed(_, error)) => {
                        // The ready endpoint failed, so log the error and try
                        // to find a new one.
                        debug!(%error, "endpoint failed");
                    }
                }
            }

            // Select a new service by comparing two at random and using the
            // lesser-loaded service.
            self.ready_index = self.p2c_ready_index();
            if self.ready_index.is_none() {
                debug_assert_eq!(self.services.ready_len(), 0);
                // We have previously registered interest in updates from
                // discover and pending services.
                return Poll::Pending;
            }
        }
""","""        let mut candidate = self.ready_index.take();
        while let Some(index) = candidate.or_else(|| self.p2c_ready_index()) {
            if self.still_ready(cx, index) {
                self.ready_index = Some(index);
                return Poll::Ready(Ok(()));
            }
            candidate = None;
        }
        debug_assert_eq!(self.services.ready_len(), 0);
        Poll::Pending
"""),
(BS,"""    /// Performs P2C on inner services to find a suitable endpoint.
""","""    fn still_ready(&mut self, cx: &mut Context<'_>, index: usize) -> bool {
        self.services
            .check_ready_index(cx, index)
            .unwrap_or_else(|Failed(_, error)| {
                debug!(%error, "endpoint failed");
                false
            })
    }

    /// Performs P2C on inner services to find a suitable endpoint.
"""),
(BS,"""        loop {
            match self.services.poll_pending(cx) {
                Poll::Ready(Ok(())) => {
                    // There are no remaining pending services.
                    debug_assert_eq!(self.services.pending_len(), 0);
                    break;
                }
                Poll::Pending => {
                    // None of the pending services are ready.
                    debug_assert!(self.services.pending_len() > 0);
                    break;
                }
                Poll::Ready(Err(error)) => {
                    // An individual service was lost; continue processing
                    // pending services.
                    debug!(%error, "dropping failed endpoint");
                }
            }
        }
""","""        while let Poll::Ready(Err(error)) = self.services.poll_pending(cx) {
            // An individual service was lost; continue processing
            // pending services.
            debug!(%error, "dropping failed endpoint");
        }
"""),
(BS,"""                let aload = self.ready_index_load(aidx as usize);
                let bload = self.ready_index_load(bidx as usize);
                let chosen = if aload <= bload { aidx } else { bidx };
""","""                let [aload, bload] =
                    [aidx, bidx].map(|i| self.ready_index_load(i as usize));
                let chosen = match aload.partial_cmp(&bload) {
                    Some(std::cmp::Ordering::Less) | Some(std::cmp::Ordering::Equal) => aidx,
                    Some(std::cmp::Ordering::Greater) | None => bidx,
                };
"""),
# tps budget: the whole state under the lock
(TB,"""        let to_commit = self.writer.swap(0, Ordering::SeqCst);
        self.slots[gen.index].store(to_commit, Ordering::SeqCst);
""","""        let to_commit = self.writer.load(Ordering::SeqCst);
        self.writer.fetch_sub(to_commit, Ordering::SeqCst);
        self.slots[gen.index].swap(to_commit, Ordering::SeqCst);
"""),
(TB,"""        let current = self.writer.load(Ordering::SeqCst);
        let windowed_sum: isize = self
            .slots
            .iter()
            .map(|slot| slot.load(Ordering::SeqCst))
            // fold() is used instead of sum() to determine overflow behavior
            .fold(0, isize::saturating_add);

        current
            .saturating_add(windowed_sum)
            .saturating_add(self.reserve)
""","""        let mut total: isize = 0;
        for slot in self.slots.iter() {
            total = total.saturating_add(slot.load(Ordering::SeqCst));
        }
        self.reserve
            .saturating_add(total.saturating_add(self.writer.load(Ordering::SeqCst)))
"""),
(TB,"""        let windows = 10u32;
        let mut slots = Vec::with_capacity(windows as usize);
        for _ in 0..windows {
            slots.push(AtomicIsize::new(0));
        }
""","""        const WINDOWS: u32 = 10;
        let windows = WINDOWS;
        let slots: Vec<AtomicIsize> = (0..WINDOWS).map(|_| AtomicIsize::new(0)).collect();
"""),
# hedge
(SEL,"""        match (self.a.poll_ready(cx), self.b.poll_ready(cx)) {
            (Poll::Ready(Ok(())), Poll::Ready(Ok(()))) => Poll::Ready(Ok(())),
            (Poll::Ready(Err(e)), _) => Poll::Ready(Err(e.into())),
            (_, Poll::Ready(Err(e))) => Poll::Ready(Err(e.into())),
            _ => Poll::Pending,
        }
""","""        let a = self.a.poll_ready(cx).map_err(Into::into)?;
        let b = self.b.poll_ready(cx).map_err(Into::into)?;
        if a.is_ready() && b.is_ready() {
            Poll::Ready(Ok(()))
        } else {
            Poll::Pending
        }
"""),
(SEL,"""        let b_fut = if let Some(cloned_req) = self.policy.clone_request(&request) {
            Some(self.b.call(cloned_req))
        } else {
            None
        };
        ResponseFuture {
            a_fut: self.a.call(request),
            b_fut,
        }
""","""        let Self { policy, a, b } = self;
        let b_fut = policy.clone_request(&request).map(|req| b.call(req));
        let a_fut = a.call(request);
        ResponseFuture { a_fut, b_fut }
"""),
(SEL,"""        let this = self.project();

        if let Poll::Ready(r) = this.a_fut.poll(cx) {
            return Poll::Ready(Ok(r.map_err(Into::into)?));
        }
        if let Some(b_fut) = this.b_fut.as_pin_mut() {
            if let Poll::Ready(r) = b_fut.poll(cx) {
                return Poll::Ready(Ok(r.map_err(Into::into)?));
            }
        }
        Poll::Pending
""","""        let this = self.project();

        match (this.a_fut.poll(cx), this.b_fut.as_pin_mut()) {
            (Poll::Ready(r), _) => Poll::Ready(r.map_err(Into::into)),
            (Poll::Pending, Some(b_fut)) => b_fut.poll(cx).map(|r| r.map_err(Into::into)),
            (Poll::Pending, None) => Poll::Pending,
        }
"""),
(LAT,"""        let rsp = ready!(this.inner.poll(cx)).map_err(Into::into)?;
        let duration = Instant::now().saturating_duration_since(*this.start);
        this.rec.record(duration);
        Poll::Ready(Ok(rsp))
""","""        let res = ready!(this.inner.poll(cx));
        if res.is_ok() {
            this.rec.record(this.start.elapsed());
        }
        Poll::Ready(res.map_err(Into::into))
"""),
(RH,"""        if rotations >= 2 {
            trace!("Time since last rotation is {:?}.  clearing!", delta);
            self.clear();
        } else if rotations == 1 {
            trace!("Time since last rotation is {:?}. rotating!", delta);
            self.rotate();
        }
""","""        match rotations {
            0 => return,
            1 => self.rotate(),
            _ => self.clear(),
        }
"""),
(RH,"""        std::mem::swap(&mut self.read, &mut self.write);
        trace!("Rotated {:?} points into read", self.read.len());
        self.write.clear();
""","""        let Self { read, write, .. } = self;
        read.clear();
        std::mem::swap(read, write);
"""),
(HM,"""        let mut locked = self.lock().unwrap();
        locked.write().record(millis(latency)).unwrap_or_else(|e| {
            error!("Failed to write to hedge histogram: {:?}", e);
        })
""","""        let millis = millis(latency);
        let res = {
            let mut locked = self.lock().unwrap();
            locked.write().record(millis)
        };
        if let Err(e) = res {
            error!("Failed to write to hedge histogram: {:?}", e);
        }
"""),
# peak
(PE,"""        let this = self.project();
        let change = match ready!(this.discover.poll_discover(cx)).transpose()? {
            None => return Poll::Ready(None),
            Some(Change::Remove(k)) => Change::Remove(k),
            Some(Change::Insert(k, svc)) => {
                let peak_ewma = PeakEwma::new(
                    svc,
                    *this.default_rtt,
                    *this.decay_ns,
                    this.completion.clone(),
                );
                Change::Insert(k, peak_ewma)
            }
        };

        Poll::Ready(Some(Ok(change)))
""","""        let this = self.project();
        let (rtt, decay) = (*this.default_rtt, *this.decay_ns);
        let completion = this.completion;
        this.discover.poll_discover(cx).map(|item| {
            item.map(|res| {
                res.map(|change| match change {
                    Change::Remove(k) => Change::Remove(k),
                    Change::Insert(k, svc) => {
                        Change::Insert(k, PeakEwma::new(svc, rtt, decay, completion.clone()))
                    }
                })
            })
        })
"""),
# reconnect
(RE,"""        loop {
            match &mut self.state {
                State::Idle => {
                    trace!("poll_ready; idle");
                    match self.mk_service.poll_ready(cx) {
                        Poll::Ready(r) => r?,
                        Poll::Pending => {
                            trace!("poll_ready; MakeService not ready");
                            return Poll::Pending;
                        }
                    }

                    let fut = self.mk_service.make_service(self.target.clone());
                    self.state = State::Connecting(fut);
                    continue;
                }
                State::Connecting(ref mut f) => {
                    trace!("poll_ready; connecting");
                    match Pin::new(f).poll(cx) {
                        Poll::Ready(Ok(service)) => {
                            self.state = State::Connected(service);
                        }
                        Poll::Pending => {
                            trace!("poll_ready; not ready");
                            return Poll::Pending;
                        }
                        Poll::Ready(Err(e)) => {
                            trace!("poll_ready; error");
                            self.state = State::Idle;
                            self.error = Some(e);
                            break;
                        }
                    }
                }
                State::Connected(ref mut inner) => {
                    trace!("poll_ready; connected");
                    match inner.poll_ready(cx) {
                        Poll::Ready(Ok(())) => {
                            trace!("poll_ready; ready");
                            return Poll::Ready(Ok(()));
                        }
                        Poll::Pending => {
                            trace!("poll_ready; not ready");
                            return Poll::Pending;
                        }
                        Poll::Ready(Err(_)) => {
                            trace!("poll_ready; error");
                            self.state = State::Idle;
                        }
                    }
                }
            }
        }

        Poll::Ready(Ok(()))
""","""        loop {
            self.state = match std::mem::replace(&mut self.state, State::Idle) {
                State::Idle => match self.mk_service.poll_ready(cx) {
                    Poll::Pending => return Poll::Pending,
                    Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),
                    Poll::Ready(Ok(())) => {
                        State::Connecting(self.mk_service.make_service(self.target.clone()))
                    }
                },
                State::Connecting(mut f) => match Pin::new(&mut f).poll(cx) {
                    Poll::Ready(Ok(service)) => State::Connected(service),
                    Poll::Pending => {
                        self.state = State::Connecting(f);
                        return Poll::Pending;
                    }
                    Poll::Ready(Err(e)) => {
                        self.error = Some(e);
                        return Poll::Ready(Ok(()));
                    }
                },
                State::Connected(mut inner) => match inner.poll_ready(cx) {
                    Poll::Ready(Err(_)) => State::Idle,
                    res => {
                        self.state = State::Connected(inner);
                        return res.map(|_| Ok(()));
                    }
                },
            }
        }
"""),
]
