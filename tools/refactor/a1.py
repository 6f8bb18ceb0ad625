B='tower/src/balance/p2c/service.rs'
RC='tower/src/ready_cache/cache.rs'
EDITS=[
(B,"""        loop {
            match ready!(Pin::new(&mut self.discover).poll_discover(cx))
                .transpose()
                .map_err(|e| error::Discover(e.into()))?
            {
                None => {
                    self.discover_done = true;
                    return Poll::Ready(None);
                }
                Some(Change::Remove(key)) => {
                    trace!("remove");
                    self.services.evict(&key);
                }
                Some(Change::Insert(key, svc)) => {
                    trace!("insert");
                    // If this service already existed in the set, it will be
                    // replaced as the new one becomes ready.
                    self.services.push(key, svc);
                }
            }
        }
    }
""","""        while let Some(change) = ready!(Pin::new(&mut self.discover).poll_discover(cx)) {
            let change = match change {
                Ok(c) => c,
                Err(e) => return Poll::Ready(Some(Err(error::Discover(e.into())))),
            };
            self.apply_change(change);
        }
        self.discover_done = true;
        Poll::Ready(None)
    }

    fn apply_change(&mut self, change: Change<D::Key, D::Service>) {
        match change {
            Change::Insert(key, svc) => self.services.push(key, svc),
            Change::Remove(key) => {
                self.services.evict(&key);
            }
        }
    }
"""),
(B,"""        loop {
            match self.services.poll_pending(cx) {
                Poll::Ready(Ok(())) => {
                    // There are no remaining pending services.
                    debug_assert_eq!(self.services.pending_len(), 0);
                    break;
                }
                Poll::Pending => {
                    // None of the pending services are ready.
                    debug_assert!(self.services.pending_len() > 0);
                    break;
                }
                Poll::Ready(Err(error)) => {
                    // An individual service was lost; continue processing
                    // pending services.
                    debug!(%error, "dropping failed endpoint");
                }
            }
        }
""","""        // An individual service may be lost; continue processing the others.
        while let Poll::Ready(Err(error)) = self.services.poll_pending(cx) {
            debug!(%error, "dropping failed endpoint");
        }
"""),
(B,"""        match self.services.ready_len() {
            0 => None,
            1 => Some(0),
            len => {
                // Get two distinct random indexes (in a random order) and
                // compare the loads of the service at each index.
                let [aidx, bidx] = sample_floyd2(&mut self.rng, len as u64);
                debug_assert_ne!(aidx, bidx, "random indices must be distinct");

                let aload = self.ready_index_load(aidx as usize);
                let bload = self.ready_index_load(bidx as usize);
                let chosen = if aload <= bload { aidx } else { bidx };

                trace!(
                    a.index = aidx,
                    a.load = ?aload,
                    b.index = bidx,
                    b.load = ?bload,
                    chosen = if chosen == aidx { "a" } else { "b" },
                    "p2c",
                );
                Some(chosen as usize)
            }
        }
    }
""","""        let len = self.services.ready_len();
        if len < 2 {
            return len.checked_sub(1);
        }
        let picks = sample_floyd2(&mut self.rng, len as u64);
        let (aidx, bidx) = (picks[0] as usize, picks[1] as usize);
        Some(self.less_loaded(aidx, bidx))
    }

    fn less_loaded(&self, aidx: usize, bidx: usize) -> usize {
        let aload = self.ready_index_load(aidx);
        let bload = self.ready_index_load(bidx);
        if bload < aload { return bidx; }
        if aload <= bload { aidx } else { bidx }
    }
"""),
(B,"""            if let Some(index) = self.ready_index.take() {
                match self.services.check_ready_index(cx, index) {
                    Ok(true) => {
                        // The service remains ready.
                        self.ready_index = Some(index);
                        return Poll::Ready(Ok(()));
                    }
                    Ok(false) => {
                        // The service is no longer ready. Try to find a new one.
                        trace!("ready service became unavailable");
                    }
                    Err(Failed(_, error)) => {
                        // The ready endpoint failed, so log the error and try
                        // to find a new one.
                        debug!(%error, "endpoint failed");
                    }
                }
            }
""","""            if let Some(index) = self.ready_index {
                let still = self.services.check_ready_index(cx, index);
                if let Ok(true) = still {
                    return Poll::Ready(Ok(()));
                }
                self.ready_index = None;
                if let Err(Failed(_, error)) = still {
                    debug!(%error, "endpoint failed");
                }
            }
"""),
(B,"""        let index = self.ready_index.take().expect("called before ready");
        self.services
            .call_ready_index(index, request)
            .map_err(Into::into)
""","""        let Some(index) = std::mem::replace(&mut self.ready_index, None) else {
            panic!("called before ready")
        };
        let fut = self.services.call_ready_index(index, request);
        TryFutureExt::map_err(fut, Into::into)
"""),
(RC,"""        let canceled = if let Some(c) = self.pending_cancel_txs.swap_remove(key) {
            c.cancel();
            true
        } else {
            false
        };

        self.ready
            .swap_remove_full(key)
            .map(|_| true)
            .unwrap_or(canceled)
""","""        let was_ready = self.ready.swap_remove(key).is_some();
        let was_pending = self
            .pending_cancel_txs
            .swap_remove(key)
            .map(CancelTx::cancel)
            .is_some();
        was_ready || was_pending
"""),
(RC,"""        if let Some(c) = self.pending_cancel_txs.insert(key.clone(), cancel_tx) {
            // If there is already a service for this key, cancel it.
            c.cancel();
        }
        self.pending.push(Pending {
            key: Some(key),
            cancel: Some(cancel_rx),
            ready: Some(svc),
            _pd: std::marker::PhantomData,
        });
""","""        let prior = self.pending_cancel_txs.insert(key.clone(), cancel_tx);
        let fut = Pending {
            key: Some(key),
            cancel: Some(cancel_rx),
            ready: Some(svc),
            _pd: std::marker::PhantomData,
        };
        self.pending.push(fut);
        match prior {
            Some(c) => c.cancel(),
            None => {}
        }
"""),
(RC,"""            match Pin::new(&mut self.pending).poll_next(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(None) => return Poll::Ready(Ok(())),
                Poll::Ready(Some(Ok((key, svc, cancel_rx)))) => {
                    trace!("endpoint ready");
                    let cancel_tx = self.pending_cancel_txs.swap_remove(&key);
                    if let Some(cancel_tx) = cancel_tx {
                        // Keep track of the cancelation so that it need not be
                        // recreated after the service is used.
                        self.ready.insert(key, (svc, (cancel_tx, cancel_rx)));
                    } else {
                        assert!(
                            cancel_tx.is_some(),
                            "services that become ready must have a pending cancelation"
                        );
                    }
                }
                Poll::Ready(Some(Err(PendingError::Canceled(_)))) => {
                    debug!("endpoint canceled");
                    // The cancellation for this service was removed in order to
                    // cause this cancellation.
                }
                Poll::Ready(Some(Err(PendingError::Inner(key, e)))) => {
                    let cancel_tx = self.pending_cancel_txs.swap_remove(&key);
                    assert!(
                        cancel_tx.is_some(),
                        "services that return an error must have a pending cancelation"
                    );
                    return Err(error::Failed(key, e.into())).into();
                }
            }
""","""            let next = match self.pending.poll_next_unpin(cx) {
                Poll::Pending => return Poll::Pending,
                Poll::Ready(next) => next,
            };
            let Some(outcome) = next else { return Poll::Ready(Ok(())) };
            match outcome {
                Err(PendingError::Canceled(_)) => continue,
                Err(PendingError::Inner(key, e)) => {
                    self.pending_cancel_txs
                        .swap_remove(&key)
                        .expect("services that return an error must have a pending cancelation");
                    return Poll::Ready(Err(error::Failed(key, e.into())));
                }
                Ok((key, svc, cancel_rx)) => {
                    let cancel_tx = self
                        .pending_cancel_txs
                        .swap_remove(&key)
                        .expect("services that become ready must have a pending cancelation");
                    self.ready.insert(key, (svc, (cancel_tx, cancel_rx)));
                }
            }
"""),
(RC,"use futures_core::Stream;","use futures_util::StreamExt;"),
(RC,"""        match self.ready.get_full_mut(key) {
            Some((index, _, _)) => self.check_ready_index(cx, index),
            None => Ok(false),
        }
""","""        self.ready
            .get_index_of(key)
            .map_or(Ok(false), |index| self.check_ready_index(cx, index))
"""),
(RC,"""        let svc = match self.ready.get_index_mut(index) {
            None => return Ok(false),
            Some((_, (svc, _))) => svc,
        };
        match svc.poll_ready(cx) {
            Poll::Ready(Ok(())) => Ok(true),
            Poll::Pending => {
                // became unready; so move it back there.
                let (key, (svc, cancel)) = self
                    .ready
                    .swap_remove_index(index)
                    .expect("invalid ready index");

                // If a new version of this service has been added to the
                // unready set, don't overwrite it.
                if !self.pending_contains(&key) {
                    self.push_pending(key, svc, cancel);
                }

                Ok(false)
            }
            Poll::Ready(Err(e)) => {
                // failed, so drop it.
                let (key, _) = self
                    .ready
                    .swap_remove_index(index)
                    .expect("invalid ready index");
                Err(error::Failed(key, e.into()))
            }
        }
    }
""","""        let Some((_, (svc, _))) = self.ready.get_index_mut(index) else {
            return Ok(false);
        };
        let state = svc.poll_ready(cx);
        if matches!(state, Poll::Ready(Ok(()))) {
            return Ok(true);
        }
        let (key, (svc, cancel)) = self.take_ready(index);
        match state {
            Poll::Ready(Err(e)) => Err(error::Failed(key, e.into())),
            _ => {
                self.requeue(key, svc, cancel);
                Ok(false)
            }
        }
    }

    fn take_ready(&mut self, index: usize) -> (K, (S, CancelPair)) {
        self.ready
            .swap_remove_index(index)
            .expect("check_ready_index was not called")
    }

    fn requeue(&mut self, key: K, svc: S, cancel: CancelPair) {
        // If a new version of this service has been added to the
        // unready set, don't overwrite it.
        if self.pending_contains(&key) {
            return;
        }
        self.push_pending(key, svc, cancel)
    }
"""),
(RC,"""        let (index, _, _) = self
            .ready
            .get_full_mut(key)
            .expect("check_ready was not called");
        self.call_ready_index(index, req)
""","""        match self.ready.get_index_of(key) {
            Some(index) => self.call_ready_index(index, req),
            None => panic!("check_ready was not called"),
        }
"""),
(RC,"""        let (key, (mut svc, cancel)) = self
            .ready
            .swap_remove_index(index)
            .expect("check_ready_index was not called");

        let fut = svc.call(req);

        // If a new version of this service has been added to the
        // unready set, don't overwrite it.
        if !self.pending_contains(&key) {
            self.push_pending(key, svc, cancel);
        }

        fut
""","""        let (key, (mut svc, cancel)) = self.take_ready(index);
        let fut = svc.call(req);
        self.requeue(key, svc, cancel);
        fut
"""),
(RC,"""        let CancelRx(cancel) = this.cancel.as_mut().expect("polled after complete");
        if cancel.canceled.load(Ordering::SeqCst) {
            let key = this.key.take().expect("polled after complete");
            return Err(PendingError::Canceled(key)).into();
        }
""","""        let cancel = &this.cancel.as_ref().expect("polled after complete").0;
        if cancel.canceled.load(Ordering::Acquire) {
            let key = this.key.take().expect("polled after complete");
            return Poll::Ready(Err(PendingError::Canceled(key)));
        }
"""),
(RC,"        self.0.canceled.store(true, Ordering::SeqCst);","        self.0.canceled.swap(true, Ordering::AcqRel);"),
]
