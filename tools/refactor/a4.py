T='tower/src/'
TB=T+'retry/budget/tps_budget.rs'; BO=T+'retry/backoff.rs'; RN=T+'util/rng.rs'; PE=T+'load/peak_ewma.rs'; PR=T+'load/pending_requests.rs'; LC=T+'load/completion.rs'
EDITS=[
(TB,"""        let (deposit_amount, withdraw_amount) = if retry_percent == 0.0 {
            // If there is no percent, then you gain nothing from deposits.
            // Withdrawals can only be made against the reserve, over time.
            (0, 1)
        } else if retry_percent <= 1.0 {
            (1, (1.0 / retry_percent) as isize)
        } else {
            // Support for when retry_percent is between 1.0 and 1000.0,
            // meaning for every deposit D, D * retry_percent withdrawals
            // can be made.
            (1000, (1000.0 / retry_percent) as isize)
        };
        let reserve = (min_per_sec as isize)
            .saturating_mul(ttl.as_secs() as isize) // ttl is between 1 and 60 seconds
            .saturating_mul(withdraw_amount);

        // AtomicIsize isn't clone, so the slots need to be built in a loop...
        let windows = 10u32;
        let mut slots = Vec::with_capacity(windows as usize);
        for _ in 0..windows {
            slots.push(AtomicIsize::new(0));
        }
""","""        let (deposit_amount, withdraw_amount) = Self::amounts(retry_percent);
        let per_ttl = (min_per_sec as isize).saturating_mul(ttl.as_secs() as isize);
        let reserve = per_ttl.saturating_mul(withdraw_amount);

        let windows = 10u32;
        let slots: Vec<AtomicIsize> = (0..windows).map(|_| AtomicIsize::new(0)).collect();
"""),
(TB,"""    fn expire(&self) -> MutexGuard<'_, Generation> {
        let mut gen = self.generation.lock().expect("generation lock");

        let now = Instant::now();
        let diff = now.saturating_duration_since(gen.time);
        if diff < self.window {
            // not expired yet
            return gen;
        }

        let to_commit = self.writer.swap(0, Ordering::SeqCst);
        self.slots[gen.index].store(to_commit, Ordering::SeqCst);

        // Move on by as many slots as whole windows have passed, and keep the
        // rest of the time for the window that is now current, or else deposits
        // expire before their ttl has passed.
        let mut diff = diff - self.window;
        let mut time = gen.time + self.window;
        let mut idx = (gen.index + 1) % self.slots.len();
        while diff >= self.window {
            self.slots[idx].store(0, Ordering::SeqCst);
            diff -= self.window;
            time += self.window;
            idx = (idx + 1) % self.slots.len();
        }

        gen.index = idx;
        gen.time = time;
        gen
    }
""","""    fn amounts(retry_percent: f32) -> (isize, isize) {
        if retry_percent > 1.0 {
            return (1000, (1000.0 / retry_percent) as isize);
        }
        if retry_percent == 0.0 {
            return (0, 1);
        }
        (1, (1.0 / retry_percent) as isize)
    }

    fn next(&self, index: usize) -> usize {
        if index + 1 == self.slots.len() {
            0
        } else {
            index + 1
        }
    }

    fn expire(&self) -> MutexGuard<'_, Generation> {
        let mut gen = self.generation.lock().expect("generation lock");
        let now = Instant::now();
        let mut first = true;
        while now.saturating_duration_since(gen.time) >= self.window {
            let value = if first { self.writer.swap(0, Ordering::SeqCst) } else { 0 };
            self.slots[gen.index].store(value, Ordering::SeqCst);
            gen.time += self.window;
            gen.index = self.next(gen.index);
            first = false;
        }
        gen
    }
"""),
(TB,"""        let current = self.writer.load(Ordering::SeqCst);
        let windowed_sum: isize = self
            .slots
            .iter()
            .map(|slot| slot.load(Ordering::SeqCst))
            // fold() is used instead of sum() to determine overflow behavior
            .fold(0, isize::saturating_add);

        current
            .saturating_add(windowed_sum)
            .saturating_add(self.reserve)
""","""        let mut total: isize = 0;
        for slot in self.slots.iter() {
            total = total.saturating_add(slot.load(Ordering::SeqCst));
        }
        total = total.saturating_add(self.writer.load(Ordering::SeqCst));
        total.saturating_add(self.reserve)
"""),
(TB,"""        let _gen = self.expire();

        let sum = self.sum();
        if sum >= amt {
            self.writer.fetch_add(-amt, Ordering::SeqCst);
            true
        } else {
            false
        }
""","""        let gen = self.expire();
        let enough = amt <= self.sum();
        if enough {
            self.writer.fetch_sub(amt, Ordering::SeqCst);
        }
        drop(gen);
        enough
"""),
(TB,"""        drop(self.expire());
        self.writer.fetch_add(amt, Ordering::SeqCst);
""","""        let _gen = self.expire();
        self.writer.fetch_add(amt, Ordering::SeqCst);
"""),
(BO,"""        if min > max {
            return Err(InvalidBackoff("maximum must not be less than minimum"));
        }
        if max == time::Duration::from_millis(0) {
            return Err(InvalidBackoff("maximum must be non-zero"));
        }
        if jitter < 0.0 {
            return Err(InvalidBackoff("jitter must not be negative"));
        }
        if jitter > 100.0 {
            return Err(InvalidBackoff("jitter must not be greater than 100"));
        }
        if !jitter.is_finite() {
            return Err(InvalidBackoff("jitter must be finite"));
        }

        Ok(ExponentialBackoffMaker {
            min,
            max,
            jitter,
            rng,
        })
""","""        let problem = if max < min {
            "maximum must not be less than minimum"
        } else if max.is_zero() {
            "maximum must be non-zero"
        } else if jitter < 0.0 {
            "jitter must not be negative"
        } else if jitter > 100.0 {
            "jitter must not be greater than 100"
        } else if !jitter.is_finite() {
            "jitter must be finite"
        } else {
            return Ok(ExponentialBackoffMaker { min, max, jitter, rng });
        };
        Err(InvalidBackoff(problem))
"""),
(BO,"""        self.min
            .checked_mul(2_u32.saturating_pow(self.iterations))
            .unwrap_or(self.max)
            .min(self.max)
""","""        let factor = 2_u32.saturating_pow(self.iterations);
        match self.min.checked_mul(factor) {
            Some(d) if d <= self.max => d,
            _ => self.max,
        }
"""),
(BO,"""        if self.jitter == 0.0 {
            time::Duration::default()
        } else {
            let jitter_factor = self.rng.next_f64();
            debug_assert!(
                jitter_factor >= 0.0,
                "rng returns values between 0.0 and 1.0"
            );
            let rand_jitter = jitter_factor * self.jitter;
            let secs = (base.as_secs() as f64) * rand_jitter;
            let nanos = (base.subsec_nanos() as f64) * rand_jitter;
            let remaining = self.max - base;
            time::Duration::new(secs as u64, nanos as u32).min(remaining)
        }
""","""        if self.jitter == 0.0 {
            return time::Duration::ZERO;
        }
        let remaining = self.max - base;
        let rand_jitter = self.jitter * self.rng.next_f64();
        let secs = (rand_jitter * base.as_secs() as f64) as u64;
        let nanos = (rand_jitter * f64::from(base.subsec_nanos())) as u32;
        std::cmp::min(time::Duration::new(secs, nanos), remaining)
"""),
(BO,"""        let base = self.base();
        let next = base + self.jitter(base);

        self.iterations += 1;

        tokio::time::sleep(next)
""","""        let mut delay = self.base();
        delay += self.jitter(delay);
        self.iterations = self.iterations + 1;
        tokio::time::sleep(delay)
"""),
(RN,"""        let float_size = std::mem::size_of::<f64>() as u32 * 8;
        let precision = 52 + 1;
        let scale = 1.0 / ((1u64 << precision) as f64);

        let value = self.next_u64();
        let value = value >> (float_size - precision);

        scale * value as f64
""","""        const BITS: u32 = 53;
        let value = self.next_u64() >> (u64::BITS - BITS);
        value as f64 / (1u64 << BITS) as f64
"""),
(RN,"""        let start = range.start;
        let end = range.end;

        let range = end - start;

        let n = self.next_u64();

        (n % range) + start
""","""        let Range { start, end } = range;
        let offset = self.next_u64() % (end - start);
        start + offset
"""),
(RN,"""    let aidx = rng.next_range(0..length - 1);
    let bidx = rng.next_range(0..length);
    let aidx = if aidx == bidx { length - 1 } else { aidx };
    [aidx, bidx]
""","""        let last = length - 1;
        let mut aidx = rng.next_range(0..last);
        let bidx = rng.next_range(0..length);
        if bidx == aidx {
            aidx = last;
        }
        [aidx, bidx]
"""),
(PE,"""        let pending = Arc::strong_count(&self.rtt_estimate) as u32 - 1;

        // Update the RTT estimate to account for decay since the last update.
        // If an estimate has not been established, a default is provided
        let estimate = self.update_estimate();

        let cost = Cost(estimate * f64::from(pending + 1));
""","""        let estimate = self.update_estimate();
        // every pending request holds a reference, and so does `self`
        let holders = Arc::strong_count(&self.rtt_estimate) as u32;
        let pending = holders - 1;
        let cost = Cost(f64::from(holders) * estimate);
"""),
(PE,"""        let rtt = nanos(recv_at.saturating_duration_since(sent_at));

        let now = Instant::now();
        debug_assert!(
            self.update_at <= now,
            "update_at={:?} in the future",
            self.update_at
        );

        self.rtt_ns = if self.rtt_ns < rtt {
            // For Peak-EWMA, always use the worst-case (peak) value as the estimate for
            // subsequent requests.
            trace!(
                "update peak rtt={}ms prior={}ms",
                rtt / NANOS_PER_MILLI,
                self.rtt_ns / NANOS_PER_MILLI,
            );
            rtt
        } else {
            // When an RTT is observed that is less than the estimated RTT, we decay the
            // prior estimate according to how much time has elapsed since the last
            // update. The inverse of the decay is used to scale the estimate towards the
            // observed RTT value.
            let elapsed = nanos(now.saturating_duration_since(self.update_at));
            let decay = (-elapsed / decay_ns).exp();
            let recency = 1.0 - decay;
            let next_estimate = (self.rtt_ns * decay) + (rtt * recency);
            trace!(
                "update rtt={:03.0}ms decay={:06.0}ns; next={:03.0}ms",
                rtt / NANOS_PER_MILLI,
                self.rtt_ns - next_estimate,
                next_estimate / NANOS_PER_MILLI,
            );
            next_estimate
        };
        self.update_at = now;

        self.rtt_ns
""","""        let rtt = nanos(recv_at.saturating_duration_since(sent_at));
        let now = Instant::now();
        let since = std::mem::replace(&mut self.update_at, now);
        if rtt > self.rtt_ns {
            self.rtt_ns = rtt;
            return rtt;
        }
        let weight = (-(nanos(now.saturating_duration_since(since)) / decay_ns)).exp();
        self.rtt_ns = rtt + (self.rtt_ns - rtt) * weight;
        self.rtt_ns
"""),
(PE,"""        if let Ok(mut rtt) = self.rtt_estimate.lock() {
            rtt.update(self.sent_at, recv_at, self.decay_ns);
        }
""","""        let Self { sent_at, decay_ns, rtt_estimate } = self;
        match rtt_estimate.lock() {
            Ok(mut rtt) => {
                rtt.update(*sent_at, recv_at, *decay_ns);
            }
            Err(_) => {}
        }
"""),
(PE,"""        let change = match ready!(this.discover.poll_discover(cx)).transpose()? {
            None => return Poll::Ready(None),
            Some(Change::Remove(k)) => Change::Remove(k),
            Some(Change::Insert(k, svc)) => {
                let peak_ewma = PeakEwma::new(
                    svc,
                    *this.default_rtt,
                    *this.decay_ns,
                    this.completion.clone(),
                );
                Change::Insert(k, peak_ewma)
            }
        };

        Poll::Ready(Some(Ok(change)))
""","""        let (default_rtt, decay_ns, completion) = (*this.default_rtt, *this.decay_ns, this.completion);
        let next = ready!(this.discover.poll_discover(cx));
        Poll::Ready(next.map(|r| {
            r.map(|change| match change {
                Change::Insert(k, svc) => Change::Insert(
                    k,
                    PeakEwma::new(svc, default_rtt, decay_ns, completion.clone()),
                ),
                Change::Remove(k) => Change::Remove(k),
            })
        }))
"""),
(PE,"""        TrackCompletionFuture::new(
            self.completion.clone(),
            self.handle(),
            self.service.call(req),
        )
""","""        let completion = self.completion.clone();
        let handle = self.handle();
        let fut = self.service.call(req);
        TrackCompletionFuture::new(completion, handle, fut)
"""),
(PR,"""        Count(self.ref_count.ref_count() - 1)
""","""        let all = self.ref_count.ref_count();
        Count(all.saturating_sub(1))
"""),
(PR,"""        let change = match ready!(this.discover.poll_discover(cx)).transpose()? {
            None => return Poll::Ready(None),
            Some(Insert(k, svc)) => Insert(k, PendingRequests::new(svc, this.completion.clone())),
            Some(Remove(k)) => Remove(k),
        };

        Poll::Ready(Some(Ok(change)))
""","""        match ready!(this.discover.poll_discover(cx)) {
            None => Poll::Ready(None),
            Some(Err(e)) => Poll::Ready(Some(Err(e))),
            Some(Ok(Remove(k))) => Poll::Ready(Some(Ok(Remove(k)))),
            Some(Ok(Insert(k, svc))) => {
                let completion = this.completion.clone();
                Poll::Ready(Some(Ok(Insert(k, PendingRequests::new(svc, completion)))))
            }
        }
"""),
(LC,"""        let rsp = ready!(this.future.poll(cx))?;
        let h = this.handle.take().expect("handle");
        Poll::Ready(Ok(this.completion.track_completion(h, rsp)))
""","""        let this = this;
        let (future, handle, completion) = (this.future, this.handle, this.completion);
        future.poll(cx).map(|res| {
            res.map(|rsp| {
                let h = handle.take().expect("handle");
                completion.track_completion(h, rsp)
            })
        })
"""),
]
