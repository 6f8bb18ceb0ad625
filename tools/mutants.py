"""hand-written mutants (name, file, old, new, checks expected to notice)"""
T = 'tower/src/'
B = T + 'balance/p2c/service.rs'
RC = T + 'ready_cache/cache.rs'
M = [
 ('bal-swap-load', B, 'if aload <= bload { aidx } else { bidx }', 'if aload <= bload { bidx } else { aidx }', 'C18'),
 ('bal-no-evict', B, 'self.services.evict(&key);', '', 'C18'),
 ('bal-break-early', B, "                    debug!(%error, \"dropping failed endpoint\");", "                    debug!(%error, \"dropping failed endpoint\");\n                    break;", 'C18 C02'),
 ('bal-pending-drop-idx', B, "self.ready_index = Some(index);\n                        return", "return", 'C18 C03'),
 ('bal-nocheck', B, "            self.ready_index = self.p2c_ready_index();\n            if self.ready_index.is_none() {", "            self.ready_index = self.p2c_ready_index();\n            if self.ready_index.is_some() && self.services.ready_len() > 1 { return Poll::Ready(Ok(())); }\n            if self.ready_index.is_none() {", 'C18 C01'),
 ('bal-err-hide', B, 'let _ = self.update_pending_from_discover(cx)?;', 'let _ = self.update_pending_from_discover(cx);', 'C18'),
 ('bal-first', B, "            0 => None,\n            1 => Some(0),", "            0 => None,\n            1 | 2 => Some(0),", 'C18'),
 ('bal-failed-surface', B, "                        debug!(%error, \"endpoint failed\");", "                        debug!(%error, \"endpoint failed\");\n                        return Poll::Ready(Err(error));", 'C18'),
 ('bal-idle-skip-promote', B, "        self.promote_pending_to_ready(cx);\n", "        if self.ready_index.is_none() { self.promote_pending_to_ready(cx); }\n", 'C18 C02'),
 ('rc-no-cancel', RC, "            // If there is already a service for this key, cancel it.\n            c.cancel();", "            drop(c);", 'C19 C18 C02'),
 ('rc-evict-shortcircuit', RC, "            c.cancel();\n            true\n        } else {", "            c.cancel();\n            return true;\n        } else {", 'C19 C18 C02'),
 ('rc-requeue-always', RC, "        // unready set, don't overwrite it.\n        if !self.pending_contains(&key) {", "        // unready set, don't overwrite it.\n        {", 'C19 C18 C02'),
 ('rc-nowake', RC, "        self.0.waker.wake();\n", "", 'C19 C18 C02'),
 ('rc-noregister', RC, "                cancel.waker.register(cx.waker());\n", "", 'C19 C18 C02'),
 ('rc-pending-drop', RC, "                if !self.pending_contains(&key) {\n                    self.push_pending(key, svc, cancel);\n                }\n\n                Ok(false)", "                if self.pending_contains(&key) {\n                    self.push_pending(key, svc, cancel);\n                }\n\n                Ok(false)", 'C19 C18 C02'),
 ('rc-ready-len', RC, "        self.ready_len() + self.pending_len()", "        self.ready_len()", 'C19'),
 ('rc-checkidx', RC, "            Some((index, _, _)) => self.check_ready_index(cx, index),", "            Some(_) => self.check_ready_index(cx, 0),", 'C19'),
 ('rc-err-keep', RC, "                let (key, _) = self\n                    .ready\n                    .swap_remove_index(index)\n                    .expect(\"invalid ready index\");\n                Err(", "                let key = self.ready.get_index(index).map(|_| ()).and_then(|_| self.ready.swap_remove_index(self.ready.len() - 1)).expect(\"invalid ready index\").0;\n                Err(", 'C19'),
 ('rc-evict-ready-only', RC, "        self.ready\n            .swap_remove_full(key)\n            .map(|_| true)\n            .unwrap_or(canceled)", "        if canceled { return true; }\n        self.ready\n            .swap_remove_full(key)\n            .map(|_| true)\n            .unwrap_or(canceled)", 'C19'),
 ('rc-cancel-error', RC, "                Poll::Ready(Some(Err(PendingError::Canceled(_)))) => {\n", "                Poll::Ready(Some(Err(PendingError::Canceled(_)))) => {\n                    if self.pending.is_empty() { return Poll::Pending; }\n", 'C19 C02'),
] + [(n, T + 'retry/backoff.rs', o, w, 'rule:backoff') for n, o, w in [
 ('bo-nocap', '            .unwrap_or(self.max)\n            .min(self.max)', '            .unwrap_or(self.max)'),
 ('bo-base3', '2_u32.saturating_pow', '3_u32.saturating_pow'),
 ('bo-jit-nomin', 'time::Duration::new(secs as u64, nanos as u32).min(remaining)', '{ let _ = remaining; time::Duration::new(secs as u64, nanos as u32) }'),
 ('bo-jit-max', 'time::Duration::new(secs as u64, nanos as u32).min(remaining)', '{ let _ = remaining; time::Duration::new(secs as u64, nanos as u32).min(self.max) }'),
 ('bo-iter-first', '        let base = self.base();\n        let next = base + self.jitter(base);\n\n        self.iterations += 1;', '        self.iterations += 1;\n        let base = self.base();\n        let next = base + self.jitter(base);\n'),
 ('bo-noiter', '        self.iterations += 1;\n', ''),
 ('bo-unwrapmin', '.unwrap_or(self.max)', '.unwrap_or(self.min)'),
 ('bo-jit-noscale', 'let rand_jitter = jitter_factor * self.jitter;', 'let rand_jitter = jitter_factor;'),
 ('bo-jit-norand', 'let rand_jitter = jitter_factor * self.jitter;', 'let rand_jitter = if jitter_factor > 2.0 { 0.0 } else { self.jitter };'),
 ('bo-nanos-lost', 'let nanos = (base.subsec_nanos() as f64) * rand_jitter;', 'let nanos = (base.subsec_nanos() as f64) * self.jitter;'),
 ('bo-valid-max0', 'if max == time::Duration::from_millis(0) {', 'if max == time::Duration::from_millis(0) && min != max {'),
 ('bo-valid-swap', 'if min > max {', 'if min >= max {'),
 ('bo-valid-nan', '        if !jitter.is_finite() {', '        if jitter.is_infinite() {'),
 ('bo-valid-100', 'if jitter > 100.0 {', 'if jitter >= 100.0 {'),
 ('bo-swap-minmax', '            max: self.max,\n            min: self.min,', '            max: self.min,\n            min: self.max,'),
 ('bo-start1', '            iterations: 0,', '            iterations: 1,'),
 ('bo-wait-more', 'tokio::time::sleep(next)', 'tokio::time::sleep(next + self.min)'),
 ('bo-OK-letmin', '            .unwrap_or(self.max)\n            .min(self.max)', '            .map_or(self.max, |d| if d > self.max { self.max } else { d })'),
 ('bo-OK-match', '        self.min\n            .checked_mul(2_u32.saturating_pow(self.iterations))\n            .unwrap_or(self.max)\n            .min(self.max)', '        let factor = 2_u32.saturating_pow(self.iterations);\n        match self.min.checked_mul(factor) { Some(d) if d < self.max => d, _ => self.max }'),
 ('bo-OK-sum', '        let next = base + self.jitter(base);', '        let jitter = self.jitter(base);\n        let next = (base + jitter).min(self.max);'),
 ('bo-OK-range', '        if jitter < 0.0 {\n', '        if !(jitter >= 0.0) {\n'),
 ('bo-OK-mulf64', '            let secs = (base.as_secs() as f64) * rand_jitter;\n            let nanos = (base.subsec_nanos() as f64) * rand_jitter;\n            let remaining = self.max - base;\n            time::Duration::new(secs as u64, nanos as u32).min(remaining)', '            base.mul_f64(rand_jitter).min(self.max - base)'),
 ('bo-OK-jitlt', '        if self.jitter == 0.0 {', '        if self.jitter <= 0.0 {'),
]] + [(n, T + 'retry/budget/tps_budget.rs', o, w, 'rule:tps_budget') for n, o, w in [
 ('tps-nolock', '        let _gen = self.expire();\n', '        drop(self.expire());\n'),
 ('tps-gt', '        if sum >= amt {', '        if sum > amt {'),
 ('tps-nodebit-lt', 'self.writer.fetch_add(-amt, Ordering::SeqCst);', 'self.writer.fetch_sub(-amt, Ordering::SeqCst);'),
 ('tps-double-writer', '            .saturating_add(self.reserve)', '            .saturating_add(current).saturating_add(self.reserve)'),
 ('tps-skip-slot', '            .iter()\n            .map(|slot| slot', '            .iter()\n            .skip(1)\n            .map(|slot| slot'),
 ('tps-no-zero', '            self.slots[idx].store(0, Ordering::SeqCst);\n', ''),
 ('tps-no-loop', '        while diff >= self.window {', '        while diff >= self.window && false {'),
 ('tps-loop-gt-OK', '        while diff >= self.window {', '        while diff > self.window {'),
 ('tps-drift', '        gen.time = time;\n', '        gen.time = now;\n'),
 ('tps-diff-first', 'let mut diff = diff - self.window;', 'let mut diff = diff;'),
 ('tps-time-nostep', '            time += self.window;\n', ''),
 ('tps-time-step2', 'let mut time = gen.time + self.window;', 'let mut time = gen.time;'),
 ('tps-zero-next', '            self.slots[idx].store(0, Ordering::SeqCst);\n            diff -= self.window;\n            time += self.window;\n            idx = (idx + 1) % self.slots.len();', '            diff -= self.window;\n            time += self.window;\n            idx = (idx + 1) % self.slots.len();\n            self.slots[idx].store(0, Ordering::SeqCst);'),
 ('tps-commit-late', 'self.slots[gen.index].store(to_commit, Ordering::SeqCst);', 'self.slots[(gen.index + 1) % self.slots.len()].store(to_commit, Ordering::SeqCst);'),
 ('tps-slots9', 'for _ in 0..windows {', 'for _ in 1..windows {'),
 ('tps-slots5', 'for _ in 0..windows {', 'for _ in 0..windows / 2 {'),
 ('tps-rsv-millis', 'ttl.as_secs() as isize', 'ttl.subsec_millis() as isize'),
 ('tps-sum-reserve-twice', 'current\n            .saturating_add(windowed_sum)', 'current.saturating_add(self.reserve)\n            .saturating_add(windowed_sum)'),
 ('tps-OK-divloop', '        let mut diff = diff - self.window;\n        let mut time = gen.time + self.window;\n        let mut idx = (gen.index + 1) % self.slots.len();\n        while diff >= self.window {\n            self.slots[idx].store(0, Ordering::SeqCst);\n            diff -= self.window;\n            time += self.window;\n            idx = (idx + 1) % self.slots.len();\n        }\n', '        let n = (diff.as_nanos() / self.window.as_nanos()) as u32;\n        let len = self.slots.len();\n        for k in 1..(n as usize).min(len) {\n            self.slots[(gen.index + k) % len].store(0, Ordering::SeqCst);\n        }\n        if n as usize > len { self.slots[gen.index].store(0, Ordering::SeqCst); }\n        let time = gen.time + self.window * n;\n        let idx = (gen.index + n as usize) % len;\n'),
 ('tps-OK-helper', '            self.slots[idx].store(0, Ordering::SeqCst);\n', '            if let Some(slot) = self.slots.get(idx) { slot.store(0, Ordering::SeqCst); }\n'),
 ('tps-noreset', 'self.writer.swap(0, Ordering::SeqCst)', 'self.writer.load(Ordering::SeqCst)'),
 ('tps-idx-stuck', '        gen.index = idx;\n', ''),
 ('tps-time-stuck', '        gen.time = time;\n', ''),
 ('tps-reserve-nowd', '            .saturating_mul(withdraw_amount);', '            .saturating_mul(deposit_amount);'),
 ('tps-window', 'window: ttl / windows,', 'window: ttl,'),
 ('tps-ratio', '(1000, (1000.0 / retry_percent) as isize)', '(1000, (100.0 / retry_percent) as isize)'),
 ('tps-zero-pct', '(0, 1)\n', '(1, 1)\n'),
 ('tps-ttl-assert', 'assert!(ttl <= Duration::from_secs(60));', 'assert!(ttl < Duration::from_secs(60));'),
 ('tps-swap-amounts', 'self.put(self.deposit_amount)', 'self.put(self.withdraw_amount)'),
 ('tps-deposit-noexpire', '        drop(self.expire());\n', ''),
 ('tps-expire-le', 'if diff < self.window {', 'if diff <= self.window + self.window {'),
 ('tps-commit-add', 'self.slots[gen.index].store(to_commit, Ordering::SeqCst);', 'self.slots[gen.index].fetch_add(to_commit, Ordering::SeqCst);'),
 ('tps-OK-forloop', '        let windowed_sum: isize = self\n            .slots\n            .iter()\n            .map(|slot| slot.load(Ordering::SeqCst))\n            // fold() is used instead of sum() to determine overflow behavior\n            .fold(0, isize::saturating_add);\n', '        let mut windowed_sum: isize = 0;\n        for slot in self.slots.iter() {\n            windowed_sum = windowed_sum.saturating_add(slot.load(Ordering::SeqCst));\n        }\n'),
 ('tps-OK-early', '        if sum >= amt {\n            self.writer.fetch_add(-amt, Ordering::SeqCst);\n            true\n        } else {\n            false\n        }', '        if sum < amt {\n            return false;\n        }\n        self.writer.fetch_sub(amt, Ordering::SeqCst);\n        true'),
 ('tps-OK-time-first', '        gen.index = idx;\n        gen.time = time;\n', '        gen.time = time;\n        gen.index = idx;\n'),
]]

M += [(n, T + 'util/rng.rs', o, w, 'rule:random') for n, o, w in [
 ('rng-f64-OK', 'let precision = 52 + 1;', 'let precision = 52;'),
 ('rng-f64-incl', 'let scale = 1.0 / ((1u64 << precision) as f64);', 'let scale = 1.0 / (((1u64 << precision) - 1) as f64);'),
 ('rng-range-incl', 'let range = end - start;', 'let range = end - start + 1;'),
 ('rng-range-nostart', '(n % range) + start', '(n % end) + start'),
 ('rng-floyd-noswap', 'let aidx = if aidx == bidx { length - 1 } else { aidx };', 'let aidx = if aidx == bidx { (length - 1).min(aidx) } else { aidx };'),
 ('rng-floyd-range-OK', 'let bidx = rng.next_range(0..length);', 'let bidx = rng.next_range(0..length - 1);'),
 ('rng-floyd-order', 'let aidx = rng.next_range(0..length - 1);', 'let aidx = rng.next_range(0..length);'),
 ('rng-OK', '[aidx, bidx]\n', '[bidx, aidx]\n'),
 ('rng-OK2', '(n % range) + start', 'start + n % (range)'),
]]
M += [('bo-jit0', T + 'retry/backoff.rs', 'jitter_factor >= 0.0,', 'jitter_factor > 0.0,', 'rule:backoff')] + [(n, T + 'load/' + f, o, w, 'C20') for n, f, o, w in [
 ('ld-count', 'pending_requests.rs', 'self.ref_count.ref_count() - 1)', 'self.ref_count.ref_count())'),
 ('ld-count-OK', 'pending_requests.rs', 'Count(self.ref_count.ref_count() - 1)', '{ let n = self.ref_count.ref_count(); Count(n.saturating_sub(1)) }'),
 ('ld-forget', 'completion.rs', '        drop(handle);\n', '        std::mem::forget(handle);\n'),
 ('ld-newhandle', 'pending_requests.rs', 'Handle(self.ref_count.clone())', 'Handle(RefCount::default())'),
 ('ld-pollhandle', 'completion.rs', "        let rsp = ready!(this.future.poll(cx))?;\n        let h = this.handle.take().expect(\"handle\");", "        let h = this.handle.take();\n        let rsp = ready!(this.future.poll(cx))?;\n        let h = h.expect(\"handle\");"),
 ('ld-take-OK', 'completion.rs', "        let rsp = ready!(this.future.poll(cx))?;\n        let h = this.handle.take().expect(\"handle\");\n        Poll::Ready(Ok(this.completion.track_completion(h, rsp)))", "        match ready!(this.future.poll(cx)) {\n            Ok(rsp) => { let h = this.handle.take().expect(\"handle\"); Poll::Ready(Ok(this.completion.track_completion(h, rsp))) }\n            Err(e) => { drop(this.handle.take()); Poll::Ready(Err(e)) }\n        }"),
 ('pk-noplus', 'peak_ewma.rs', 'f64::from(pending + 1)', 'f64::from(pending.max(1))'),
 ('pk-pending', 'peak_ewma.rs', 'as u32 - 1;', 'as u32;'),
 ('pk-order-OK', 'peak_ewma.rs', 'let cost = Cost(estimate * f64::from(pending + 1));', 'let cost = Cost(f64::from(1 + pending) * estimate);'),
 ('pk-swap', 'peak_ewma.rs', '(self.rtt_ns * decay) + (rtt * recency)', '(self.rtt_ns * recency) + (rtt * decay)'),
 ('pk-alt-OK', 'peak_ewma.rs', '(self.rtt_ns * decay) + (rtt * recency)', '{ let _ = recency; rtt + (self.rtt_ns - rtt) * decay }'),
 ('pk-sign', 'peak_ewma.rs', '(-elapsed / decay_ns).exp()', '(elapsed / -decay_ns).exp().min(1.0)'),
 ('pk-noupd', 'peak_ewma.rs', '        self.update_at = now;\n', '        self.update_at = recv_at;\n'),
 ('pk-upd-inelse', 'peak_ewma.rs', "            next_estimate\n        };\n        self.update_at = now;\n", "            self.update_at = now;\n            next_estimate\n        };\n"),
 ('pk-peak-no', 'peak_ewma.rs', 'self.rtt_ns = if self.rtt_ns < rtt {', 'self.rtt_ns = if self.rtt_ns > rtt {'),
 ('pk-le-OK', 'peak_ewma.rs', 'self.rtt_ns = if self.rtt_ns < rtt {', 'self.rtt_ns = if rtt > self.rtt_ns {'),
 ('pk-sent', 'peak_ewma.rs', 'rtt.update(self.sent_at, recv_at, self.decay_ns);', 'rtt.update(recv_at, recv_at, self.decay_ns);'),
 ('pk-nanos', 'peak_ewma.rs', "    n + s\n", "    s\n"),
 ('pk-nanos-OK', 'peak_ewma.rs', "    let n = f64::from(d.subsec_nanos());\n    let s = d.as_secs().saturating_mul(NANOS_PER_SEC) as f64;\n    n + s\n", "    let _ = NANOS_PER_SEC;\n    d.as_nanos() as f64\n"),
 ('pk-disc', 'peak_ewma.rs', "                    *this.default_rtt,\n                    *this.decay_ns,\n", "                    Duration::from_nanos(*this.decay_ns as u64),\n                    nanos(*this.default_rtt),\n"),
 ('pk-decayhandle', 'peak_ewma.rs', "        rtt.decay(self.decay_ns)\n", "        let now = Instant::now(); rtt.update(rtt.update_at, now, self.decay_ns)\n"),
]] + [(n, f, o, w, c) for n, f, o, w, c in [
 ('ly-stack', 'tower-layer/src/stack.rs', "        let inner = self.inner.layer(service);\n\n        self.outer.layer(inner)", "        let inner = self.outer.layer(service);\n\n        self.inner.layer(inner)", 'C25'),
 ('ly-tuple5', 'tower-layer/src/tuple.rs', "let (l1, l2, l3, l4, l5) = self;", "let (l1, l2, l3, l5, l4) = self;", 'C25'),
 ('ly-retry', T + 'builder/mod.rs', "self.layer(crate::limit::RateLimitLayer::new(num, per))", "self.layer(crate::limit::RateLimitLayer::new(num.max(1), per))", 'C25'),
 ('ly-optnone', T + 'util/mod.rs', "    fn then<F, Response, Error, Fut>(self, f: F) -> Then<Self, F>", "    fn then<F, Response, Error, Fut>(self, f: F) -> Then<Self, F>", 'C25'),
 ('ly-globalnew', T + 'limit/concurrency/layer.rs', "ConcurrencyLimit::with_semaphore(service, self.semaphore.clone())", "ConcurrencyLimit::new(service, self.semaphore.available_permits())", 'C25 C11'),
 ('ly-afilter', T + 'filter/mod.rs', "    pub fn layer(predicate: U) -> AsyncFilterLayer<U> {\n        AsyncFilterLayer::new(predicate)", "    pub fn layer(predicate: U) -> FilterLayer<U> {\n        FilterLayer::new(predicate)", 'C25'),
 ('ly-inline-OK', 'tower-layer/src/stack.rs', "        let inner = self.inner.layer(service);\n\n        self.outer.layer(inner)", "        let Stack { inner, outer } = self;\n        outer.layer(inner.layer(service))", 'C25'),
 ('ly-boxclone-OK', T + 'util/boxed/layer_clone.rs', "let out = inner_layer.layer(inner);\n            BoxCloneService::new(out)", "BoxCloneService::new(inner_layer.layer(inner))", 'C25'),
 ('mk-shared-swap', T + 'make/make_service/shared.rs', "    type Future = SharedFuture<S>;\n\n    fn poll_ready(&mut self, _cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {\n        Poll::Ready(Ok(()))", "    type Future = SharedFuture<S>;\n\n    fn poll_ready(&mut self, _cx: &mut Context<'_>) -> Poll<Result<(), Self::Error>> {\n        { _cx.waker().wake_by_ref(); Poll::Pending }", 'C34'),
 ('dc-remove', T + 'load/pending_requests.rs', "            Some(Remove(k)) => Remove(k),", "            Some(Remove(_)) => return self.poll_next(cx),", 'C33'),
 ('dc-err', T + 'load/constant.rs', ".poll_discover(cx)).transpose()? {\n            None => return Poll::Ready(None),", ".poll_discover(cx)).transpose().ok().flatten() {\n            None => return Poll::Ready(None),", 'C33'),
 ('dc-list', T + 'discover/list.rs', "Some((i, service)) => Poll::Ready(Some(Ok(Change::Insert(i, service)))),", "Some((i, service)) => Poll::Ready(Some(Ok(Change::Insert(i + 1, service)))),", 'C33'),
 ('dc-list-OK', T + 'discover/list.rs', "        match self.project().inner.next() {\n            Some((i, service)) => Poll::Ready(Some(Ok(Change::Insert(i, service)))),\n            None => Poll::Ready(None),\n        }", "        Poll::Ready(self.project().inner.next().map(|(i, service)| Ok(Change::Insert(i, service))))", 'C33'),
 ('ei-wrong', T + 'util/either.rs', "Either::Right(service) => service.poll_ready(cx),", "Either::Right(_) => Poll::Ready(Ok(())),", 'C07 C01'),
]]
M += [(n, 'tower-test/src/mock/mod.rs', o, w, 'C32') for n, o, w in [
 ('mo-nodrain', "        if num > 0 {\n            for (_, task) in state.tasks.drain() {\n                task.wake();\n            }\n        }", "        let _ = &mut state.tasks;"),
 ('mo-one', "            for (_, task) in state.tasks.drain() {\n                task.wake();\n            }\n        }\n    }\n\n    /// Make", "            if let Some((_, task)) = state.tasks.drain().next() {\n                task.wake();\n            }\n        }\n    }\n\n    /// Make"),
 ('mo-closed', "        state.is_closed = true;", ""),
 ('mo-closed-nowake', "        state.is_closed = true;\n\n        for (_, task) in state.tasks.drain() {\n            task.wake();\n        }", "        state.is_closed = true;"),
 ('mo-cloneid', "            state.next_clone_id += 1;\n", ""),
 ('mo-clone0', "            id,\n            tx,\n            state: self.state.clone(),\n            can_send: false,", "            id,\n            tx,\n            state: self.state.clone(),\n            can_send: self.can_send,"),
 ('mo-stalewaker', "            *state\n                .tasks\n                .entry(self.id)\n                .or_insert_with(|| cx.waker().clone()) = cx.waker().clone();", "            state.tasks.entry(self.id).or_insert_with(|| cx.waker().clone());"),
 ('mo-norem', "            state.rem -= 1;", ""),
 ('mo-canset', "        self.can_send = false;\n\n        // Decr", "        // Decr"),
 ('mo-errkeep', "state.err_with.take() {", "state.err_with.as_ref().map(|e| e.to_string()) {\n            let e: Error = e.into();"),
 ('mo-droptask', "        state.tasks.remove(&self.id);", "        state.tasks.clear();"),
 ('mo-oksend', "let _ = self.tx.send(Err(err.into()));", "let _ = err.into(); drop(self.tx);"),
 ('mo-insert-OK', "            *state\n                .tasks\n                .entry(self.id)\n                .or_insert_with(|| cx.waker().clone()) = cx.waker().clone();", "            state.tasks.insert(self.id, cx.waker().clone());"),
 ('mo-take-OK', "            for (_, task) in state.tasks.drain() {\n                task.wake();\n            }\n        }\n    }\n\n    /// Make", "            let tasks = std::mem::take(&mut state.tasks);\n            drop(state);\n            for task in tasks.into_values() {\n                task.wake();\n            }\n        }\n    }\n\n    /// Make"),
 ('mo-satsub-OK', "        if state.rem > 0 {\n            state.rem -= 1;\n        }", "        state.rem = state.rem.saturating_sub(1);"),
]]

def _m(path, ids, l):
    global M
    M += [(n, path, o, w, ids) for n, o, w in l]


BW = T + 'buffer/worker.rs'
_m(BW, 'comp:Buffer,BufferQueue', [
 ('bu-nofinish-OK', "        if self.finish {\n            // We've already received None and are shutting down\n            return Poll::Ready(None);\n        }\n", ""),
 ('bu-drop-current', "                            self.current_message = Some(msg);\n", "                            drop(msg);\n"),
 ('bu-noclose', "        self.rx.close();\n", ""),
 ('bu-closefirst', "        let mut inner = self.handle.inner.lock().unwrap();\n", "        self.rx.close();\n        let mut inner = self.handle.inner.lock().unwrap();\n"),
 ('bu-nohandle', "        *inner = Some(error.clone());\n", "        let _ = &mut inner;\n"),
 ('bu-nofailed', "        self.failed = Some(error);\n", "        if self.current_message.is_some() { self.failed = Some(error); }\n"),
 ('bu-cancelled-kept', "            if !msg.tx.is_closed() {\n                tracing::trace!(\"processing new request\");", "            {\n                tracing::trace!(\"processing new request\");"),
 ('bu-return-after-call', "                            let _ = msg.tx.send(Ok(response));\n", "                            let _ = msg.tx.send(Ok(response));\n                            if !first { return Poll::Pending; }\n"),
 ('bu-failcontinue', "                        let _ = msg.tx.send(Err(failed.clone()));\n                        continue;", "                        let _ = msg.tx.send(Err(failed.clone()));\n                        self.finish = true;\n                        return Poll::Ready(());"),
 ('bu-while-if', "        while let Some(msg) = ready!(Pin::new(&mut self.rx).poll_recv(cx)) {", "        if let Some(msg) = ready!(Pin::new(&mut self.rx).poll_recv(cx)) {"),
 ('bu-err-finish', "                            self.failed(error);\n", "                            self.failed(error);\n                            self.finish = true;\n"),
 ('bu-loop-OK', "        while let Some(msg) = ready!(Pin::new(&mut self.rx).poll_recv(cx)) {\n            if !msg.tx.is_closed() {\n                tracing::trace!(\"processing new request\");\n                return Poll::Ready(Some((msg, true)));\n            }\n", "        loop {\n            let Some(msg) = ready!(self.rx.poll_recv(cx)) else { break };\n            if !msg.tx.is_closed() {\n                return Poll::Ready(Some((msg, true)));\n            }\n"),
 ('bu-take-OK', "        if let Some(msg) = self.current_message.take() {", "        if let Some(msg) = std::mem::replace(&mut self.current_message, None) {"),
 ('bu-order-OK', "        self.rx.close();\n\n        // By closing the mpsc::Receiver, we know that poll_next_msg will soon return Ready(None),\n        // which will trigger the `self.finish == true` phase. We just need to make sure that any\n        // requests that we receive before we've exhausted the receiver receive the error:\n        self.failed = Some(error);\n", "        self.failed = Some(error);\n        self.rx.close();\n"),
 ('bu-iflet-OK', "        if inner.is_some() {\n", "        if matches!(*inner, Some(_)) {\n"),
 ('bu-try-OK', "                    if let Some(ref failed) = self.failed {\n", "                    if let Some(failed) = self.failed.as_ref() {\n"),
])
_m(T + 'buffer/service.rs', 'comp:Buffer,BufferQueue', [
 ('bs-noclosedcheck', "        if self.tx.is_closed() {\n", "        if false && self.tx.is_closed() {\n"),
 ('bs-clone-OK', "            tx: self.tx.clone(),\n", "            tx: { let mut t = self.tx.clone(); let _ = &mut t; t },\n"),
 ('bs-call-closed-OK', "                ResponseFuture::failed(self.get_worker_error())", "                ResponseFuture::failed(crate::buffer::error::Closed::new().into())"),
 ('bs-ready-closed', "            .map_err(|_| self.get_worker_error())", "            .map_err(|_| crate::buffer::error::Closed::new().into())"),
 ('bs-bound', "mpsc::channel(bound)", "mpsc::channel(bound + 1)"),
 ('bs-match-OK', "        match self.tx.send_item(Message { request, span, tx }) {\n            Ok(_) => ResponseFuture::new(rx),\n            // If the channel is closed, propagate the error from the worker.\n            Err(_) => {\n                tracing::trace!(\"buffer channel closed\");\n                ResponseFuture::failed(self.get_worker_error())\n            }\n        }", "        let sent = self.tx.send_item(Message { request, span, tx });\n        if sent.is_err() {\n            return ResponseFuture::failed(self.get_worker_error());\n        }\n        ResponseFuture::new(rx)"),
 ('bs-ready-OK', "        self.tx\n            .poll_reserve(cx)\n            .map_err(|_| self.get_worker_error())", "        match self.tx.poll_reserve(cx) {\n            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),\n            Poll::Ready(Err(_)) => Poll::Ready(Err(self.get_worker_error())),\n            Poll::Pending => Poll::Pending,\n        }"),
])
_m(T + 'buffer/future.rs', 'comp:Buffer,BufferQueue', [
 ('bf-oneloop', "                    Ok(Ok(fut)) => this.state.set(ResponseState::Poll { fut }),", "                    Ok(Ok(fut)) => { this.state.set(ResponseState::Poll { fut }); return Poll::Pending; }"),
 ('bf-repoll', "                ResponseStateProj::Poll { fut } => return fut.poll(cx).map_err(Into::into),", "                ResponseStateProj::Poll { mut fut } => { if fut.as_mut().poll(cx).is_pending() { return Poll::Pending; } return fut.poll(cx).map_err(Into::into) }"),
 ('bf-ready-OK', "                ResponseStateProj::Poll { fut } => return fut.poll(cx).map_err(Into::into),", "                ResponseStateProj::Poll { fut } => return Poll::Ready(ready!(fut.poll(cx)).map_err(|e| e.into())),"),
])
CL = T + 'limit/concurrency/service.rs'
_m(CL, 'comp:ConcurrencyLimit', [
 ('cl-permit-ready', "        let future = self.inner.call(request);\n\n        ResponseFuture::new(future, permit)", "        let future = self.inner.call(request);\n        let p2 = self.semaphore.clone_inner().try_acquire_owned();\n        drop(permit);\n        ResponseFuture::new(future, p2.unwrap())"),
 ('cl-clone-own', "            semaphore: self.semaphore.clone(),\n", "            semaphore: PollSemaphore::new(Arc::new(Semaphore::new(self.semaphore.available_permits()))),\n"),
 ('cl-noguard', "        if self.permit.is_none() {\n", "        {\n"),
 ('cl-new+1', "Arc::new(Semaphore::new(max))", "Arc::new(Semaphore::new(max.max(1)))"),
 ('cl-swallow-OK', "        self.inner.poll_ready(cx)\n", "        let r = self.inner.poll_ready(cx);\n        if let Poll::Ready(Err(_)) = &r { self.permit = None; }\n        if r.is_pending() { self.permit = None; }\n        r\n"),
 ('cl-err-drop-OK', "        self.inner.poll_ready(cx)\n", "        let r = self.inner.poll_ready(cx);\n        if let Poll::Ready(Err(_)) = &r { self.permit = None; }\n        r\n"),
 ('cl-innerfirst-OK', "            self.permit = ready!(self.semaphore.poll_acquire(cx));\n", "            match self.semaphore.poll_acquire(cx) {\n                Poll::Ready(p) => self.permit = p,\n                Poll::Pending => return Poll::Pending,\n            }\n"),
 ('cl-opt-OK', "        let permit = self\n            .permit\n            .take()\n            .expect(", "        let permit = std::mem::take(&mut self.permit).expect("),
])
_m(T + 'limit/concurrency/future.rs', 'comp:ConcurrencyLimit', [
 ('clf-direct-OK', "Poll::Ready(ready!(self.project().inner.poll(cx)))", "self.project().inner.poll(cx)"),
])
RL = T + 'limit/rate/service.rs'
_m(RL, 'comp:RateLimit', [
 ('rl-noreset', "                    self.sleep.as_mut().reset(until);\n", ""),
 ('rl-until-now', "                    self.sleep.as_mut().reset(until);\n", "                    self.sleep.as_mut().reset(now);\n"),
 ('rl-rem0', "                if rem > 1 {\n", "                if rem > 0 {\n"),
 ('rl-gt', "                if now >= until {\n", "                if now > until {\n"),
 ('rl-per', "                    until = now + self.rate.per();\n", "                    until += self.rate.per();\n"),
 ('rl-norefill', "                    rem = self.rate.num();\n                }\n", "                }\n"),
 ('rl-nowindow', "                    until = now + self.rate.per();\n                    rem = self.rate.num();\n", "                    rem = self.rate.num();\n"),
 ('rl-inner-first', "            State::Ready { .. } => return Poll::Ready(ready!(self.inner.poll_ready(cx))),\n", "            State::Ready { .. } => return Poll::Ready(Ok(())),\n"),
 ('rl-ready-pend-OK', "        self.state = State::Ready {\n            until: Instant::now() + self.rate.per(),\n            rem: self.rate.num(),\n        };\n\n        Poll::Ready(ready!(self.inner.poll_ready(cx)))", "        let r = ready!(self.inner.poll_ready(cx));\n        self.state = State::Ready {\n            until: Instant::now() + self.rate.per(),\n            rem: self.rate.num(),\n        };\n        Poll::Ready(r)"),
 ('rl-rem-OK', "                if rem > 1 {\n                    rem -= 1;\n", "                rem = rem.saturating_sub(1);\n                if rem > 0 {\n"),
 ('rl-ready-OK', "            State::Ready { .. } => return Poll::Ready(ready!(self.inner.poll_ready(cx))),\n", "            State::Ready { .. } => return self.inner.poll_ready(cx),\n"),
])
_m(T + 'load_shed/mod.rs', 'comp:LoadShed', [
 ('ls-noreset', "            self.is_ready = false;\n            ResponseFuture", "            ResponseFuture"),
 ('ls-err', "            Poll::Ready(Err(e)) => return Poll::Ready(Err(e.into())),\n            r => r.is_ready(),", "            Poll::Ready(Err(_)) => false,\n            r => r.is_ready(),"),
 ('ls-sticky', "            r => r.is_ready(),\n", "            r => self.is_ready || r.is_ready(),\n"),
 ('ls-take-OK', "        if self.is_ready {\n            // readiness only counts once, you need to check again!\n            self.is_ready = false;\n", "        if std::mem::take(&mut self.is_ready) {\n"),
])
_m(T + 'timeout/future.rs', 'comp:Timeout', [
 ('to-elapsed-pend', "            Poll::Ready(_) => Poll::Ready(Err(Elapsed(()).into())),", "            Poll::Ready(_) => Poll::Pending,"),
 ('to-sleepfirst-pend', "            Poll::Pending => {}\n        }\n", "            Poll::Pending => {}\n        }\n        if !this.sleep.is_elapsed() { return Poll::Pending; }\n"),
 ('to-select-OK', "        match this.response.poll(cx) {\n            Poll::Ready(v) => return Poll::Ready(v.map_err(Into::into)),\n            Poll::Pending => {}\n        }\n", "        if let Poll::Ready(v) = this.response.poll(cx) {\n            return Poll::Ready(v.map_err(Into::into));\n        }\n"),
 ('to-sleepmap-OK', "        match this.sleep.poll(cx) {\n            Poll::Pending => Poll::Pending,\n            Poll::Ready(_) => Poll::Ready(Err(Elapsed(()).into())),\n        }", "        this.sleep.poll(cx).map(|()| Err(Elapsed(()).into()))"),
])
_m(T + 'timeout/mod.rs', 'comp:Timeout', [
 ('to-order', "        let response = self.inner.call(request);\n        let sleep = tokio::time::sleep(self.timeout);\n", "        let sleep = tokio::time::sleep(self.timeout.saturating_mul(2));\n        let response = self.inner.call(request);\n"),
 ('to-order-OK', "        let response = self.inner.call(request);\n        let sleep = tokio::time::sleep(self.timeout);\n", "        let sleep = tokio::time::sleep(self.timeout);\n        let response = self.inner.call(request);\n"),
 ('to-until-OK', "tokio::time::sleep(self.timeout)", "tokio::time::sleep_until(tokio::time::Instant::now() + self.timeout)"),
 ('to-ready-OK', "        match self.inner.poll_ready(cx) {\n            Poll::Pending => Poll::Pending,\n            Poll::Ready(r) => Poll::Ready(r.map_err(Into::into)),\n        }", "        self.inner.poll_ready(cx).map_err(Into::into)"),
])
SR = T + 'spawn_ready/service.rs'
_m(SR, 'comp:SpawnReady', [
 ('sr-noabort', "            task.abort();", "            let _ = task;"),
 ('sr-double-OK', "                    let svc = ready!(Pin::new(fut).poll(cx))??;\n                    Inner::Service(Some(svc))", "                    let svc = ready!(Pin::new(fut).poll(cx))??;\n                    self.inner = Inner::Service(Some(svc));\n                    return Poll::Ready(Ok(()));"),
 ('sr-joinerr', "                    let svc = ready!(Pin::new(fut).poll(cx))??;\n", "                    let svc = ready!(Pin::new(fut).poll(cx)).unwrap()?;\n"),
 ('sr-match-OK', "                    let svc = ready!(Pin::new(fut).poll(cx))??;\n                    Inner::Service(Some(svc))", "                    match ready!(Pin::new(fut).poll(cx)) {\n                        Ok(Ok(svc)) => Inner::Service(Some(svc)),\n                        Ok(Err(e)) => return Poll::Ready(Err(e)),\n                        Err(e) => return Poll::Ready(Err(e.into())),\n                    }"),
 ('sr-async-OK', "tokio::spawn(svc.ready_oneshot().map_err(Into::into).in_current_span());", "tokio::spawn(async move { let mut svc = svc; match svc.ready().await { Ok(_) => {} Err(e) => return Err(e.into()) } Ok(svc) }.in_current_span());"),
])
RN = T + 'reconnect/mod.rs'
_m(RN, 'comp:Reconnect', [
 ('rn-err-ret', "                        Poll::Ready(Err(_)) => {\n                            trace!(\"poll_ready; error\");\n                            self.state = State::Idle;\n                        }", "                        Poll::Ready(Err(e)) => {\n                            trace!(\"poll_ready; error\");\n                            return Poll::Ready(Err(e.into()));\n                        }"),
 ('rn-err-noidle', "                            self.state = State::Idle;\n                            self.error = Some(e);\n", "                            self.error = Some(e);\n"),
 ('rn-direct-err', "                            self.error = Some(e);\n                            break;", "                            return Poll::Ready(Err(e.into()));"),
 ('rn-err-clone-OK', "        if let Some(error) = self.error.take() {\n            return", "        if let Some(error) = self.error.take() {\n            if let State::Connecting(_) = self.state { self.state = State::Idle; }\n            return"),
 ('rn-noready', "                    match self.mk_service.poll_ready(cx) {\n                        Poll::Ready(r) => r?,\n                        Poll::Pending => {\n                            trace!(\"poll_ready; MakeService not ready\");\n                            return Poll::Pending;\n                        }\n                    }\n", "                    if self.error.is_none() { match self.mk_service.poll_ready(cx) {\n                        Poll::Ready(_) => {}\n                        Poll::Pending => {\n                            return Poll::Pending;\n                        }\n                    } }\n"),
 ('rn-ready-OK', "                    match self.mk_service.poll_ready(cx) {\n                        Poll::Ready(r) => r?,\n                        Poll::Pending => {\n                            trace!(\"poll_ready; MakeService not ready\");\n                            return Poll::Pending;\n                        }\n                    }\n", "                    std::task::ready!(self.mk_service.poll_ready(cx))?;\n"),
 ('rn-callmatch-OK', "        let service = match self.state {\n            State::Connected(ref mut service) => service,\n            _ => panic!(\"service not ready; poll_ready must be called first\"),\n        };", "        let State::Connected(service) = &mut self.state else {\n            unreachable!(\"service not ready; poll_ready must be called first\")\n        };"),
])
_m(T + 'retry/future.rs', 'comp:Retry', [
 ('re-noclone', "                    *this.request = this.retry.policy.clone_request(&req);\n", ""),
 ('re-clonecall', "                        future: this.retry.as_mut().project().service.call(req),", "                        future: { if this.request.is_none() { *this.request = this.retry.policy.clone_request(&req); } this.retry.as_mut().project().service.call(req) },"),
 ('re-nowait', "                            Some(waiting) => {\n                                this.state.set(State::Waiting { waiting });\n", "                            Some(waiting) => {\n                                drop(waiting); this.state.set(State::Retrying);\n"),
 ('re-noready', "                    ready!(this.retry.as_mut().project().service.poll_ready(cx))?;\n", "                    let _ = this.retry.as_mut().project().service.poll_ready(cx)?;\n"),
 ('re-onlyerr', "                    if let Some(req) = &mut this.request {\n", "                    if let Some(req) = this.request.as_mut().filter(|_| result.is_err()) {\n"),
 ('re-reqback-OK', "                        .take()\n                        .expect(\"retrying requires cloned request\");\n                    *this.request = this.retry.policy.clone_request(&req);", "                        .take()\n                        .expect(\"retrying requires cloned request\");\n                    let c = this.retry.policy.clone_request(&req);\n                    if c.is_some() { *this.request = c; }"),
 ('re-drop-order', "                    ready!(this.retry.as_mut().project().service.poll_ready(cx))?;\n                    let req = this\n                        .request\n                        .take()\n                        .expect(\"retrying requires cloned request\");\n", "                    let req = this\n                        .request\n                        .take()\n                        .expect(\"retrying requires cloned request\");\n                    ready!(this.retry.as_mut().project().service.poll_ready(cx))?;\n"),
 ('re-match-OK', "                    if let Some(req) = &mut this.request {\n                        match this.retry.policy.retry(req, &mut result) {\n                            Some(waiting) => {\n                                this.state.set(State::Waiting { waiting });\n                            }\n                            None => return Poll::Ready(result),\n                        }\n                    } else {\n                        // request wasn't cloned, so no way to retry it\n                        return Poll::Ready(result);\n                    }\n", "                    let waiting = match this.request.as_mut() {\n                        Some(req) => this.retry.policy.retry(req, &mut result),\n                        None => None,\n                    };\n                    let Some(waiting) = waiting else { return Poll::Ready(result) };\n                    this.state.set(State::Waiting { waiting });\n"),
 ('re-service-OK', "                    this.state.set(State::Called {\n                        future: this.retry.as_mut().project().service.call(req),\n                    });", "                    let future = this.retry.as_mut().project().service.call(req);\n                    this.state.set(State::Called { future });"),
])
_m(T + 'retry/mod.rs', 'comp:Retry', [
 ('rm-after-OK', "        let cloned = self.policy.clone_request(&request);\n        let future = self.service.call(request);\n\n        ResponseFuture::new(cloned, self.clone(), future)", "        let copy = self.clone();\n        let cloned = self.policy.clone_request(&request);\n        let future = self.service.call(request);\n\n        ResponseFuture::new(cloned, copy, future)"),
 ('rm-readyok-OK', "        self.service.poll_ready(cx)\n", "        let r = self.service.poll_ready(cx);\n        if let Poll::Ready(Err(_)) = r { return r; }\n        if r.is_pending() { return Poll::Pending; }\n        self.service.poll_ready(cx)\n"),
])
_m(T + 'hedge/select.rs', 'comp:Hedge', [
 ('hs-b-err', "            if let Poll::Ready(r) = b_fut.poll(cx) {\n                return", "            if let Poll::Ready(r) = b_fut.poll(cx) {\n                if r.is_err() { return Poll::Pending; }\n                return"),
 ('hs-shortcut-OK', "        match (self.a.poll_ready(cx), self.b.poll_ready(cx)) {\n            (Poll::Ready(Ok(())), Poll::Ready(Ok(()))) => Poll::Ready(Ok(())),", "        match (self.a.poll_ready(cx), self.b.poll_ready(cx)) {\n            (Poll::Ready(Ok(())), _) => Poll::Ready(Ok(())),"),
 ('hs-b-first', "        let b_fut = if let Some(cloned_req) = self.policy.clone_request(&request) {\n            Some(self.b.call(cloned_req))\n        } else {\n            None\n        };\n        ResponseFuture {\n            a_fut: self.a.call(request),\n            b_fut,\n        }", "        let cloned = self.policy.clone_request(&request);\n        let (req_a, b_fut) = match cloned { Some(c) => (c, Some(self.b.call(request))), None => (request, None) };\n        ResponseFuture {\n            a_fut: self.a.call(req_a),\n            b_fut,\n        }"),
 ('hs-noerr-OK', "            (_, Poll::Ready(Err(e))) => Poll::Ready(Err(e.into())),\n", "            (Poll::Ready(_), Poll::Ready(Err(e))) => Poll::Ready(Err(e.into())),\n            (_, Poll::Ready(Err(_))) => Poll::Pending,\n"),
 ('hs-q-OK', "                return Poll::Ready(Ok(r.map_err(Into::into)?));\n            }\n        }", "                return Poll::Ready(r.map_err(Into::into));\n            }\n        }"),
 ('hs-map-OK', "        let b_fut = if let Some(cloned_req) = self.policy.clone_request(&request) {\n            Some(self.b.call(cloned_req))\n        } else {\n            None\n        };\n", "        let b_fut = self.policy.clone_request(&request).map(|req| self.b.call(req));\n"),
])
_m(T + 'hedge/delay.rs', 'comp:Hedge', [
 ('hd-nodelay', "                    ready!(delay.poll(cx));\n", "                    let _ = delay.poll(cx);\n"),
 ('hd-svc-OK', "            service: Some(self.service.clone()),\n", "            service: Some({ let s = self.service.clone(); std::mem::replace(&mut self.service, s) }),\n"),
 ('hd-state-OK', "                    let fut = Oneshot::new(svc, req);\n                    this.state.set(State::called(fut));", "                    this.state.set(State::called(Oneshot::new(svc, req)));"),
])
_m(T + 'hedge/mod.rs', 'rule:latency_window comp:Hedge', [
 ('hm-ge', "locked.read().len() >= self.min_data_points", "locked.read().len() > self.min_data_points"),
 ('hm-nofilter', "        if self.0.can_retry(&request) {\n", "        if self.0.can_retry(&request) || true {\n"),
 ('hm-write', "locked.read().len() >= self.min_data_points", "locked.write().len() >= self.min_data_points"),
 ('hm-quant', "            .value_at_quantile(self.latency_percentile.into());", "            .value_at_quantile(1.0 - f64::from(self.latency_percentile));"),
 ('hm-millis-OK', "let millis = (duration.subsec_nanos() + NANOS_PER_MILLI - 1) / NANOS_PER_MILLI;", "let millis = duration.subsec_nanos() / NANOS_PER_MILLI;"),
 ('hm-recb', "        let recorded_b = Latency::new(histo.clone(), service);\n", "        let recorded_b = Latency::new(Arc::new(Mutex::new(RotatingHistogram::new(Duration::from_secs(1)))), service);\n"),
 ('hm-inline-OK', "        let delayed = Delay::new(delay_policy, filtered);\n", "        let delayed = { let d = delay_policy; Delay::new(d, filtered) };\n"),
 ('hm-match-OK', "        self.policy.clone_request(req).filter(|_| {\n            let mut locked = self.histo.lock().unwrap();\n            // Do not attempt a retry if there are insufficiently many data\n            // points in the histogram.\n            locked.read().len() >= self.min_data_points\n        })", "        let cloned = self.policy.clone_request(req)?;\n        let points = self.histo.lock().unwrap().read().len();\n        (points >= self.min_data_points).then_some(cloned)"),
])
_m(T + 'hedge/latency.rs', 'rule:latency_window comp:Hedge', [
 ('hl-err', "        let rsp = ready!(this.inner.poll(cx)).map_err(Into::into)?;\n        let duration = Instant::now().saturating_duration_since(*this.start);\n        this.rec.record(duration);\n", "        let rsp = ready!(this.inner.poll(cx));\n        let duration = Instant::now().saturating_duration_since(*this.start);\n        this.rec.record(duration);\n        let rsp = rsp.map_err(Into::into)?;\n"),
 ('hl-start-OK', "            start: Instant::now(),\n            rec: self.rec.clone(),\n            inner: self.service.call(request),", "            rec: self.rec.clone(),\n            inner: self.service.call(request),\n            start: Instant::now(),"),
 ('hl-elapsed-OK', "Instant::now().saturating_duration_since(*this.start)", "this.start.elapsed()"),
])
RH = T + 'hedge/rotating_histogram.rs'
_m(RH, 'rule:latency_window', [
 ('rh-noclear', "        self.write.clear();\n    }\n\n    fn clear", "    }\n\n    fn clear"),
 ('rh-2', "        if rotations >= 2 {", "        if rotations > 2 {"),
 ('rh-last', "        self.last_rotation += self.period * rotations;", "        self.last_rotation = Instant::now();"),
 ('rh-read', "    pub fn read(&mut self) -> &mut Histogram<u64> {\n        self.maybe_rotate();\n", "    pub fn read(&mut self) -> &mut Histogram<u64> {\n"),
 ('rh-replace-OK', "        std::mem::swap(&mut self.read, &mut self.write);\n        trace!(\"Rotated {:?} points into read\", self.read.len());\n        self.write.clear();\n", "        let fresh = Histogram::<u64>::new(3).expect(\"Invalid histogram params\");\n        self.read = std::mem::replace(&mut self.write, fresh);\n"),
 ('rh-f64-OK', "        let rotations = nanos(delta) / period;\n", "        let rotations = (delta.as_nanos() / u128::from(period)) as u64;\n"),
 ('rh-match-OK', "        if rotations >= 2 {\n            trace!(\"Time since last rotation is {:?}.  clearing!\", delta);\n            self.clear();\n        } else if rotations == 1 {\n            trace!(\"Time since last rotation is {:?}. rotating!\", delta);\n            self.rotate();\n        }\n", "        match rotations {\n            0 => {}\n            1 => self.rotate(),\n            _ => self.clear(),\n        }\n"),
])
_m(T + 'filter/mod.rs', 'comp:Filter,AsyncFilter', [
 ('fi-clone', "        let inner = mem::replace(&mut self.inner, inner);\n", ""),
 ('fi-swap-OK', "        let inner = self.inner.clone();\n        // In case the inner service has state that's driven to readiness and\n        // not tracked by clones (such as `Buffer`), pass the version we have\n        // already called `poll_ready` on into the future, and leave its clone\n        // behind.\n        let inner = mem::replace(&mut self.inner, inner);\n", "        let mut inner = self.inner.clone();\n        mem::swap(&mut self.inner, &mut inner);\n"),
 ('fi-map-OK', "        ResponseFuture::new(match self.predicate.check(request) {\n            Ok(request) => Either::Right(self.inner.call(request).err_into()),\n            Err(e) => Either::Left(futures_util::future::ready(Err(e))),\n        })", "        let fut = self\n            .predicate\n            .check(request)\n            .map(|request| Either::Right(self.inner.call(request).err_into()))\n            .unwrap_or_else(|e| Either::Left(futures_util::future::ready(Err(e))));\n        ResponseFuture::new(fut)"),
])
_m(T + 'filter/future.rs', 'comp:AsyncFilter', [
 ('ff-wait', "                    this.state.set(State::WaitResponse { response });\n", "                    this.state.set(State::WaitResponse { response });\n                    return Poll::Pending;\n"),
 ('ff-match-OK', "                StateProj::Check { mut check } => {\n                    let request = ready!(check.as_mut().poll(cx))?;\n", "                StateProj::Check { check } => {\n                    let request = match check.poll(cx) {\n                        Poll::Ready(Ok(request)) => request,\n                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),\n                        Poll::Pending => return Poll::Pending,\n                    };\n"),
])
_m(T + 'steer/mod.rs', 'comp:Steer', [
 ('st-first', "        self.not_ready.push_back(idx);\n", "        if idx != 0 { self.not_ready.push_back(idx); }\n"),
 ('st-rotate', "                    return Poll::Pending;\n", "                    self.not_ready.rotate_left(1);\n                    return Poll::Pending;\n"),
 ('st-popfirst', "                    .poll_ready(cx)?\n                    .is_pending()\n                {", "                    .poll_ready(cx)?\n                    .is_pending() && self.services.len() > 3\n                {"),
 ('st-while-OK', "        loop {\n            // must wait for *all* services to be ready.\n            // this will cause head-of-line blocking unless the underlying services are always ready.\n            if self.not_ready.is_empty() {\n                return Poll::Ready(Ok(()));\n            } else {\n                if self.services[self.not_ready[0]]\n                    .poll_ready(cx)?\n                    .is_pending()\n                {\n                    return Poll::Pending;\n                }\n\n                self.not_ready.pop_front();\n            }\n        }", "        while let Some(&idx) = self.not_ready.front() {\n            std::task::ready!(self.services[idx].poll_ready(cx))?;\n            self.not_ready.pop_front();\n        }\n        Poll::Ready(Ok(()))"),
 ('st-iter-OK', "        let not_ready: VecDeque<_> = services.iter().enumerate().map(|(i, _)| i).collect();\n", "        let not_ready = (0..services.len()).collect::<VecDeque<usize>>();\n"),
])
_m(T + 'util/oneshot.rs', 'comp:Oneshot', [
 ('os-err', "                    let _ = ready!(svc.poll_ready(cx))?;\n", "                    let _ = ready!(svc.poll_ready(cx));\n"),
 ('os-pend', "                    this.state.set(State::called(f));", "                    this.state.set(State::called(f));\n                    return Poll::Pending;"),
 ('os-inline-OK', "                    let res = ready!(fut.poll(cx))?;\n                    this.state.set(State::Done);\n                    return Poll::Ready(Ok(res));", "                    let res = ready!(fut.poll(cx));\n                    this.state.set(State::Done);\n                    return Poll::Ready(res);"),
])
_m(T + 'util/future_service.rs', 'comp:FutureService', [
 ('fs-pend', "                    State::Service(svc)\n                }\n", "                    self.state = State::Service(svc);\n                    return Poll::Pending;\n                }\n"),
 ('fs-letelse-OK', "        if let State::Service(svc) = &mut self.state {\n            svc.call(req)\n        } else {\n            panic!(\"FutureService::call was called before FutureService::poll_ready\")\n        }", "        let State::Service(svc) = &mut self.state else { panic!(\"x\") };\n        svc.call(req)"),
])
CA = T + 'util/call_all/common.rs'
_m(CA, 'comp:CallAllOrdered,CallAllUnordered', [
 ('ca-lost', "            if this.curr_req.is_none() {\n", "            {\n"),
 ('ca-err-eof', "                *this.eof = true;\n                return Poll::Ready(Some(Err(e)));", "                return Poll::Ready(Some(Err(e)));"),
 ('ca-eof-none', "                if this.queue.is_empty() {\n                    return Poll::Ready(None);\n                } else {\n                    return Poll::Pending;\n                }", "                return Poll::Ready(None);"),
 ('ca-eof-continue', "                        *this.eof = true;\n                        continue;", "                        *this.eof = true;\n                        return Poll::Pending;"),
 ('ca-rsp-err', "                if let Some(rsp) = r.transpose()? {\n                    return Poll::Ready(Some(Ok(rsp)));\n                }", "                match r { Some(Ok(rsp)) => return Poll::Ready(Some(Ok(rsp))), Some(Err(e)) => { *this.eof = true; return Poll::Ready(Some(Err(e))) }, None => {} }"),
 ('ca-rsp-OK', "                if let Some(rsp) = r.transpose()? {\n                    return Poll::Ready(Some(Ok(rsp)));\n                }", "                if r.is_some() { return Poll::Ready(r); }"),
 ('ca-eofemp-OK', "                if this.queue.is_empty() {\n                    return Poll::Ready(None);\n                } else {\n                    return Poll::Pending;\n                }", "                return if this.queue.is_empty() { Poll::Ready(None) } else { Poll::Pending };"),
 ('ca-letsome-OK', "            if this.curr_req.is_none() {\n                *this.curr_req = match ready!(this.stream.as_mut().poll_next(cx)) {\n                    Some(next_req) => Some(next_req),\n                    None => {\n                        // Mark that there will be no more requests.\n                        *this.eof = true;\n                        continue;\n                    }\n                };\n            }\n", "            if this.curr_req.is_none() {\n                let next = ready!(this.stream.as_mut().poll_next(cx));\n                if next.is_none() {\n                    *this.eof = true;\n                    continue;\n                }\n                *this.curr_req = next;\n            }\n"),
])
_m(T + 'util/call_all/ordered.rs', 'comp:CallAllOrdered', [('co-front', "FuturesOrdered::push_back(self, future)", "FuturesOrdered::push_front(self, future)")])
_m(T + 'util/optional/mod.rs', 'comp:Optional,OptionalNone', [
 ('op-map-OK', "            Some(ref mut inner) => match inner.poll_ready(cx) {\n                Poll::Ready(r) => Poll::Ready(r.map_err(Into::into)),\n                Poll::Pending => Poll::Pending,\n            },", "            Some(ref mut inner) => inner.poll_ready(cx).map_err(Into::into),"),
 ('op-none', "            None => Poll::Ready(Ok(())),", "            None => Poll::Pending,"),
])
_m(T + 'util/map_result.rs', 'comp:MapResult', [('mr-async-OK', "self.inner.call(request).map(self.f.clone())", "{ let f = self.f.clone(); self.inner.call(request).map(f) }")])
_m(T + 'util/then.rs', 'comp:Then', [('th-OK', "ThenFuture::new(self.inner.call(request).then(self.f.clone()))", "{ let fut = self.inner.call(request); ThenFuture::new(fut.then(self.f.clone())) }")])
_m(T + 'util/boxed/sync.rs', 'comp:BoxService', [('bx-OK', "Box::new(inner.map_future(|f: S::Future| Box::pin(f) as _));", "Box::new(crate::util::MapFuture::new(inner, |f: S::Future| -> BoxFuture<U, E> { Box::pin(f) }));")])
_m(T + 'util/map_request.rs', 'comp:MapRequest', [('mq-twice-OK', "self.inner.call((self.f)(request))", "{ let r = (self.f)(request); self.inner.call(r) }")])
# ---- C29..C31
_m(T + 'load/pending_requests.rs', 'C29', [
 ('tr-pr-cell', "struct RefCount(Arc<()>);", "struct RefCount(Arc<()>, std::marker::PhantomData<std::cell::Cell<u8>>);"),
])
_m(T + 'hedge/mod.rs', 'C29', [
 ('tr-hedge-OK', "type Histo = Arc<Mutex<RotatingHistogram>>;", "type Histo = std::sync::Arc<std::sync::Mutex<RotatingHistogram>>;"),
])
_m(T + 'util/boxed_clone.rs', 'C29', [
 ('tr-bc-alias-OK', "trait CloneService<R>: Service<R> {", "trait CloneService<R>: tower_service::Service<R> {"),
 ('tr-bc-clonebound', "impl<T, U, E> Clone for BoxCloneService<T, U, E> {", "impl<T: Clone, U, E> Clone for BoxCloneService<T, U, E> {"),
])
_m(T + 'util/boxed/layer.rs', 'C29', [
 ('tr-layer-nosync', "boxed: Arc<dyn Layer<In, Service = BoxService<T, U, E>> + Send + Sync + 'static>,", "boxed: Arc<dyn Layer<In, Service = BoxService<T, U, E>> + Send + 'static>,"),
 ('tr-layer-clone', "impl<In, T, U, E> Clone for BoxLayer<In, T, U, E> {", "impl<In: Clone, T, U, E> Clone for BoxLayer<In, T, U, E> {"),
])
_m(T + 'util/ready.rs', 'C29', [
 ('tr-ready-cell', "_p: PhantomData<fn() -> Request>,", "_p: PhantomData<std::cell::Cell<fn() -> Request>>,"),
])
_m(T + 'buffer/layer.rs', 'C29', [('tr-bufl-pd', "_p: PhantomData<fn(Request)>,", "_p: PhantomData<*const Request>,")])
_m(T + 'balance/p2c/layer.rs', 'C29', [('tr-ball-pd', "_marker: PhantomData<fn(D, Req)>,", "_marker: PhantomData<(D, *const Req)>,")])
_m(T + 'balance/p2c/make.rs', 'C29', [('tr-balm-pd', "    _marker: PhantomData<fn(Req)>,\n}\n", "    _marker: PhantomData<std::cell::Cell<fn(Req)>>,\n}\n")])
_m(T + 'balance/p2c/service.rs', 'C29', [('tr-bal-rng', "rng: Box<dyn Rng + Send + Sync>,", "rng: Box<dyn Rng + Send>,"), ('tr-bal-req', "_req: PhantomData<Req>,", "_req: PhantomData<std::rc::Rc<Req>>,")])
_m(T + 'steer/mod.rs', 'C29', [
 ('tr-steer-clone', "    S: Clone,\n    F: Clone,\n{\n    fn clone", "    S: Clone,\n    F: Clone,\n    Req: Clone,\n{\n    fn clone"),
 ('tr-steer-pd-OK', "_phantom: PhantomData<Req>,\n}", "_phantom: PhantomData<Req>, // marker\n}"),
])
_m(T + 'buffer/service.rs', 'C29', [
 ('tr-buf-clone', "    Req: Send + 'static,\n    F: Send + 'static,\n{\n    fn clone", "    Req: Send + Clone + 'static,\n    F: Send + 'static,\n{\n    fn clone"),
])
_m(T + 'util/map_err.rs', 'C29', [('tr-me-clone', "#[derive(Clone)]\npub struct MapErr<S, F> {", "pub struct MapErr<S, F> {")])
_m(T + 'timeout/mod.rs', 'C29', [('tr-to-clone', "#[derive(Debug, Clone)]\npub struct Timeout<T> {", "#[derive(Debug)]\npub struct Timeout<T> {")])
_m(T + 'filter/mod.rs', 'C29', [('tr-filter-bound', "impl<T, U, Request> Service<Request> for Filter<T, U>\nwhere", "impl<T, U, Request> Service<Request> for Filter<T, U>\nwhere\n    T: Clone,")])
_m(T + 'load_shed/mod.rs', 'C29', [('tr-shed-bound', "impl<S, Req> Service<Req> for LoadShed<S>\nwhere", "impl<S, Req> Service<Req> for LoadShed<S>\nwhere\n    Req: Send,")])
_m(T + 'limit/concurrency/layer.rs', 'C30', [
 ('ft-clayer', "use std::sync::Arc;\n", "use std::sync::Arc;\n#[allow(unused_imports)]\nuse futures_util::future::FutureExt as _;\n"),
])
_m(T + 'builder/mod.rs', 'C30', [
 ('ft-b-shed', "    #[cfg(feature = \"load-shed\")]\n", "    #[cfg(feature = \"limit\")]\n"),
 ('ft-b-shed-all', "    #[cfg(feature = \"load-shed\")]\n", "    #[cfg(all(feature = \"load-shed\", feature = \"util\"))]\n"),
 ('ft-b-retry', "    #[cfg(feature = \"retry\")]\n", "    #[cfg(all(feature = \"retry\", feature = \"limit\"))]\n"),
 ('ft-b-any-OK', "    #[cfg(feature = \"timeout\")]\n", "    #[cfg(any(feature = \"timeout\"))]\n"),
])
_m(T + 'lib.rs', 'C30', [
 ('ft-mod-steer', "#[cfg(feature = \"steer\")]\n", "#[cfg(all(feature = \"steer\", feature = \"util\"))]\n"),
])
_m(T + 'util/mod.rs', 'C30', [('ft-u-filter', "    #[cfg(feature = \"filter\")]\n    fn filter<", "    #[cfg(all(feature = \"filter\", feature = \"hedge\"))]\n    fn filter<")])
_m(T + 'spawn_ready/mod.rs', 'C30', [('ft-sr-OK', "//! When an underlying service is not ready", "//! When an underlying service is not ready")])
_m(T + 'steer/mod.rs', 'C30', [('ft-steer-tracing', "        let idx = self.router.pick(", "        tracing::trace!(\"picking\");\n        let idx = self.router.pick(")])
_m(T + 'load/constant.rs', 'C30', [('ft-const', "#[cfg(feature = \"discover\")]\nimpl", "impl")])
# ---- more behaviour-preserving rewrites of the numeric parts
_m(T + 'retry/backoff.rs', 'C16', [
 ('bo2-satmul-OK', "        self.min\n            .checked_mul(2_u32.saturating_pow(self.iterations))\n            .unwrap_or(self.max)\n            .min(self.max)", "        self.min.saturating_mul(2_u32.saturating_pow(self.iterations)).min(self.max)"),
 ('bo2-cmpmin-OK', "            .unwrap_or(self.max)\n            .min(self.max)", "            .map_or(self.max, |d| std::cmp::min(d, self.max))"),
 ('bo2-checkedpow-OK', "            .checked_mul(2_u32.saturating_pow(self.iterations))", "            .checked_mul(2_u32.checked_pow(self.iterations).unwrap_or(u32::MAX))"),
 ('bo2-ifelse-OK', "            .unwrap_or(self.max)\n            .min(self.max)", "            .filter(|d| *d < self.max)\n            .unwrap_or(self.max)"),
 ('bo2-satadd-OK', "        self.iterations += 1;", "        self.iterations = self.iterations.saturating_add(1);"),
 ('bo2-wrap-OK', "        self.iterations += 1;", "        self.iterations = self.iterations.wrapping_add(1);"),
 ('bo2-loop-OK', "            .checked_mul(2_u32.saturating_pow(self.iterations))", "            .checked_mul((0..self.iterations).fold(1u32, |f, _| f.saturating_mul(2)))"),
 ('bo2-fold-OK', "        let next = base + self.jitter(base);\n\n        self.iterations += 1;\n\n        tokio::time::sleep(next)", "        let jitter = self.jitter(base);\n        let Self { iterations, .. } = self;\n        *iterations += 1;\n        tokio::time::sleep(base.saturating_add(jitter))"),
 ('bo2-checkedadd-OK', "        let next = base + self.jitter(base);", "        let jitter = self.jitter(base);\n        let next = base.checked_add(jitter).unwrap_or(self.max);"),
 ('bo2-until-OK', "        tokio::time::sleep(next)", "        tokio::time::sleep_until(tokio::time::Instant::now() + next)"),
 ('bo2-remsub-OK', "            let remaining = self.max - base;", "            let remaining = self.max.saturating_sub(base);"),
 ('bo2-ifmin-OK', "            time::Duration::new(secs as u64, nanos as u32).min(remaining)", "            let extra = time::Duration::new(secs as u64, nanos as u32);\n            if extra > remaining { remaining } else { extra }"),
 ('bo2-clampend-OK', "        let next = base + self.jitter(base);", "        let next = (base + self.jitter(base)).min(self.max);"),
 ('bo2-eqz-OK', "        if self.jitter == 0.0 {", "        if self.jitter <= 0.0 {"),
 ('bo2-neq-OK', "        if self.jitter == 0.0 {\n            time::Duration::default()\n        } else {", "        if !(self.jitter > 0.0) {\n            time::Duration::from_secs(0)\n        } else {"),
 ('bo2-range-OK', "        if jitter < 0.0 {\n            return Err(InvalidBackoff(\"jitter must not be negative\"));\n        }\n        if jitter > 100.0 {", "        if !(0.0..).contains(&jitter) {\n            return Err(InvalidBackoff(\"jitter must not be negative\"));\n        }\n        if jitter > 100.0 {"),
 ('bo2-make-OK', "        ExponentialBackoff {\n            max: self.max,\n            min: self.min,\n            jitter: self.jitter,\n            rng: self.rng.clone(),\n            iterations: 0,\n        }", "        let Self { min, max, jitter, ref rng } = *self;\n        ExponentialBackoff { min, max, jitter, rng: rng.clone(), iterations: u32::default() }"),
])
_m(T + 'retry/budget/tps_budget.rs', 'C16', [
 ('tb2-for-OK', "        let windowed_sum: isize = self\n            .slots\n            .iter()\n            .map(|slot| slot.load(Ordering::SeqCst))\n            // fold() is used instead of sum() to determine overflow behavior\n            .fold(0, isize::saturating_add);", "        let mut windowed_sum = 0isize;\n        for i in 0..self.slots.len() {\n            windowed_sum = windowed_sum.saturating_add(self.slots[i].load(Ordering::Acquire));\n        }"),
 ('tb2-foldcur-OK', "            .fold(0, isize::saturating_add);\n\n        current\n            .saturating_add(windowed_sum)\n            .saturating_add(self.reserve)", "            .fold(current, isize::saturating_add);\n\n        windowed_sum.saturating_add(self.reserve)"),
 ('tb2-lt-OK', "        let sum = self.sum();\n        if sum >= amt {\n            self.writer.fetch_add(-amt, Ordering::SeqCst);\n            true\n        } else {\n            false\n        }", "        if self.sum() < amt {\n            return false;\n        }\n        let _ = self.writer.fetch_add(0 - amt, Ordering::SeqCst);\n        true"),
 ('tb2-then-OK', "        let sum = self.sum();\n        if sum >= amt {\n            self.writer.fetch_add(-amt, Ordering::SeqCst);\n            true\n        } else {\n            false\n        }", "        let ok = self.sum() >= amt;\n        let debit = if ok { amt } else { 0 };\n        self.writer.fetch_sub(debit, Ordering::SeqCst);\n        ok"),
 ('tb2-store-OK', "            self.writer.fetch_add(-amt, Ordering::SeqCst);\n            true", "            let w = self.writer.load(Ordering::SeqCst);\n            let _ = w;\n            self.writer.fetch_sub(amt, Ordering::SeqCst);\n            true"),
 ('tb2-div-OK', "        let mut diff = diff - self.window;\n        let mut time = gen.time + self.window;\n        let mut idx = (gen.index + 1) % self.slots.len();\n        while diff >= self.window {\n            self.slots[idx].store(0, Ordering::SeqCst);\n            diff -= self.window;\n            time += self.window;\n            idx = (idx + 1) % self.slots.len();\n        }\n", "        let passed = (diff.as_nanos() / self.window.as_nanos()) as u32;\n        let mut idx = (gen.index + 1) % self.slots.len();\n        for _ in 1..passed {\n            self.slots[idx].store(0, Ordering::SeqCst);\n            idx = (idx + 1) % self.slots.len();\n        }\n        let time = gen.time + self.window * passed;\n"),
 ('tb2-lock-OK', "        let mut gen = self.generation.lock().expect(\"generation lock\");", "        let mut gen = match self.generation.lock() {\n            Ok(g) => g,\n            Err(_) => panic!(\"generation lock\"),\n        };"),
 ('tb2-time-OK', "        let diff = now.saturating_duration_since(gen.time);\n        if diff < self.window {", "        let diff = now.checked_duration_since(gen.time).unwrap_or_default();\n        if !(diff >= self.window) {"),
 ('tb2-put-OK', "        drop(self.expire());\n        self.writer.fetch_add(amt, Ordering::SeqCst);", "        let gen = self.expire();\n        self.writer.fetch_add(amt, Ordering::SeqCst);\n        drop(gen);"),
 ('tb2-putz-OK', "        drop(self.expire());\n        self.writer.fetch_add(amt, Ordering::SeqCst);", "        if amt == 0 {\n            return;\n        }\n        drop(self.expire());\n        self.writer.fetch_add(amt, Ordering::SeqCst);"),
 ('tb2-matchpct-OK', "        } else if retry_percent <= 1.0 {", "        } else if !(retry_percent > 1.0) {"),
 ('tb2-contains-OK', "        assert!(retry_percent >= 0.0);\n        assert!(retry_percent <= 1000.0);", "        assert!((0.0..=1000.0).contains(&retry_percent));"),
 ('tb2-slotsvec-OK', "        let mut slots = Vec::with_capacity(windows as usize);\n        for _ in 0..windows {\n            slots.push(AtomicIsize::new(0));\n        }", "        let mut slots = Vec::new();\n        slots.resize_with(windows as usize, AtomicIsize::default);"),
])
_m(T + 'load/peak_ewma.rs', 'C20', [
 ('pk2-max-OK', "            let next_estimate = (self.rtt_ns * decay) + (rtt * recency);", "            let next_estimate = rtt.mul_add(recency, self.rtt_ns * decay);"),
 ('pk2-let-OK', "        let estimate = self.update_estimate();\n\n        let cost = Cost(estimate * f64::from(pending + 1));", "        let estimate = self.update_estimate();\n        let load = (pending as f64) + 1.0;\n        let cost = Cost(load * estimate);"),
 ('pk2-elapsed-OK', "        let recv_at = Instant::now();\n", "        let recv_at = self.sent_at + self.sent_at.elapsed();\n"),
 ('pk2-neg-OK', "            let decay = (-elapsed / decay_ns).exp();", "            let decay = (-(elapsed / decay_ns)).exp();"),
 ('pk2-recip-OK', "            let decay = (-elapsed / decay_ns).exp();", "            let decay = 1.0 / (elapsed / decay_ns).exp();"),
 ('pk2-unwrap-OK', "        if let Ok(mut rtt) = self.rtt_estimate.lock() {\n            rtt.update(self.sent_at, recv_at, self.decay_ns);\n        }", "        let Ok(mut rtt) = self.rtt_estimate.lock() else { return };\n        let _ = rtt.update(self.sent_at, recv_at, self.decay_ns);"),
 ('pk2-since-OK', "        let rtt = nanos(recv_at.saturating_duration_since(sent_at));", "        let rtt = nanos(recv_at.duration_since(sent_at));"),
])
_m(T + 'util/rng.rs', 'C35', [
 ('rn2-bits-OK', "        let float_size = std::mem::size_of::<f64>() as u32 * 8;\n", "        let float_size = f64::MANTISSA_DIGITS + 11;\n"),
 ('rn2-const-OK', "        let scale = 1.0 / ((1u64 << precision) as f64);", "        let scale = f64::EPSILON / 2.0;\n        let _ = precision;"),
 ('rn2-rem-OK', "        (n % range) + start", "        start + n.rem_euclid(range)"),
 ('rn2-wrap-OK', "        (n % range) + start", "        start.wrapping_add(n % range)"),
 ('rn2-swapdraw-OK', "    let aidx = if aidx == bidx { length - 1 } else { aidx };\n    [aidx, bidx]", "    match aidx == bidx {\n        true => [length - 1, bidx],\n        false => [aidx, bidx],\n    }"),
])
