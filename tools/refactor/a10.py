# tower-test, tower-layer and the small pieces: other maps, guards, helpers, combinators
T='tower/src/'
MK='tower-test/src/mock/mod.rs'; SP='tower-test/src/mock/spawn.rs'; STK='tower-layer/src/stack.rs'; TU='tower-layer/src/tuple.rs'
OS=T+'util/oneshot.rs'; TF=T+'timeout/future.rs'; EI=T+'util/either.rs'; MR=T+'util/map_result.rs'; SL=T+'discover/list.rs'; SH=T+'make/make_service/shared.rs'
BO=T+'retry/backoff.rs'; RN=T+'util/rng.rs'
EDITS=[
(MK,"collections::HashMap,","collections::BTreeMap,"),
(MK,"tasks: HashMap<u64, Waker>,","tasks: BTreeMap<u64, Waker>,"),
(MK,"            tasks: HashMap::new(),","            tasks: BTreeMap::new(),"),
(MK,"""            // Bit weird... but whatevz
            *state
                .tasks
                .entry(self.id)
                .or_insert_with(|| cx.waker().clone()) = cx.waker().clone();

            Poll::Pending
        }
""","""            state.tasks.insert(self.id, cx.waker().clone());

            Poll::Pending
        }
"""),
(MK,"""        if !self.can_send {
            panic!("service not ready; poll_ready must be called first");
        }

        self.can_send = false;

        // Decrement the number of remaining requests that can be sent
        if state.rem > 0 {
            state.rem -= 1;
        }

        let (tx, rx) = oneshot::channel();
        let send_response = SendResponse { tx };

        match self.tx.lock().unwrap().send((request, send_response)) {
            Ok(_) => {}
            Err(_) => {
                // TODO: Can this be reached
                return ResponseFuture::closed();
            }
        }

        ResponseFuture::new(rx)
""","""        assert!(
            std::mem::take(&mut self.can_send),
            "service not ready; poll_ready must be called first"
        );

        // Decrement the number of remaining requests that can be sent
        state.rem = state.rem.saturating_sub(1);

        let (tx, rx) = oneshot::channel();
        let message = (request, SendResponse { tx });
        let sent = self.tx.lock().unwrap().send(message);

        sent.map_or_else(|_| ResponseFuture::closed(), |()| ResponseFuture::new(rx))
"""),
(MK,"""        let id = {
            let mut state = self.state.lock().unwrap();
            let id = state.next_clone_id;

            state.next_clone_id += 1;

            id
        };
""","""        let id = self.state.lock().unwrap().fresh_id();
"""),
(MK,"""impl State {
    fn new() -> State {""","""impl State {
    fn fresh_id(&mut self) -> u64 {
        let next = self.next_clone_id + 1;
        std::mem::replace(&mut self.next_clone_id, next)
    }

    fn wake_all(&mut self) {
        std::mem::take(&mut self.tasks)
            .into_iter()
            .for_each(|(_, task)| task.wake());
    }

    fn new() -> State {"""),
(MK,"""        if num > 0 {
            for (_, task) in state.tasks.drain() {
                task.wake();
            }
        }
""","""        if num == 0 {
            return;
        }

        state.wake_all();
"""),
(MK,"""        state.err_with = Some(e.into());

        for (_, task) in state.tasks.drain() {
            task.wake();
        }
""","""        state.err_with.replace(e.into());
        state.wake_all();
"""),
(MK,"""        state.is_closed = true;

        for (_, task) in state.tasks.drain() {
            task.wake();
        }
""","""        state.is_closed = true;
        while let Some((_, task)) = state.tasks.pop_first() {
            task.wake();
        }
"""),
(MK,"""        // TODO: Should the result be dropped?
        let _ = self.tx.send(Ok(response));
""","""        drop(self.tx.send(Ok(response)));
"""),
(SP,"""        let task = &mut self.task;
        let inner = &mut self.inner;

        task.enter(|cx, _| inner.poll_ready(cx))
""","""        let Self { task, inner } = self;

        task.enter(move |cx, _| T::poll_ready(inner, cx))
"""),
(STK,"""        let inner = self.inner.layer(service);

        self.outer.layer(inner)
""","""        let Stack { inner, outer } = self;

        outer.layer(inner.layer(service))
"""),
(TU,"""        let (l1, l2) = self;
        l1.layer(l2.layer(service))
""","""        self.0.layer(self.1.layer(service))
"""),
(TU,"""        let (l1, l2, l3) = self;
        l1.layer((l2, l3).layer(service))
""","""        let (l1, l2, l3) = self;
        let inner = l3.layer(service);
        let middle = l2.layer(inner);
        l1.layer(middle)
"""),
(OS,"""        let mut this = self.project();
        loop {
            match this.state.as_mut().project() {
                StateProj::NotReady { svc, req } => {
                    let _ = ready!(svc.poll_ready(cx))?;
                    let f = svc.call(req.take().expect("already called"));
                    this.state.set(State::called(f));
                }
                StateProj::Called { fut } => {
                    let res = ready!(fut.poll(cx))?;
                    this.state.set(State::Done);
                    return Poll::Ready(Ok(res));
                }
                StateProj::Done => panic!("polled after complete"),
            }
        }
""","""        let mut state = self.project().state;

        if let StateProj::NotReady { svc, req } = state.as_mut().project() {
            if let Err(e) = ready!(svc.poll_ready(cx)) {
                return Poll::Ready(Err(e));
            }
            let req = req.take().expect("already called");
            let fut = svc.call(req);
            state.set(State::called(fut));
        }

        let res = match state.as_mut().project() {
            StateProj::Called { fut } => ready!(fut.poll(cx)),
            _ => panic!("polled after complete"),
        };
        if res.is_ok() {
            state.set(State::Done);
        }
        Poll::Ready(res)
"""),
(TF,"""        match this.response.poll(cx) {
            Poll::Ready(v) => return Poll::Ready(v.map_err(Into::into)),
            Poll::Pending => {}
        }

        // Now check the sleep
        match this.sleep.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(_) => Poll::Ready(Err(Elapsed(()).into())),
        }
""","""        let polled = this.response.poll(cx);
        if polled.is_pending() {
            return this.sleep.poll(cx).map(|()| Err(Elapsed(()).into()));
        }

        polled.map(|res| res.map_err(|e| e.into()))
"""),
(EI,"""        match self {
            Either::Left(service) => EitherResponseFuture {
                kind: Kind::Left {
                    inner: service.call(request),
                },
            },
            Either::Right(service) => EitherResponseFuture {
                kind: Kind::Right {
                    inner: service.call(request),
                },
            },
        }
""","""        let kind = match self {
            Either::Left(a) => {
                let inner = a.call(request);
                Kind::Left { inner }
            }
            Either::Right(b) => {
                let inner = b.call(request);
                Kind::Right { inner }
            }
        };

        EitherResponseFuture { kind }
"""),
(MR,"""        self.inner.poll_ready(cx).map_err(Into::into)
""","""        match self.inner.poll_ready(cx) {
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(e)) => Poll::Ready(Err(Error::from(e))),
            Poll::Pending => Poll::Pending,
        }
"""),
(SL,"""        match self.project().inner.next() {
            Some((i, service)) => Poll::Ready(Some(Ok(Change::Insert(i, service)))),
            None => Poll::Ready(None),
        }
""","""        let next = self.project().inner.next();
        Poll::Ready(next.map(|(i, service)| Ok(Change::Insert(i, service))))
"""),
(SH,"""        SharedFuture::new(futures_util::future::ready(Ok(self.service.clone())))
""","""        let service = self.service.clone();
        SharedFuture::new(futures_util::future::ok(service))
"""),
(BO,"""        self.min
            .checked_mul(2_u32.saturating_pow(self.iterations))
            .unwrap_or(self.max)
            .min(self.max)
""","""        let factor = 2_u32.checked_pow(self.iterations).unwrap_or(u32::MAX);
        match self.min.checked_mul(factor) {
            Some(base) if base < self.max => base,
            _ => self.max,
        }
"""),
(BO,"""            time::Duration::new(secs as u64, nanos as u32).min(remaining)
""","""            let jitter = time::Duration::new(secs as u64, nanos as u32);
            if jitter > remaining {
                remaining
            } else {
                jitter
            }
"""),
(RN,"""        let start = range.start;
        let end = range.end;

        let range = end - start;

        let n = self.next_u64();

        (n % range) + start
""","""        let Range { start, end } = range;

        start + self.next_u64() % (end - start)
"""),
(RN,"""        hasher.write_u64(self.counter);
        self.counter = self.counter.wrapping_add(1);
        hasher.finish()
""","""        let input = self.counter;
        self.counter = input.wrapping_add(1);
        hasher.write_u64(input);
        hasher.finish()
"""),
(RN,"""    let aidx = if aidx == bidx { length - 1 } else { aidx };
""","""    let aidx = match aidx {
        a if a == bidx => length - 1,
        a => a,
    };
"""),
]
