T='tower/src/'; U=T+'util/'
AT=U+'and_then.rs'; TH=U+'then.rs'; EI=U+'either.rs'; OM=U+'optional/mod.rs'; OF=U+'optional/future.rs'
MR=U+'map_result.rs'; MS=U+'map_response.rs'; MF=U+'map_future.rs'; MQ=U+'map_request.rs'; ME=U+'map_err.rs'
BS=U+'boxed/sync.rs'; BC=U+'boxed_clone.rs'; BCS=U+'boxed_clone_sync.rs'; BL=U+'boxed/layer.rs'; SF=U+'service_fn.rs'
CO=U+'call_all/ordered.rs'; CC=U+'call_all/common.rs'; DL=T+'discover/list.rs'; MK=T+'make/make_service.rs'; SH=T+'make/make_service/shared.rs'
MC=T+'make/make_connection.rs'; LC=T+'limit/concurrency/future.rs'; BE=T+'buffer/error.rs'; BF=T+'buffer/future.rs'; CN=T+'load/constant.rs'; MB=T+'balance/p2c/make.rs'
EDITS=[
(AT,"""        AndThenFuture::new(self.inner.call(request).err_into().and_then(self.f.clone()))
""","""        let next = self.f.clone();
        let response = self.inner.call(request).err_into();
        AndThenFuture {
            inner: response.and_then(next),
        }
"""),
(AT,"""        self.inner.poll_ready(cx).map_err(Into::into)
""","""        match self.inner.poll_ready(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Ok(())) => Poll::Ready(Ok(())),
            Poll::Ready(Err(e)) => Poll::Ready(Err(e.into())),
        }
"""),
(TH,"""        ThenFuture::new(self.inner.call(request).then(self.f.clone()))
""","""        let Self { inner, f } = self;
        let f = f.clone();
        ThenFuture::new(inner.call(request).then(move |r| f(r)))
""".replace('move |r| f(r)','f')),
(TH,"""        self.inner.poll_ready(cx).map_err(Into::into)
""","""        self.inner.poll_ready(cx).map(|r| r.map_err(Into::into))
"""),
(EI,"""            Either::Left(service) => EitherResponseFuture {
                kind: Kind::Left {
                    inner: service.call(request),
                },
            },
            Either::Right(service) => EitherResponseFuture {
                kind: Kind::Right {
                    inner: service.call(request),
                },
            },
        }
""","""            Either::Left(service) => {
                let inner = service.call(request);
                EitherResponseFuture::from(Kind::Left { inner })
            }
            Either::Right(service) => {
                let inner = service.call(request);
                EitherResponseFuture::from(Kind::Right { inner })
            }
        }
"""),
(EI,"""impl<A, B> Future for EitherResponseFuture<A, B>
""","""impl<A, B> From<Kind<A, B>> for EitherResponseFuture<A, B> {
    fn from(kind: Kind<A, B>) -> Self {
        Self { kind }
    }
}

impl<A, B> Future for EitherResponseFuture<A, B>
"""),
(OM,"""        match self.inner {
            Some(ref mut inner) => match inner.poll_ready(cx) {
                Poll::Ready(r) => Poll::Ready(r.map_err(Into::into)),
                Poll::Pending => Poll::Pending,
            },
            // None services are always ready
            None => Poll::Ready(Ok(())),
        }
""","""        self.inner
            .as_mut()
            .map_or(Poll::Ready(Ok(())), |inner| {
                inner.poll_ready(cx).map_err(Into::into)
            })
"""),
(OM,"""        let inner = self.inner.as_mut().map(|i| i.call(request));
        ResponseFuture::new(inner)
""","""        ResponseFuture::new(match &mut self.inner {
            Some(inner) => Some(inner.call(request)),
            None => None,
        })
"""),
(OF,"""        match self.project().inner.as_pin_mut() {
            Some(inner) => Poll::Ready(Ok(ready!(inner.poll(cx)).map_err(Into::into)?)),
            None => Poll::Ready(Err(error::None::new().into())),
        }
""","""        let Some(inner) = self.project().inner.as_pin_mut() else {
            return Poll::Ready(Err(error::None::new().into()));
        };
        let out = ready!(inner.poll(cx));
        Poll::Ready(out.map_err(|e| e.into()))
"""),
(MR,"""        MapResultFuture::new(self.inner.call(request).map(self.f.clone()))
""","""        let f = self.f.clone();
        let fut = self.inner.call(request);
        MapResultFuture::new(FutureExt::map(fut, f))
"""),
(MS,"""        MapResponseFuture::new(self.inner.call(request).map_ok(self.f.clone()))
""","""        let fut = self.inner.call(request);
        MapResponseFuture::new(fut.map_ok(F::clone(&self.f)))
"""),
(MF,"""        (self.f)(self.inner.call(req))
""","""        let Self { inner, f } = self;
        let fut = inner.call(req);
        f(fut)
"""),
(MQ,"""        self.inner.call((self.f)(request))
""","""        let Self { inner, ref mut f } = self;
        let mapped = f(request);
        inner.call(mapped)
""".replace("{ inner, ref mut f }","{ inner, f }")),
(BS,"""            Box::new(inner.map_future(|f: S::Future| Box::pin(f) as _));
        let inner = SyncWrapper::new(inner);
        BoxService { inner }
""","""            Box::new(inner.map_future(|f: S::Future| -> BoxFuture<U, E> {
                Box::pin(async move { f.await })
            }));
        Self {
            inner: SyncWrapper::new(inner),
        }
"""),
(BC,"""        let inner = inner.map_future(|f| Box::pin(f) as _);
        BoxCloneService(Box::new(inner))
""","""        Self(Box::new(inner.map_future(|f: S::Future| {
            let fut: Self::Fut = Box::pin(f);
            fut
        })))
""".replace("Self::Fut","BoxFuture<'static, Result<U, E>>")),
(BC,"""        Self(self.0.clone_box())
""","""        let BoxCloneService(inner) = self;
        BoxCloneService(inner.clone_box())
"""),
(BCS,"""        let inner = inner.map_future(|f| Box::pin(f) as _);
        BoxCloneSyncService(Box::new(inner))
""","""        BoxCloneSyncService(Box::new(
            inner.map_future(|f: S::Future| futures_util::FutureExt::boxed(f)),
        ))
"""),
(BL,"""            let out = inner_layer.layer(inner);
            BoxService::new(out)
        });

        Self {
            boxed: Arc::new(layer),
        }
""","""            BoxService::new(inner_layer.layer(inner))
        });
        let boxed = Arc::new(layer);
        Self { boxed }
"""),
(SF,"""        Ok(()).into()
""","""        Poll::Ready(Ok(()))
"""),
(CO,"""        FuturesOrdered::push_back(self, future)
""","""        self.extend(std::iter::once(future))
"""),
(CC,"""            if let Poll::Ready(r) = this.queue.poll(cx) {
                if let Some(rsp) = r.transpose()? {
                    return Poll::Ready(Some(Ok(rsp)));
                }
            }
""","""            match this.queue.poll(cx) {
                Poll::Ready(Some(Ok(rsp))) => return Poll::Ready(Some(Ok(rsp))),
                Poll::Ready(Some(Err(e))) => return Poll::Ready(Some(Err(e))),
                Poll::Ready(None) | Poll::Pending => {}
            }
"""),
(DL,"""        match self.project().inner.next() {
            Some((i, service)) => Poll::Ready(Some(Ok(Change::Insert(i, service)))),
            None => Poll::Ready(None),
        }
""","""        let next = self.project().inner.next();
        Poll::Ready(next.map(|(key, svc)| Ok(Change::Insert(key, svc))))
"""),
(MK,"""        Service::poll_ready(self, cx)
    }

    fn make_service(&mut self, target: Target) -> Self::Future {
        Service::call(self, target)
""","""        <M as Service<Target>>::poll_ready(self, cx)
    }

    fn make_service(&mut self, target: Target) -> Self::Future {
        <M as Service<Target>>::call(self, target)
"""),
(SH,"""        SharedFuture::new(futures_util::future::ready(Ok(self.service.clone())))
""","""        let service = self.service.clone();
        SharedFuture::new(futures_util::future::ok(service))
"""),
(LC,"""        Poll::Ready(ready!(self.project().inner.poll(cx)))
""","""        match self.project().inner.poll(cx) {
            Poll::Ready(out) => Poll::Ready(out),
            Poll::Pending => Poll::Pending,
        }
"""),
(BE,"""        let inner = Arc::new(inner);
        ServiceError { inner }
""","""        Self {
            inner: inner.into(),
        }
"""),
(BF,"""                ResponseStateProj::Rx { rx } => match ready!(rx.poll(cx)) {
                    Ok(Ok(fut)) => this.state.set(ResponseState::Poll { fut }),
                    Ok(Err(e)) => return Poll::Ready(Err(e.into())),
                    Err(_) => return Poll::Ready(Err(Closed::new().into())),
                },
                ResponseStateProj::Poll { fut } => return fut.poll(cx).map_err(Into::into),
""","""                ResponseStateProj::Rx { rx } => {
                    let sent = match rx.poll(cx) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(sent) => sent,
                    };
                    let fut = match sent {
                        Err(_closed) => return Poll::Ready(Err(Box::new(Closed::new()))),
                        Ok(res) => res?,
                    };
                    this.state.set(ResponseState::Poll { fut });
                }
                ResponseStateProj::Poll { fut } => {
                    let out = ready!(fut.poll(cx));
                    return Poll::Ready(out.map_err(Into::into));
                }
"""),
(CN,"""        let change = match ready!(Pin::new(this.inner).poll_discover(cx)).transpose()? {
            None => return Poll::Ready(None),
            Some(Insert(k, svc)) => Insert(k, Constant::new(svc, *this.load)),
            Some(Remove(k)) => Remove(k),
        };

        Poll::Ready(Some(Ok(change)))
""","""        let load = *this.load;
        Pin::new(this.inner).poll_discover(cx).map(|next| {
            next.map(|change| {
                change.map(|change| match change {
                    Insert(k, inner) => Insert(k, Constant { inner, load }),
                    Remove(k) => Remove(k),
                })
            })
        })
"""),
(MB,"""        let this = self.project();
        let inner = ready!(this.inner.poll(cx))?;
        let svc = Balance::new(inner);
        Poll::Ready(Ok(svc))
""","""        self.project().inner.poll(cx).map_ok(Balance::new)
"""),
]
