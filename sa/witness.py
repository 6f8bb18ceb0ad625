"""Type-level witnesses: a crate whose items only type-check if the public types of tower have the
auto traits, service implementations and object safety their users build on.  Nothing is run; the
compiler's trait solver is the decision procedure, and each assertion is an obligation of its own."""
import glob, json, os, re, shutil, subprocess
from .extract import base_env, REPO, BUILD, VERIF
from .engine import CheckError

PRELUDE = r'''
#![allow(dead_code, unused_imports, unused_macros, deprecated)]
use std::{cell::Cell, future::Future, marker::PhantomData, pin::Pin, task::{Context, Poll}};
use tower::{BoxError, Service, Layer};
pub struct V<M>(PhantomData<M>);
pub struct Fu<M, T>(PhantomData<M>, PhantomData<T>);
impl<M, T> Future for Fu<M, T> { type Output = Result<T, BoxError>; fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> { unimplemented!() } }
pub struct S<M>(PhantomData<M>);
impl<M> Clone for S<M> { fn clone(&self) -> Self { S(PhantomData) } }
impl<M, R> Service<R> for S<M> { type Response = V<M>; type Error = BoxError; type Future = Fu<M, V<M>>;
  fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> { unimplemented!() } fn call(&mut self, _: R) -> Self::Future { unimplemented!() } }
impl<M> tower::load::Load for S<M> { type Metric = u64; fn load(&self) -> u64 { 0 } }
pub struct N<M>(PhantomData<M>);
impl<M, R> Service<R> for N<M> { type Response = V<M>; type Error = BoxError; type Future = Fu<M, V<M>>;
  fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> { unimplemented!() } fn call(&mut self, _: R) -> Self::Future { unimplemented!() } }
impl<M> tower::load::Load for N<M> { type Metric = u64; fn load(&self) -> u64 { 0 } }
pub struct NP<M>(PhantomData<M>);
impl<M> tower::hedge::Policy<V<M>> for NP<M> { fn clone_request(&self, _: &V<M>) -> Option<V<M>> { None } fn can_retry(&self, _: &V<M>) -> bool { false } }
impl<M> tower::filter::Predicate<V<M>> for NP<M> { type Request = V<M>; fn check(&mut self, _: V<M>) -> Result<V<M>, BoxError> { unimplemented!() } }
impl<M> tower::filter::AsyncPredicate<V<M>> for NP<M> { type Future = Fu<M, V<M>>; type Request = V<M>; fn check(&mut self, _: V<M>) -> Fu<M, V<M>> { unimplemented!() } }
impl<M, X> tower::steer::Picker<X, V<M>> for NP<M> { fn pick(&mut self, _: &V<M>, _: &[X]) -> usize { 0 } }
pub struct Mk<M>(PhantomData<M>);
impl<M> Clone for Mk<M> { fn clone(&self) -> Self { Mk(PhantomData) } }
impl<M, R> Service<R> for Mk<M> { type Response = S<M>; type Error = BoxError; type Future = Fu<M, S<M>>;
  fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> { unimplemented!() } fn call(&mut self, _: R) -> Self::Future { unimplemented!() } }
pub struct MkD<M>(PhantomData<M>);
impl<M> Clone for MkD<M> { fn clone(&self) -> Self { MkD(PhantomData) } }
impl<M, R> Service<R> for MkD<M> { type Response = D<M>; type Error = BoxError; type Future = Fu<M, D<M>>;
  fn poll_ready(&mut self, _: &mut Context<'_>) -> Poll<Result<(), BoxError>> { unimplemented!() } fn call(&mut self, _: R) -> Self::Future { unimplemented!() } }
pub struct D<M>(PhantomData<M>);
impl<M> futures_core::Stream for D<M> { type Item = Result<tower::discover::Change<u64, S<M>>, BoxError>; fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> { unimplemented!() } }
pub struct St<M>(PhantomData<M>);
impl<M> futures_core::Stream for St<M> { type Item = V<M>; fn poll_next(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<Self::Item>> { unimplemented!() } }
pub struct P<M>(PhantomData<M>);
impl<M> Clone for P<M> { fn clone(&self) -> Self { P(PhantomData) } }
pub struct PF<M>(PhantomData<M>);
impl<M> Future for PF<M> { type Output = (); fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> { unimplemented!() } }
impl<M> tower::retry::Policy<V<M>, V<M>, BoxError> for P<M> { type Future = PF<M>; fn retry(&mut self, _: &mut V<M>, _: &mut Result<V<M>, BoxError>) -> Option<PF<M>> { None } fn clone_request(&mut self, _: &V<M>) -> Option<V<M>> { None } }
impl<M> tower::hedge::Policy<V<M>> for P<M> { fn clone_request(&self, _: &V<M>) -> Option<V<M>> { None } fn can_retry(&self, _: &V<M>) -> bool { false } }
impl<M> tower::filter::Predicate<V<M>> for P<M> { type Request = V<M>; fn check(&mut self, _: V<M>) -> Result<V<M>, BoxError> { unimplemented!() } }
impl<M> tower::filter::AsyncPredicate<V<M>> for P<M> { type Future = Fu<M, V<M>>; type Request = V<M>; fn check(&mut self, _: V<M>) -> Fu<M, V<M>> { unimplemented!() } }
impl<M, X> tower::steer::Picker<X, V<M>> for P<M> { fn pick(&mut self, _: &V<M>, _: &[X]) -> usize { 0 } }
fn is_send<T: Send>() {}
fn is_sync<T: Sync>() {}
fn is_clone<T: Clone>() {}
fn is_static<T: 'static>() {}
fn is_error<T: std::error::Error + Send + Sync + 'static>() {}
fn is_service<T: Service<R, Response = X>, R, X>() {}
fn is_layer<L: Layer<I, Service = O>, I, O>() {}
fn is_load<L: tower::load::Load>() {}
fn is_discover<X: tower::discover::Discover>() {}
fn is_stream<X: futures_core::Stream>() {}
fn is_future<X: Future>() {}
fn is_make<X: tower::MakeService<T, R>, T, R>() {}
fn coerce<T: ?Sized>() {}
/// what is sent between threads but not shared
pub type Snd = Cell<u8>;
/// what is shared between threads
pub type Syn = u8;
/// neither
pub type Loc = *const u8;
'''

# name -> (type, is it a service for V<M>, is it cloneable)
SERVICES = [
    ('tower::timeout::Timeout<S<M>>', 'sc'),
    ('tower::limit::ConcurrencyLimit<S<M>>', 'sc'),
    ('tower::limit::RateLimit<S<M>>', 's'),
    ('tower::load_shed::LoadShed<S<M>>', 'sc'),
    ('tower::buffer::Buffer<V<M>, Fu<M, V<M>>>', 'sc'),
    ('tower::filter::Filter<S<M>, P<M>>', 'sc'),
    ('tower::filter::AsyncFilter<S<M>, P<M>>', 'sc'),
    ('tower::retry::Retry<P<M>, S<M>>', 'sc'),
    ('tower::hedge::Hedge<S<M>, P<M>>', 's'),
    ('tower::reconnect::Reconnect<Mk<M>, V<M>>', ''),
    ('tower::spawn_ready::SpawnReady<S<M>>', ''),
    ('tower::steer::Steer<S<M>, P<M>, V<M>>', 'sc'),
    ('tower::balance::p2c::Balance<D<M>, V<M>>', ''),
    ('tower::balance::p2c::MakeBalance<MkD<M>, V<M>>', 'c'),
    ('tower::load::Constant<S<M>, u64>', 's'),
    ('tower::load::PendingRequests<S<M>>', 's'),
    ('tower::load::PeakEwma<S<M>>', 's'),
    ('tower::make::Shared<S<M>>', 'c'),
    ('tower::make::IntoService<Mk<M>, V<M>>', 'c'),
    ('tower::util::Either<S<M>, S<M>>', 'sc'),
    ('tower::util::Optional<S<M>>', ''),
    ('tower::util::MapRequest<S<M>, P<M>>', 'c'),
    ('tower::util::MapResponse<S<M>, P<M>>', 'c'),
    ('tower::util::MapErr<S<M>, P<M>>', 'c'),
    ('tower::util::MapResult<S<M>, P<M>>', 'c'),
    ('tower::util::MapFuture<S<M>, P<M>>', 'c'),
    ('tower::util::AndThen<S<M>, P<M>>', 'c'),
    ('tower::util::Then<S<M>, P<M>>', 'c'),
    ('tower::util::ServiceFn<P<M>>', 'c'),
    ('tower::util::FutureService<Fu<M, S<M>>, S<M>>', ''),
    ('tower_test::mock::Mock<V<M>, V<M>>', 'c'),
    ('tower_test::mock::Handle<V<M>, V<M>>', ''),
    ('tower_test::mock::SendResponse<V<M>>', ''),
]
# services whose element types are fixed by closures of fn-pointer type
FNS = [
    ('tower::util::MapRequest<S<M>, fn(V<M>) -> V<M>>', 'V<M>'),
    ('tower::util::MapResponse<S<M>, fn(V<M>) -> u16>', 'u16'),
    ('tower::util::MapErr<S<M>, fn(BoxError) -> BoxError>', 'V<M>'),
    ('tower::util::MapResult<S<M>, fn(Result<V<M>, BoxError>) -> Result<u16, BoxError>>', 'u16'),
    ('tower::util::MapFuture<S<M>, fn(Fu<M, V<M>>) -> Fu<M, V<M>>>', 'V<M>'),
    ('tower::util::AndThen<S<M>, fn(V<M>) -> Fu<M, u16>>', 'u16'),
    ('tower::util::Then<S<M>, fn(Result<V<M>, BoxError>) -> Fu<M, u16>>', 'u16'),
    ('tower::util::ServiceFn<fn(V<M>) -> Fu<M, V<M>>>', 'V<M>'),
    ('tower::util::FutureService<Fu<M, S<M>>, S<M>>', 'V<M>'),
    ('tower::util::Optional<S<M>>', 'V<M>'),
    ('tower::reconnect::Reconnect<Mk<M>, u64>', 'V<M>'),
    ('tower::make::Shared<S<M>>', 'S<M>'),
    ('tower::make::IntoService<Mk<M>, V<M>>', 'S<M>'),
    ('tower::balance::p2c::MakeBalance<MkD<M>, V<M>>', 'tower::balance::p2c::Balance<D<M>, V<M>>'),
    ('tower_test::mock::Mock<V<M>, V<M>>', 'V<M>'),
]
# which need their inner services and requests to be Send to be services at all
SENDFNS = [
    ('tower::balance::p2c::Balance<D<M>, V<M>>', 'V<M>'),
    ('tower::spawn_ready::SpawnReady<S<M>>', 'V<M>'),
]
OTHER = [
    'tower::ready_cache::ReadyCache<u64, S<M>, V<M>>',
    'tower::load::PendingRequestsDiscover<D<M>>', 'tower::load::PeakEwmaDiscover<D<M>>', 'tower::load::Constant<D<M>, u64>',
    'tower::load::pending_requests::Handle', 'tower::load::peak_ewma::Handle', 'tower::load::pending_requests::Count', 'tower::load::peak_ewma::Cost',
    'tower::load::completion::TrackCompletionFuture<Fu<M, V<M>>, P<M>, tower::load::pending_requests::Handle>',
    'tower::discover::ServiceList<Vec<S<M>>>', 'tower::discover::Change<u64, S<M>>',
    'tower::util::Oneshot<S<M>, V<M>>', 'tower::util::ReadyOneshot<S<M>, V<M>>', "tower::util::Ready<'static, S<M>, V<M>>",
    'tower::util::CallAll<S<M>, St<M>>', 'tower::util::CallAllUnordered<S<M>, St<M>>',
    'tower::buffer::future::ResponseFuture<Fu<M, V<M>>>',
    'tower::retry::budget::TpsBudget', 'tower::retry::backoff::ExponentialBackoff', 'tower::retry::backoff::ExponentialBackoffMaker',
    'tower::util::rng::HasherRng', 'tower::limit::rate::Rate',
    'tower::balance::p2c::MakeFuture<Fu<M, D<M>>, V<M>>',
    "tower::make::AsService<'static, Mk<M>, V<M>>",
    'tower_test::mock::Spawn<S<M>>', 'tower_test::mock::future::ResponseFuture<V<M>>',
    'tower::ServiceBuilder<P<M>>',
]
LAYERS = [
    ('tower::timeout::TimeoutLayer', 'tower::timeout::Timeout<S<Loc>>', 'c'),
    ('tower::limit::ConcurrencyLimitLayer', 'tower::limit::ConcurrencyLimit<S<Loc>>', 'c'),
    ('tower::limit::GlobalConcurrencyLimitLayer', 'tower::limit::ConcurrencyLimit<S<Loc>>', 'c'),
    ('tower::limit::RateLimitLayer', 'tower::limit::RateLimit<S<Loc>>', 'c'),
    ('tower::load_shed::LoadShedLayer', 'tower::load_shed::LoadShed<S<Loc>>', 'c'),
    ('tower::filter::FilterLayer<P<Loc>>', 'tower::filter::Filter<S<Loc>, P<Loc>>', 'c'),
    ('tower::filter::AsyncFilterLayer<P<Loc>>', 'tower::filter::AsyncFilter<S<Loc>, P<Loc>>', 'c'),
    ('tower::retry::RetryLayer<P<Loc>>', 'tower::retry::Retry<P<Loc>, S<Loc>>', 'c'),
    ('tower::spawn_ready::SpawnReadyLayer', 'tower::spawn_ready::SpawnReady<S<Loc>>', 'c'),
    ('tower::balance::p2c::MakeBalanceLayer<MkD<Loc>, V<Loc>>', 'tower::balance::p2c::MakeBalance<MkD<Loc>, V<Loc>>', 'c', 'MkD<Loc>'),
    ('tower::buffer::BufferLayer<V<Snd>>', 'tower::buffer::Buffer<V<Snd>, Fu<Snd, V<Snd>>>', 'c', 'S<Snd>'),
    ('tower::util::MapRequestLayer<P<Loc>>', 'tower::util::MapRequest<S<Loc>, P<Loc>>', 'c'),
    ('tower::util::MapResponseLayer<P<Loc>>', 'tower::util::MapResponse<S<Loc>, P<Loc>>', 'c'),
    ('tower::util::MapErrLayer<P<Loc>>', 'tower::util::MapErr<S<Loc>, P<Loc>>', 'c'),
    ('tower::util::MapResultLayer<P<Loc>>', 'tower::util::MapResult<S<Loc>, P<Loc>>', 'c'),
    ('tower::util::MapFutureLayer<P<Loc>>', 'tower::util::MapFuture<S<Loc>, P<Loc>>', 'c'),
    ('tower::util::AndThenLayer<P<Loc>>', 'tower::util::AndThen<S<Loc>, P<Loc>>', 'c'),
    ('tower::util::ThenLayer<P<Loc>>', 'tower::util::Then<S<Loc>, P<Loc>>', 'c'),
    ('tower::layer::util::Identity', 'S<Loc>', 'c'),
    ('tower::layer::util::Stack<tower::timeout::TimeoutLayer, tower::load_shed::LoadShedLayer>', 'tower::load_shed::LoadShed<tower::timeout::Timeout<S<Loc>>>', 'c'),
    ('tower::ServiceBuilder<tower::timeout::TimeoutLayer>', 'tower::timeout::Timeout<S<Loc>>', 'c'),
    ('tower::util::BoxLayer<S<Snd>, V<Snd>, V<Snd>, BoxError>', 'tower::util::BoxService<V<Snd>, V<Snd>, BoxError>', '', 'S<Snd>'),
    ('tower::util::BoxCloneServiceLayer<S<Snd>, V<Snd>, V<Snd>, BoxError>', 'tower::util::BoxCloneService<V<Snd>, V<Snd>, BoxError>', 'c', 'S<Snd>'),
    ('tower::util::BoxCloneSyncServiceLayer<S<Syn>, V<Syn>, V<Syn>, BoxError>', 'tower::util::BoxCloneSyncService<V<Syn>, V<Syn>, BoxError>', 'c', 'S<Syn>'),
]
ERRORS = ['tower::timeout::error::Elapsed', 'tower::load_shed::error::Overloaded', 'tower::buffer::error::ServiceError', 'tower::buffer::error::Closed',
          'tower::balance::error::Discover', 'tower::util::error::optional::None', 'tower::ready_cache::error::Failed<u64>', 'tower::retry::backoff::InvalidBackoff',
          'tower_test::mock::error::Closed']
# boxed services erase what they hold
EXTRA = [
    ('is_send', 'tower::util::BoxService<V<Loc>, V<Loc>, BoxError>'),
    ('is_sync', 'tower::util::BoxService<V<Loc>, V<Loc>, BoxError>'),
    ('is_send', 'tower::util::BoxCloneService<V<Loc>, V<Loc>, BoxError>'),
    ('is_clone', 'tower::util::BoxCloneService<V<Loc>, V<Loc>, BoxError>'),
    ('is_send', 'tower::util::BoxCloneSyncService<V<Loc>, V<Loc>, BoxError>'),
    ('is_sync', 'tower::util::BoxCloneSyncService<V<Loc>, V<Loc>, BoxError>'),
    ('is_clone', 'tower::util::BoxCloneSyncService<V<Loc>, V<Loc>, BoxError>'),
    ('is_send', '<tower::util::BoxService<V<Loc>, V<Loc>, BoxError> as Service<V<Loc>>>::Future'),
    ('is_send', '<tower::util::BoxCloneService<V<Loc>, V<Loc>, BoxError> as Service<V<Loc>>>::Future'),
    ('is_send', '<tower::util::BoxCloneSyncService<V<Loc>, V<Loc>, BoxError> as Service<V<Loc>>>::Future'),
    ('is_send', 'tower::util::BoxLayer<Loc, Loc, Loc, Loc>'), ('is_sync', 'tower::util::BoxLayer<Loc, Loc, Loc, Loc>'), ('is_clone', 'tower::util::BoxLayer<Loc, Loc, Loc, Loc>'),
    ('is_send', 'tower::util::BoxCloneServiceLayer<Loc, Loc, Loc, Loc>'), ('is_sync', 'tower::util::BoxCloneServiceLayer<Loc, Loc, Loc, Loc>'),
    ('is_send', 'tower::util::BoxCloneSyncServiceLayer<Loc, Loc, Loc, Loc>'), ('is_sync', 'tower::util::BoxCloneSyncServiceLayer<Loc, Loc, Loc, Loc>'),
    ('is_clone', 'tower::util::BoxLayer<V<Loc>, V<Loc>, V<Loc>, V<Loc>>'), ('is_clone', 'tower::util::BoxCloneServiceLayer<V<Loc>, V<Loc>, V<Loc>, V<Loc>>'),
    ('is_clone', 'tower::util::BoxCloneSyncServiceLayer<V<Loc>, V<Loc>, V<Loc>, V<Loc>>'),
    ('is_load', 'tower::load::PendingRequests<S<Loc>>'), ('is_load', 'tower::load::PeakEwma<S<Loc>>'), ('is_load', 'tower::load::Constant<S<Loc>, u64>'),
    ('is_discover', 'tower::load::PendingRequestsDiscover<D<Loc>>'), ('is_discover', 'tower::load::PeakEwmaDiscover<D<Loc>>'),
    ('is_discover', 'tower::discover::ServiceList<Vec<S<Loc>>>'),
    ('is_stream', 'tower::util::CallAll<S<Loc>, St<Loc>>'), ('is_stream', 'tower::util::CallAllUnordered<S<Loc>, St<Loc>>'),
    ('is_future', 'tower::util::Oneshot<S<Loc>, V<Loc>>'), ('is_future', 'tower::util::ReadyOneshot<S<Loc>, V<Loc>>'), ('is_future', "tower::util::Ready<'static, S<Loc>, V<Loc>>"),
    ('coerce', 'dyn Service<V<Loc>, Response = V<Loc>, Error = BoxError, Future = Fu<Loc, V<Loc>>>'),
    ('coerce', 'dyn Layer<S<Loc>, Service = S<Loc>>'),
    ('coerce', 'dyn tower::load::Load<Metric = u64>'),
    ('coerce', 'dyn tower::retry::Policy<V<Loc>, V<Loc>, BoxError, Future = PF<Loc>>'),
    ('coerce', 'dyn tower::hedge::Policy<V<Loc>>'),
    ('coerce', 'dyn tower::steer::Picker<S<Loc>, V<Loc>>'),
    ('coerce', 'dyn tower::filter::Predicate<V<Loc>, Request = V<Loc>>'),
    ('coerce', 'dyn tower::retry::budget::Budget'),
    ('coerce', 'dyn tower::util::rng::Rng'),
]


def sub(t, m):
    return re.sub(r'\bM\b', m, t)


def nclone(t):
    """the same over parts which cannot be cloned"""
    return re.sub(r'\bS<', 'N<', re.sub(r'\bP<', 'NP<', t))


# these clone their service or policy, or hand it out
CLONING = ('AsyncFilter<', 'Retry<', 'Shared<', 'Hedge<', 'Balance<', 'MakeBalance<')


def assertions():
    """(source line, what it claims)"""
    out = []

    def add(f, args, what):
        out.append(("%s::<%s>();" % (f, args), what))

    short = lambda t: re.sub(r'\b(?:[a-z_0-9]+::)+', '', t)
    for t, fl in SERVICES:
        loc = 'Snd' if 'Buffer' in t else 'Loc'
        add('is_send', sub(t, 'Snd'), '%s is Send when its parts are' % short(t))
        add('is_sync', sub(t, 'Syn'), '%s is Sync when its parts are' % short(t))
        if 'c' in fl:
            add('is_clone', sub(t, loc), '%s is Clone' % short(t))
        if 's' in fl:
            add('is_service', sub('%s, V<M>, V<M>' % t, loc), '%s is a service' % short(t))
            if nclone(t) != t and not any(x in t for x in CLONING):
                add('is_service', sub('%s, V<M>, V<M>' % nclone(t), loc), '%s is a service' % short(nclone(t)))
            add('is_send', sub('<%s as Service<V<M>>>::Future' % t, 'Snd'), 'the response future of %s is Send when its parts are' % short(t))
            add('is_sync', sub('<%s as Service<V<M>>>::Future' % t, 'Syn'), 'the response future of %s is Sync when its parts are' % short(t))
    for t, rs in FNS + SENDFNS:
        add('is_service', sub('%s, V<M>, %s' % (t, rs), 'Loc' if (t, rs) in FNS else 'Snd'), '%s is a service answering %s' % (short(t), short(rs)))
        if nclone(t) != t and nclone(rs) == rs and not any(x in t for x in CLONING):
            t2 = nclone(t).replace('fn(Fu', 'fn(Fu')
            add('is_service', sub('%s, V<M>, %s' % (t2, rs), 'Loc' if (t, rs) in FNS else 'Snd'), '%s is a service answering %s' % (short(t2), short(rs)))
        add('is_send', sub('<%s as Service<V<M>>>::Future' % t, 'Snd'), 'the response future of %s is Send when its parts are' % short(t))
        add('is_sync', sub('<%s as Service<V<M>>>::Future' % t, 'Syn'), 'the response future of %s is Sync when its parts are' % short(t))
    for t in OTHER:
        add('is_send', sub(t, 'Snd'), '%s is Send when its parts are' % short(t))
        add('is_sync', sub(t, 'Syn'), '%s is Sync when its parts are' % short(t))
    for l in LAYERS:
        t, o, fl = l[:3]
        add('is_layer', '%s, %s, %s' % (t, l[3] if len(l) > 3 else 'S<Loc>', o), '%s makes %s' % (short(t), short(o)))
        if len(l) == 3 and nclone(o) != o:
            add('is_layer', '%s, N<Loc>, %s' % (t, o.replace('S<', 'N<')), '%s makes %s' % (short(t), short(o.replace('S<', 'N<'))))
        add('is_send', t.replace('Loc', 'Snd'), '%s is Send when its parts are' % short(t))
        add('is_sync', t.replace('Loc', 'Syn').replace('Snd', 'Syn'), '%s is Sync when its parts are' % short(t))
        if 'c' in fl:
            add('is_clone', t, '%s is Clone' % short(t))
    for t in ERRORS:
        add('is_error', t, '%s is an error that can be sent, shared and boxed' % short(t))
    for f, t in EXTRA:
        add(f, t, {'coerce': '%s can be made into a trait object'}.get(f, '%s ' + f.replace('_', ' ')) % short(t))
    return out


def write(d, lines):
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\n'
                'tower = { path = "%s/tower", features = ["full"] }\ntower-test = { path = "%s/tower-test" }\nfutures-core = "0.3"\n[workspace]\n' % (REPO, REPO))
    src = PRELUDE
    rows = {}
    n = src.count('\n') + 1
    for i, (l, what) in lines:
        src += 'fn w%d() { %s }\n' % (i, l)
        rows[n] = (i, l, what)
        n += 1
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write(src)
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock):
        # the workspace's own resolution, less its members
        with open(lock) as f, open(os.path.join(d, 'Cargo.lock'), 'w') as g:
            g.write(f.read())
    return rows


def check(d, target, extra=()):
    env = base_env()
    env['CARGO_TARGET_DIR'] = target
    for p in glob.glob(os.path.join(target, 'debug/.fingerprint/tower*')):
        shutil.rmtree(p, ignore_errors=True)
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-q', '--message-format=json'] + list(extra), cwd=d, env=env, capture_output=True, text=True)
    msgs = []
    for l in r.stdout.splitlines():
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('reason') == 'compiler-message':
                msgs.append((m.get('target', {}).get('name'), m['message']))
    return r.returncode, msgs, r.stderr


VERDICT = {'E0277', 'E0271', 'E0038', 'E0310', 'E0597', 'E0491'}


def place(rendered):
    """the construct of the workspace the compiler blames"""
    m = re.findall(r'(?:-->|:::) (?:%s/)?((?:tower|tower-test|tower-layer|tower-service)/src/[^\s:]+:\d+)' % re.escape(REPO), rendered)
    return m[0] if m else None


def settle(d, target, todo, writer, extra=()):
    """check the assertions, leaving out those with an error until the crate builds"""
    notes, bad = [], []
    for _ in range(6):
        rows = writer(d, todo)
        rc, msgs, err = check(d, target, extra)
        if rc == 0:
            return bad, notes, todo
        drop = {}
        outside = []
        for t, m in msgs:
            if m['level'] != 'error' or m['message'].startswith('aborting'):
                continue
            code = (m.get('code') or {}).get('code')
            line = [s['line_start'] for s in m['spans'] if s['is_primary'] and s['file_name'].endswith('src/lib.rs')] if t == 'witness' else []
            if line and line[0] in rows:
                i, l, what = rows[line[0]]
                drop.setdefault(i, []).append((code, l, what, m['message'], m.get('rendered') or ''))
            else:
                outside.append((t, code, m['message'], m.get('rendered') or ''))
        if not drop:
            raise Outside(outside, err)
        for i, v in drop.items():
            if any(c not in VERDICT for c, *_ in v):
                notes.append('%s: %s' % (v[0][2], v[0][3]))
            else:
                bad.append(v[0])
        todo = [x for x in todo if x[0] not in drop]
    raise CheckError('the witness crate does not settle')


class Outside(Exception):
    def __init__(self, errors, err):
        Exception.__init__(self, 'the witness crate does not build: %s' % ([e[2] for e in errors[:2]] or err[-300:]))
        self.errors = errors


def autotraits(mirdir, tier):
    """(findings, coverage, note)"""
    d, target = os.path.join(BUILD, 'witness'), os.path.join(BUILD, 'wtarget')
    todo = list(enumerate(assertions()))
    try:
        bad, notes, left = settle(d, target, todo, write)
    except Outside as e:
        return [], {}, str(e)
    f = [{'component': 'witness', 'kind': 'claim-fails', 'site': place(r) or l, 'what': '%s: no longer (%s)' % (what, msg), 'trace': r.splitlines()[:60]} for code, l, what, msg, r in bad]
    return f, {'instances': len(todo) - len(notes), 'paths': 0, 'functions': [], 'left_out': notes, 'findings': len(f)}, (
        '; '.join(notes)[:300] if len(notes) == len(todo) else None)


# what each feature of the crate `tower` has to provide on its own
COMMON = ['use tower::{Layer, Service, ServiceBuilder, BoxError};', 'use tower::layer::{layer_fn, LayerFn, util::{Identity, Stack}};']
B = 'let _ = tower::ServiceBuilder::new()'
FEATURES = {
    'balance': ['use tower::balance::{error::Discover, p2c::{Balance, MakeBalance, MakeBalanceLayer, MakeFuture}};'],
    'buffer': ['use tower::buffer::{Buffer, BufferLayer, error::{ServiceError, Closed}, future::ResponseFuture};', B + '.buffer::<()>(1);'],
    'discover': ['use tower::discover::{Change, Discover, ServiceList};'],
    'filter': ['use tower::filter::{Filter, AsyncFilter, FilterLayer, AsyncFilterLayer, Predicate, AsyncPredicate};', B + '.filter(());', B + '.filter_async(());'],
    'hedge': ['use tower::hedge::{Hedge, Policy, Future};'],
    'limit': ['use tower::limit::{ConcurrencyLimit, ConcurrencyLimitLayer, GlobalConcurrencyLimitLayer, RateLimit, RateLimitLayer, rate::Rate};',
              B + '.concurrency_limit(1);', B + '.rate_limit(1, std::time::Duration::from_secs(1));'],
    'load': ['use tower::load::{Constant, Load, PeakEwma, PendingRequests, CompleteOnResponse, TrackCompletion, peak_ewma, pending_requests};'],
    'load-shed': ['use tower::load_shed::{LoadShed, LoadShedLayer, error::Overloaded, future::ResponseFuture};', B + '.load_shed();'],
    'make': ['use tower::make::{MakeService, MakeConnection, AsService, IntoService, Shared};', 'use tower::MakeService;'],
    'ready-cache': ['use tower::ready_cache::{ReadyCache, error::Failed};'],
    'reconnect': ['use tower::reconnect::{Reconnect, ResponseFuture};'],
    'retry': ['use tower::retry::{Policy, Retry, RetryLayer, backoff::{Backoff, MakeBackoff, ExponentialBackoff, ExponentialBackoffMaker}, budget::{Budget, TpsBudget}};', B + '.retry(());'],
    'spawn-ready': ['use tower::spawn_ready::{SpawnReady, SpawnReadyLayer, future::ResponseFuture};'],
    'steer': ['use tower::steer::{Picker, Steer};'],
    'timeout': ['use tower::timeout::{Timeout, TimeoutLayer, error::Elapsed, future::ResponseFuture};', B + '.timeout(std::time::Duration::from_secs(1));'],
    'util': ['use tower::{ServiceExt, service_fn};',
             'use tower::util::{AndThen, BoxService, BoxCloneService, BoxCloneSyncService, UnsyncBoxService, BoxLayer, BoxCloneServiceLayer, BoxCloneSyncServiceLayer, CallAll, CallAllUnordered, Either, '
             'FutureService, MapErr, MapRequest, MapResponse, MapResult, MapFuture, Oneshot, Optional, ReadyOneshot, ServiceFn, Then, option_layer, future_service};',
             B + '.option_layer(Some(tower::layer::util::Identity::new()));', B + '.map_request(|x: u8| x);', B + '.map_response(|x: u8| x);', B + '.map_err(|x: u8| x);',
             B + '.map_future(|x: u8| x);', B + '.then(|x: u8| x);', B + '.and_then(|x: u8| x);', B + '.map_result(|x: u8| x);'],
    'log': [],
    # methods which need two features
    'filter+util': ['fn f<S: tower::Service<()>, P: tower::filter::Predicate<(), Request = ()>>(s: S, p: P) { use tower::ServiceExt; let _ = s.filter(p); }',
                    'fn f<S: tower::Service<(), Error = BoxError> + Clone, P: tower::filter::AsyncPredicate<(), Request = ()>>(s: S, p: P) { use tower::ServiceExt; let _ = s.filter_async(p); }'.replace('BoxError', 'tower::BoxError')],
}
FEATURES['full'] = [l for k, v in sorted(FEATURES.items()) for l in v]


def feature_crate(d, feature, todo):
    os.makedirs(os.path.join(d, 'src'), exist_ok=True)
    with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
        f.write('[package]\nname = "witness"\nversion = "0.0.0"\nedition = "2021"\n[lib]\npath = "src/lib.rs"\n[dependencies]\n'
                'tower = { path = "%s/tower", default-features = false%s }\n[workspace]\n' % (REPO, ', features = [%s]' % ', '.join('"%s"' % x for x in feature.split('+')) if feature else ''))
    lock = os.path.join(REPO, 'Cargo.lock')
    if os.path.exists(lock):
        with open(lock) as f, open(os.path.join(d, 'Cargo.lock'), 'w') as g:
            g.write(f.read())
    rows = {}
    with open(os.path.join(d, 'src', 'lib.rs'), 'w') as f:
        f.write('#![allow(warnings)]\n')
        for n, (i, (l, what)) in enumerate(todo):
            f.write('fn w%d() { %s }\n' % (i, l))
            rows[n + 2] = (i, l, what)
    return rows


def feature_job(feature):
    name = feature or 'none'
    import threading
    # one target directory for each worker: dependencies built for one feature serve the next
    w = threading.current_thread().name.rsplit('_', 1)[-1]
    d, target = os.path.join(BUILD, 'feature', name), os.path.join(BUILD, 'feature', 't-' + w)
    todo = [(i, (l, 'feature %s provides %s' % (name, l))) for i, l in enumerate(COMMON + FEATURES.get(feature, []))]
    found, notes = [], []
    for _ in range(4):
        rows = feature_crate(d, feature, todo)
        rc, msgs, err = check(d, target)
        if rc == 0:
            return name, found, len(todo) + len(found), notes
        drop = {}
        errs = [(t, m) for t, m in msgs if m['level'] == 'error' and not m['message'].startswith('aborting')]
        for t, m in errs:
            r = m.get('rendered') or ''
            if t == 'witness':
                line = [s['line_start'] for s in m['spans'] if s['is_primary']]
                if line and line[0] in rows:
                    i, l, what = rows[line[0]]
                    drop[i] = 1
                    found.append({'component': 'feature ' + name, 'kind': 'missing-with-feature', 'site': 'tower[%s] %s' % (name, l[:90]), 'what': m['message'], 'trace': r.splitlines()[:40]})
            elif (t or '').replace('-', '_') in ('tower', 'tower_layer', 'tower_service'):
                sp = [s for s in m['spans'] if s['is_primary']]
                w = '%s:%d' % (os.path.relpath(sp[0]['file_name'], REPO) if sp and sp[0]['file_name'].startswith('/') else sp[0]['file_name'], sp[0]['line_start']) if sp else '?'
                found.append({'component': 'feature ' + name, 'kind': 'does-not-build-alone', 'site': 'tower[%s] %s' % (name, w), 'what': m['message'], 'trace': r.splitlines()[:40]})
        if not drop:
            if not errs or not found:
                notes.append('feature %s: %s' % (name, err[-200:]))
            return name, found, len(todo), notes
        todo = [x for x in todo if x[0] not in drop]
    return name, found, len(todo), notes


def features(mirdir, tier):
    from concurrent.futures import ThreadPoolExecutor
    with open(os.path.join(REPO, 'tower', 'Cargo.toml')) as f:
        src = f.read()
    m = re.search(r'^\[features\]$(.*?)^\[', src, re.S | re.M)
    declared = re.findall(r'^([a-z][a-z-]*) *=', m.group(1), re.M) if m else []
    todo = [None] + sorted((set(declared) | set(FEATURES)) - {'full'}) + ['full']
    if tier == 'thorough':
        one = sorted(set(declared) - {'full'})
        todo += [a + '+' + b for n, a in enumerate(one) for b in one[n + 1:] if a + '+' + b not in todo]
    found, notes, n = [], [], 0
    with ThreadPoolExecutor(8) as ex:
        for name, f, k, ns in ex.map(feature_job, todo):
            found += f
            n += k
            notes += ns
    # a feature which is gone cannot be resolved: that is a finding, other resolution failures are not
    for x in sorted({y for k in FEATURES for y in k.split('+')} - set(declared)):
        found.append({'component': 'feature ' + x, 'kind': 'feature-missing', 'site': 'tower/Cargo.toml', 'what': 'feature %s is not declared' % x, 'trace': []})
    return found, {'instances': n, 'paths': 0, 'functions': [], 'features': [x or 'none' for x in todo], 'left_out': notes, 'findings': len(found)}, ('; '.join(notes) if len(notes) == len(todo) else None)


def nounsafe(mirdir, tier):
    """every crate again, with the lint that rejects unsafe code made an error that cannot be allowed"""
    env = base_env()
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'utarget')
    for p in glob.glob(os.path.join(BUILD, 'utarget', 'debug/.fingerprint/tower*')):
        shutil.rmtree(p, ignore_errors=True)
    env['RUSTFLAGS'] = '-F unsafe_code'
    r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-q', '--keep-going', '--message-format=json', '-p', 'tower', '-p', 'tower-layer', '-p', 'tower-service', '-p', 'tower-test', '--lib', '--all-features'],
                       cwd=REPO, env=env, capture_output=True, text=True)
    found, seen = [], set()
    for l in r.stdout.splitlines():
        if not l.startswith('{'):
            continue
        m = json.loads(l)
        if m.get('reason') == 'compiler-artifact':
            seen.add(m['target']['name'].replace('-', '_'))
        if m.get('reason') != 'compiler-message':
            continue
        x = m['message']
        t = m['target']['name'].replace('-', '_')
        code = (x.get('code') or {}).get('code')
        if x['level'] == 'error' and t.startswith('tower'):
            sp = [s for s in x['spans'] if s['is_primary']]
            if code == 'unsafe_code' or (code == 'E0453' and 'unsafe_code' in x['message']):
                seen.add(t)
                found.append({'component': t, 'kind': 'unsafe', 'site': '%s:%d' % (sp[0]['file_name'], sp[0]['line_start']) if sp else t, 'what': x['message'], 'trace': (x.get('rendered') or '').splitlines()[:20]})
    want = {'tower', 'tower_layer', 'tower_service', 'tower_test'}
    note = None
    if not found and not want <= seen:
        note = 'not compiled: %s' % sorted(want - seen)
    return found, {'instances': len(seen & want), 'paths': 0, 'functions': [], 'crates': sorted(seen & want), 'left_out': [note] if note else [], 'findings': len(found)}, note
