from .props import prop, ALL, MGC, TRUST

T = "tower/src/"

prop('C01', "Every request is dispatched only to a service that reported readiness",
     "Whenever a tower service or future forwards a request to a service it wraps, that same service instance has answered its readiness poll with success after its last request and "
     "before this one, as long as the caller itself keeps the service protocol. This holds for every middleware, for both handles of a cloned middleware, and for every order of "
     "readiness polls, requests, clones, completions and cancellations.",
     ["histories", "schedules", "programs"], "all middleware, all operation sequences of a protocol-abiding client, all readiness answers of the wrapped services",
     "Tests drive one scripted inner service through a handful of sequences; the rule must hold after every history of pending, error, clone, drop and completion.",
     [T + "util/oneshot.rs", T + "steer/mod.rs", T + "balance/p2c/service.rs", T + "ready_cache/cache.rs", T + "buffer/worker.rs", T + "retry/future.rs", T + "hedge/select.rs",
      T + "filter/future.rs", T + "limit/rate/service.rs", T + "load_shed/mod.rs", T + "spawn_ready/service.rs", T + "reconnect/mod.rs"],
     ["the typestate of each wrapped service (not polled / pending / ready / failed), tracked per instance", "poll_ready of each middleware"],
     comps=ALL, kinds={'ready'}, technique=MGC, note="Every path of every component's public operations is followed; a dispatch to an instance whose typestate is not 'ready' is reported. " + TRUST)

prop('C02', "A pending operation is always woken when it can make progress",
     "Whenever a poll of a tower service, future or stream returns pending, the caller's task is registered with something that will wake it: no poll returns pending with nothing "
     "registered, and no operation becomes able to make progress (because a permit, a slot, a timer, a message or a worker changed state) without the waiting task being notified, and no single poll asks "
     "something pending over and over instead of returning. "
     "This holds for every interleaving of operations on the handles and futures which share state.",
     ["schedules", "histories"], "all reachable abstract states of each component with its clones, response futures and background workers",
     "A lost wake-up shows only in the one schedule where nothing else happens to wake the task; tests poll by hand or re-poll on other wake-ups.",
     [T + "buffer/service.rs", T + "buffer/worker.rs", T + "limit/concurrency/service.rs", T + "limit/rate/service.rs", T + "spawn_ready/service.rs", T + "balance/p2c/service.rs",
      T + "ready_cache/cache.rs", T + "hedge/delay.rs", T + "util/call_all/common.rs", T + "timeout/future.rs", T + "reconnect/mod.rs"],
     ["context passed to each inner poll", "tokio semaphore / mpsc / oneshot / timer registration", "self-wake of cancelled ready-cache entries"],
     comps=ALL, kinds={'wake'}, technique=MGC + "; at every state each pending operation is re-examined with the sources it registered with held silent",
     note="Two rules per pending result: something was given the caller's waker; and with all registered sources silent a re-poll stays pending. A third cuts every path on which one poll finds the same source pending seven times without an answer in between. " + TRUST)

prop('C03', "Protocol-abiding use never panics",
     "No sequence of public operations which keeps the documented protocol (request only after readiness, no poll after completion, documented constructor preconditions) makes any tower service, "
     "future, stream or background worker panic, whatever the wrapped services, policies and streams answer.",
     ["histories", "inputs", "fault_sequences"], "all operation sequences of a protocol-abiding client and all answers of user code",
     "The panics sit on unwrap/expect/unreachable/indexing sites whose guard is an invariant over histories (state machines left in a wrong state); tests pass through few of those states.",
     [T + "retry/future.rs", T + "util/oneshot.rs", T + "limit/concurrency/service.rs", T + "limit/rate/service.rs", T + "ready_cache/cache.rs", T + "balance/p2c/service.rs", T + "buffer/worker.rs",
      T + "reconnect/mod.rs", T + "util/future_service.rs", T + "util/call_all/common.rs", T + "filter/future.rs", T + "hedge/mod.rs"],
     ["explicit panic/expect/unreachable sites and compiler-inserted assertions (overflow, bounds, resume-after-return)"],
     comps=ALL, kinds={'panic'}, technique=MGC, note="A reachable panic terminator on an abstract path is reported; arithmetic on unknown quantities is not evaluated (see not-applicable notes in DESIGN.md). " + TRUST)

prop('C04', "Completed futures and ended streams are never polled again",
     "Once a future, task handle or one-shot receiver given to or created by tower has produced its value, or a request/discovery stream has ended, tower does not poll it again, "
     "whatever the caller does afterwards within the protocol.",
     ["histories", "schedules"], "all operation sequences of a protocol-abiding client",
     "Re-polling only shows with inner futures that panic on it, in the one state where the completion is forgotten; tests use futures which tolerate it.",
     [T + "balance/p2c/service.rs", T + "util/call_all/common.rs", T + "util/call_all/unordered.rs", T + "hedge/select.rs", T + "retry/future.rs", T + "util/oneshot.rs", T + "reconnect/mod.rs",
      T + "spawn_ready/service.rs", T + "buffer/future.rs", T + "filter/future.rs"],
     ["state machine transitions on completion", "end-of-stream flags"],
     comps=ALL, kinds={'repoll'}, technique=MGC, note="Typestate live/done per future and live/ended per stream. " + TRUST)

prop('C05', "A clone never inherits readiness or reserved capacity",
     "Cloning a tower service that already reported readiness yields a service which has to be driven to readiness itself: the clone neither uses readiness, permits or slots obtained by the original nor "
     "takes them away, so polling and calling either handle, in any order, is as safe as with independently built ones.",
     ["histories", "schedules"], "all interleavings of operations on an original and its clones",
     "Tests clone before driving readiness; the defect appears only when a handle is cloned between readiness and request.",
     [T + "limit/concurrency/service.rs", T + "buffer/service.rs", T + "load_shed/mod.rs", T + "steer/mod.rs", T + "util/boxed_clone.rs", T + "retry/mod.rs"],
     ["hand-written Clone impls"], comps=ALL, kinds=None, clone_diff=True,
     technique=MGC + "; findings which disappear when the client never clones", note="Each cloneable component is analysed twice, with and without cloning; what only cloning exposes is reported. " + TRUST)

prop('C06', "Readiness, once reported, stays until a request is dispatched",
     "After a service has answered its readiness poll with success, further readiness polls before the next request do not answer pending again unless a service it wraps itself took its readiness back or its "
     "set of endpoints changed.",
     ["histories", "schedules"], "all operation sequences of a protocol-abiding client",
     "Tests poll readiness once before each request; the revocation needs repeated readiness polls in a particular state.",
     [T + "reconnect/mod.rs", T + "limit/rate/service.rs", T + "limit/concurrency/service.rs", T + "buffer/service.rs", T + "spawn_ready/service.rs", T + "steer/mod.rs"],
     ["poll_ready of each middleware"], comps=ALL, kinds={'stable'}, technique=MGC, note=TRUST)

prop('C07', "Combinators pass requests, responses, errors and readiness through unaltered",
     "Each transforming combinator and type-erasing wrapper dispatches every request exactly once to the wrapped service, applies the user's function exactly once to exactly the documented value (request, response, error, result or "
     "future), and resolves to exactly what the wrapped call resolved to after that; readiness and readiness errors are the wrapped service's own. Wrappers without a function change nothing at all.",
     ["inputs", "histories", "programs"], "all requests, responses, errors and all sequences of operations on two cloned handles",
     "Unit tests check one value on one path each; most wrappers have no test of their error or readiness path.",
     [T + "util/map_request.rs", T + "util/map_response.rs", T + "util/map_err.rs", T + "util/map_result.rs", T + "util/map_future.rs", T + "util/and_then.rs", T + "util/then.rs", T + "util/optional/mod.rs",
      T + "util/boxed/sync.rs", T + "util/boxed/unsync.rs", T + "util/boxed_clone.rs", T + "util/boxed_clone_sync.rs"],
     ["provenance labels from the request to the wrapped call and from its result to the returned value"],
     comps=('MapRequest', 'MapResponse', 'MapErr', 'MapResult', 'AndThen', 'Then', 'MapFuture', 'Optional', 'OptionalNone', 'BoxService', 'UnsyncBoxService', 'BoxCloneService', 'BoxCloneSyncService', 'EitherLeft', 'EitherRight', 'ServiceFn', 'MutRef', 'Boxed'),
     technique=MGC + "; provenance of every returned value compared with the documented one", note="User functions are uninterpreted; what is decided is which value each is applied to and how often. " + TRUST)

prop('C13', "LoadShed answers at once and sheds exactly the requests it may not forward",
     "A load-shedding service always reports readiness at once unless the wrapped service failed; a request is forwarded if and only if the wrapped service was ready when last asked, and otherwise resolves immediately with the overload error "
     "without reaching the wrapped service. Forwarded requests resolve to the wrapped response; errors of the wrapped service are never turned into overload.",
     ["histories", "inputs"], "all sequences of readiness polls, requests and clones",
     "The single test walks one ready/not-ready sequence; stale readiness needs other histories.",
     [T + "load_shed/mod.rs", T + "load_shed/future.rs"], ["is_ready flag reset by call and by clone"], comps=('LoadShed',), technique=MGC, note=TRUST)

prop('C14', "Timeout resolves with the response if available, else fails at the deadline",
     "Each request through a timeout service resolves to the wrapped response whenever that is available when polled, and fails with the timeout error only when the configured duration, measured from the request, has passed without a response; while neither has happened it "
     "stays pending and is woken by either.",
     ["schedules", "histories", "inputs"], "all orders of response completion, timer expiry and polls",
     "Tests use always-pending or immediately ready futures, never a response and a timer that become due between two polls.",
     [T + "timeout/mod.rs", T + "timeout/future.rs"], ["response polled before the timer", "timer armed in call with the configured duration"], comps=('Timeout',), technique=MGC,
     note="Durations are symbolic: the deadline's provenance (request time + configured timeout) is compared, real time is tokio's. " + TRUST)

prop('C21', "Steer is ready only when all services are, and calls the one the picker chose",
     "A steering service reports readiness only when every service it holds is ready, reports the first failure of any of them, and dispatches each request, unaltered and exactly once, to the service whose index the picker returned for that request and the configured services in "
     "their configured order. A closure used as a picker is applied once to exactly that request and those services, and its answer is the pick.",
     ["histories", "schedules", "inputs"], "all readiness orders of the services, all picks, all operation sequences on two handles (two services)",
     "Tests drive services that are always ready; partial readiness across several polls and clones is never exercised.",
     [T + "steer/mod.rs"], ["not_ready queue of indices"], comps=('Steer',), extra=('picker_fns',), technique=MGC, note="Two wrapped services in the analysed configuration. " + TRUST)

prop('C24', "Filters forward exactly the accepted requests and fail the rejected ones",
     "For each request the predicate is consulted exactly once; the wrapped service receives exactly one request, the one the predicate returned, if and only if the predicate accepted, and otherwise the request resolves to the predicate's error without touching the wrapped service. "
     "Accepted requests resolve to the wrapped response. A closure used as a predicate is applied once to exactly the request and its answer is the predicate's.",
     ["inputs", "histories", "schedules"], "all predicate answers and orders of completion, two handles",
     "Tests cover one accept and one reject with immediately ready parts.",
     [T + "filter/mod.rs", T + "filter/future.rs"], ["response state machine"], comps=('Filter', 'AsyncFilter'), extra=('predicate_fns',), technique=MGC, note=TRUST)

prop('C28', "No user code runs while a tower lock is held",
     "While tower holds one of its internal locks it does not run user-provided code (services, futures, policies, predicates, closures), so user code can never deadlock against or observe a half-updated shared state.",
     ["programs", "schedules"], "all call paths from the public API to user code",
     "Deadlock needs user code that re-enters the same middleware; no test does.",
     [T + "hedge/mod.rs", T + "load/peak_ewma.rs", T + "retry/budget/tps_budget.rs", T + "buffer/worker.rs"], ["lock guards"], comps=ALL, kinds={'lock'}, technique=MGC + "; lock-set at every boundary call",
     note="tower-test's mock is a test double and outside this property. " + TRUST)

prop('C08', "Buffer hands each accepted request to the service once and returns its result",
     "Every request accepted by a buffer handle is handed by the worker to the buffered service exactly once, unaltered and after the service reported readiness, and its response future resolves to exactly the result of that call; "
     "the handles never touch the service themselves. As long as the service is ready, no request that waits in the buffer is left behind or dropped, including when all handles are gone.",
     ["histories", "schedules", "crash_points"], "all interleavings of two handles, their response futures, the worker task and its abrupt end",
     "Tests poll worker and handles in a few fixed orders; loss, duplication or mix-up needs a particular interleaving of the worker with handle drops and readiness changes.",
     [T + "buffer/worker.rs", T + "buffer/service.rs", T + "buffer/future.rs", T + "buffer/message.rs"], ["worker's current message", "queue of messages with a one-shot channel each"],
     comps=('Buffer', 'BufferQueue'), kinds={'C08', 'ready', 'wake', 'panic', 'repoll', 'lock'}, technique=MGC,
     note="Queue contents are tracked exactly for the bounded number of in-flight requests. " + TRUST)

prop('C09', "Buffer reports its service's failure to every present and later caller",
     "Once the buffered service fails its readiness poll, every queued, in-flight and later request and readiness poll of every handle fails with that error, the service is neither polled nor called again, and no caller hangs. "
     "A worker which is gone without a failure is reported as closed; no caller sees a failure or closure while the worker runs and the service is healthy.",
     ["fault_sequences", "histories", "schedules"], "failure or worker loss at every point of every interleaving of handles, futures and the worker",
     "Tests fail the service at one point with one request queued.",
     [T + "buffer/worker.rs", T + "buffer/service.rs", T + "buffer/future.rs", T + "buffer/error.rs"], ["failed flag and shared error handle", "semaphore/queue closing"],
     comps=('Buffer', 'BufferQueue'), kinds={'C09', 'wake', 'panic', 'repoll'}, technique=MGC, note=TRUST)

prop('C10', "Buffer keeps order, respects its bound and skips cancelled requests",
     "The worker dispatches requests in the order in which they were accepted, never holds more unprocessed requests than the configured bound, and a request whose response future was dropped is not dispatched any more, whether it still waits in the queue or with the worker.",
     ["histories", "schedules"], "all interleavings of accepts, cancellations and worker polls",
     "Order, bound and cancellation are each tested in one scenario with two or three requests.",
     [T + "buffer/worker.rs", T + "buffer/service.rs"], ["bounded queue", "cancelled-request check of the worker"], comps=('Buffer', 'BufferQueue'), kinds={'C10'}, technique=MGC, note=TRUST)

prop('C11', "Concurrency limit never exceeds its bound and never loses a permit",
     "At every moment the number of requests dispatched by all clones of a concurrency-limited service which have not been completed or dropped is at most the configured limit, each dispatched request holds exactly one permit from before its "
     "dispatch until its response future is completed or dropped, and every permit comes back, whatever is cancelled. A handle without a permit is not ready; one with free permits waits for nothing but the wrapped service. A request sent without readiness does not get past the limit.",
     ["histories", "schedules"], "all interleavings of clones, readiness polls, requests, completions and drops, with limits 1 and 2 and a symbolic limit",
     "Leaks and overruns need a cancellation between obtaining a permit and its request, or a clone at that point.",
     [T + "limit/concurrency/service.rs", T + "limit/concurrency/future.rs", T + "limit/concurrency/layer.rs"], ["owned semaphore permit moved from handle to response future"],
     comps=('ConcurrencyLimit', 'GlobalConcurrencyLimit', 'ConcurrencyLimitLayered', 'ConcurrencyLimitMisuse'), technique=MGC + "; permit conservation at every state", note=TRUST)

prop('C12', "Rate limit admits at most num requests per period and then recovers",
     "A rate-limited service dispatches at most the configured number of requests in any window it accounts, a window beginning no earlier than one period after the previous one; it reports readiness only while the "
     "current window has room (or a new one may begin) and the wrapped service is ready, and when exhausted it waits for a timer that is set to the end of the window. A rate of nothing, or per no time, is refused, and a request sent without readiness does not get past the limit.",
     ["histories", "schedules", "inputs"], "all sequences of polls, requests and time advances, for num = 1 and num = 2",
     "Tests advance the clock in steps around one window; exceeding the rate needs a request at a particular point relative to window change and readiness.",
     [T + "limit/rate/service.rs", T + "limit/rate/rate.rs"], ["State::Ready{until,rem} / State::Limited"], comps=('RateLimit', 'RateLimit1', 'RateLimitMisuse'), extra=('rate_refused',), technique=MGC + "; symbolic window accounting", note="Time is symbolic and non-decreasing. " + TRUST)

prop('C15', "Retry makes exactly the attempts the policy asks for, with the request it kept",
     "A retried request is first dispatched unaltered; after each result the policy is consulted exactly once with that result and the request copy kept for it, a new attempt is dispatched if and only if the policy asked for it and only after the policy's "
     "future resolved and the service became ready, each attempt carries a copy the policy made, and the caller gets the last attempt's result. Without a copy no retry happens.",
     ["histories", "inputs", "schedules"], "all policy answers, any number of attempts, all pendings in between",
     "Tests script two or three attempts with an immediate policy.",
     [T + "retry/future.rs", T + "retry/mod.rs", T + "retry/policy.rs"], ["Called / Waiting / Retrying states"], comps=('Retry',), technique=MGC + "; event automaton per request", note=TRUST)

prop('C17', "Hedge sends at most one extra request, late enough, and the first result wins",
     "For each request the primary is dispatched at once and unaltered; at most one hedge follows, only if the policy made a copy, enough latencies were recorded, the configured latency percentile has passed since the request, "
     "and the policy still allows it, and it carries that copy. The latencies considered are exactly those of the successful attempts recorded in the last complete period. "
     "The caller gets the first available result unaltered, and both sides are driven until then.",
     ["histories", "schedules", "inputs"], "all policy answers and all orders of timer, readiness and completions",
     "Tests walk a handful of timings with one request.",
     [T + "hedge/mod.rs", T + "hedge/select.rs", T + "hedge/delay.rs", T + "hedge/latency.rs", T + "hedge/rotating_histogram.rs"], ["select over primary and delayed filter service"], comps=('Hedge',), extra=('latency_window',),
     technique=MGC + "; for the latency window every path of the histogram and of two requests over a partition of the instants",
     note="hdrhistogram is trusted: which recordings and which percentile are read is decided, not its arithmetic. " + TRUST)

prop('C22', "SpawnReady and FutureService drive the wrapped service exactly as awaited",
     "SpawnReady gives a pending service to exactly one background task, takes the same service back when that becomes ready, surfaces its failure or the task's loss as an error, and aborts the task when dropped; FutureService resolves its "
     "constructor future once, fails with exactly its error, and thereafter forwards to the produced service. No request reaches any other instance.",
     ["histories", "schedules", "fault_sequences"], "all interleavings of handle operations with the background task, including task panic and drop",
     "Tests see one task completion and one drop.",
     [T + "spawn_ready/service.rs", T + "util/future_service.rs"], ["Service / Future states", "join handle"], comps=('SpawnReady', 'FutureService'), technique=MGC, note=TRUST)

prop('C23', "Reconnect makes one connection at a time and keeps it until it fails",
     "A reconnecting service connects only when it has no connection, with the target it was given, keeps using an established connection until that one fails its readiness poll and then makes a new one, reports a failed connection attempt exactly once, "
     "to the next request, while it stays ready, and dispatches requests only to the current connection.",
     ["fault_sequences", "histories", "schedules"], "connection and readiness failure at every point of every operation sequence",
     "Tests script one failure at a time.",
     [T + "reconnect/mod.rs", T + "reconnect/future.rs"], ["Idle / Connecting / Connected states", "stored error"], comps=('Reconnect', 'ReconnectWith'), technique=MGC, note=TRUST)

prop('C27', "Oneshot and Ready drive one request or one readiness to its end",
     "A one-shot future polls its service until ready, dispatches its request exactly once to that very service, unaltered, and resolves to that call's result or to the readiness error; the ready futures resolve with the very service they drove, and "
     "only once it is ready. Nothing is dispatched when readiness fails.",
     ["schedules", "histories", "inputs"], "all numbers of pending polls and all answers of the service",
     "Tests use always-ready services.",
     [T + "util/oneshot.rs", T + "util/ready.rs"], ["NotReady / Called / Done states"], comps=('Oneshot', 'ReadyOneshot', 'Ready'), technique=MGC, note=TRUST)

prop('C26', "CallAll dispatches every streamed request once and yields every response",
     "Each request the stream yields is dispatched exactly once, in the stream's order and after the service reported readiness, and its response is yielded exactly once: in request order by the ordered variant, as available by the unordered one. "
     "The stream ends only after the requests end or the service failed, with no response outstanding; a readiness failure is yielded once and stops dispatch; nothing is withheld while it could progress.",
     ["histories", "schedules", "fault_sequences"], "all orders of stream items, readiness, completions and failures, and conversion to the unordered variant at any point; up to two calls in flight",
     "Tests use streams that are ready at once and services that are mostly ready.",
     [T + "util/call_all/common.rs", T + "util/call_all/ordered.rs", T + "util/call_all/unordered.rs"], ["curr_req slot, eof flag, queue of futures"],
     comps=('CallAllOrdered', 'CallAllUnordered'), technique=MGC, note="FuturesOrdered/FuturesUnordered are modelled by their contract. " + TRUST)

prop('C18', "Balance uses only live, ready endpoints and prefers the less loaded of two",
     "A balanced service polls and calls only endpoints which discovery announced, did not take back, and which have not failed; every such endpoint is kept and driven until then, and a newer one replaces its predecessor once ready. "
     "It is ready whenever any endpoint is, chooses the less loaded of two ready ones, dispatches each request exactly once and unaltered, and fails only when discovery does. Its length counts the endpoints it tracks.",
     ["histories", "schedules", "fault_sequences"], "all interleavings of announcements, removals, readiness changes, failures and requests over two keys and two live endpoints",
     "Tests use a fixed endpoint list or a few scripted changes; index mix-ups and stale endpoints need particular orders of change and readiness.",
     [T + "balance/p2c/service.rs", T + "ready_cache/cache.rs", T + "util/rng.rs"], ["ready cache with pending/ready sets", "chosen index revalidated on every poll"],
     comps=('Balance', 'BalanceOne'), technique=MGC, note="The random pair is unconstrained; distribution fairness and load values are not decided. " + TRUST)

prop('C19', "ReadyCache keeps each service exactly where its readiness and evictions say",
     "A service pushed into a ready cache stays in it until it is evicted, replaced under its key, fails, or is superseded by a newer pending one when used; while pending it is driven, once ready it is offered, and each request goes to exactly the service "
     "that was checked. Evicted, replaced and failed services are never polled or called again, failures name their key, and the accessors agree with that at every moment.",
     ["histories", "fault_sequences", "schedules"], "all sequences of pushes, evictions, polls, checks and calls over two keys and two live services (three in the thorough tier)",
     "The cache's index juggling (swap removal, key replacement while pending) breaks only in particular sequences of operations; tests walk four.",
     [T + "ready_cache/cache.rs", T + "ready_cache/error.rs"], ["pending futures with cancellation pair per key", "ready map keyed by endpoint"],
     comps=('ReadyCache',), technique=MGC + "; the accessors are evaluated at every state", note="IndexMap and FuturesUnordered are modelled by their contracts. " + TRUST)

NUM = "value-flow analysis over rustc MIR: every path of the public functions over symbolic arguments, branch conditions kept as facts, obligations discharged by a relational (order) rule or by an exact partition of the argument space"
NUMTRUST = ("Trusted: the MIR extractor and interpreter, the contracts of Duration, Instant, atomics and the mutex in sa/models.py, and that the generator of the user keeps next_f64 in [0, 1). Arithmetic is that of the "
            "mathematical values: overflow of Duration, Instant and u32/isize counters is not decided. Code outside the vocabulary of a rule is listed as not analysed, never reported.")

prop('C16', "Retry backoff and budget keep their configured bounds",
     "Every delay of an exponential backoff is at least its base min * 2^n and at most the configured maximum; without jitter it is exactly the base capped at the maximum, jitter adds at most the configured share of the base, "
     "and only valid configurations are accepted. A retry budget grants a withdrawal exactly when its balance (deposits of the last ttl plus the reserve) covers the cost and debits that cost once, also when withdrawals are concurrent; "
     "a deposit, and a debit, counts for the ttl and then (at most two tenths of the ttl later) not at all.",
     ["inputs", "histories", "schedules"], "all minimum, maximum and jitter settings and iterations; all ttl, reserve and percentage settings, any number of elapsed windows, any earlier deposits",
     "Tests and quickcheck sample settings and drive a paused clock through a few windows; bounds must hold for every setting, and the budget for every elapsed time and concurrent use.",
     [T + "retry/backoff.rs", T + "retry/budget/tps_budget.rs"], ["base and jitter computation", "window ring, writer cell and generation lock"],
     extra=('backoff', 'tps_budget'), technique=NUM, note=NUMTRUST)

prop('C20', "The load of a service is exactly the load of its pending requests",
     "A pending-requests load always equals the number of requests dispatched and neither completed nor cancelled, a completion tracker receives the handle once per response and the request counts until that handle is dropped, and wrapping changes "
     "neither requests, responses nor readiness. The peak-EWMA load is the latency estimate times one more than the number of pending requests; every finished or cancelled request is observed exactly once; a latency above the estimate becomes "
     "the estimate, any other is averaged in with weight exp(-elapsed/decay) on the former estimate. A constant load is the constant given. Loads compare as the numbers they stand for.",
     ["histories", "schedules", "inputs"], "all sequences of calls, polls, completions, failures and drops with up to two requests in flight; all estimates, latencies, decays and instants of the peak-EWMA update",
     "Tests check one request or two with fixed delays; leaks of a handle or a miscounted update show only in particular orders of completion, failure and cancellation.",
     [T + "load/pending_requests.rs", T + "load/peak_ewma.rs", T + "load/completion.rs", T + "load/constant.rs"], ["shared reference count", "handle dropped on completion", "estimate under a lock"],
     comps=('Constant', 'PendingRequests', 'PendingRequestsHeld', 'PendingRequestsTracked', 'PeakEwma'), extra=('peak_ewma', 'peak_discover', 'metrics'),
     technique=MGC + "; Load::load is evaluated at every state; " + NUM.replace('a relational (order) rule or by an exact partition of the argument space', 'comparison of real-arithmetic normal forms'),
     note="A response future that failed and is still held may count. Rounding of f64 is not decided. " + TRUST)

prop('C25', "Layers compose in the documented order and build the documented middleware",
     "Applying a layer, a ServiceBuilder method or a ServiceExt combinator yields exactly the middleware its constructor would, with the given settings, around the given service; layers added first to a builder, outer layers of a stack and earlier "
     "members of a tuple are outermost; an absent optional layer adds nothing; a boxed or cloned layer and a second use of a layer behave like the layer itself; a global concurrency limit is shared by all its services.",
     ["programs", "inputs"], "every layer type, every builder method placed before and after another layer, every combinator, tuples of every length, with symbolic settings and services",
     "Each test fixes one stack; with one layer out of order, settings swapped or one builder method delegating to the wrong middleware most stacks still answer.",
     [T + "builder/mod.rs", T + "util/mod.rs", "tower-layer/src/stack.rs", "tower-layer/src/tuple.rs", "tower-layer/src/identity.rs", "tower-layer/src/layer_fn.rs", T + "util/boxed/layer.rs", T + "util/either.rs"],
     ["Layer::layer of each layer", "ServiceBuilder methods", "ServiceExt provided methods"],
     extra=('layers',), technique="symbolic evaluation of rustc MIR to a structural normal form; equivalence of what each layer builds with the direct constructor application",
     note="Trusted: the MIR extractor and interpreter. Two values are compared as object graphs with object identities renamed; code outside the interpreter's vocabulary is listed as not analysed.")

WIT = ("Trusted: rustc's trait solver and lints. Generic obligations are discharged for opaque arguments which are Send only, Sync only or neither, so they hold for every argument of that kind.")

prop('C29', "Middleware keeps the thread-safety, cloning and service traits of its parts",
     "Every service, response future, stream, layer and adapter of tower is Send whenever the services, requests, policies and futures it is built from are, and Sync whenever they are Sync; the boxed services are Send (and Sync where documented) "
     "whatever they hold; middleware documented as cloneable is cloneable without asking anything of requests or responses; each middleware implements Service with the documented response type and each layer builds the documented service; every "
     "error type can be sent, shared and boxed; Service, Layer, Load and the policy traits can be made into trait objects.",
     ["programs", "inputs"], "every type argument, through opaque witnesses with exactly the capability in question",
     "Programs that spawn or share a stack need it for their own types; tests only instantiate a few concrete ones.",
     [T + "util/boxed", T + "hedge/mod.rs", T + "buffer/service.rs", T + "retry/mod.rs", T + "steer/mod.rs", T + "load/pending_requests.rs", T + "balance/p2c/make.rs", "tower-test/src/mock/mod.rs"],
     ["auto traits of the private fields", "PhantomData markers", "bounds of the impls"], extra=('autotraits',),
     technique="type-level witnesses decided by the trait solver of rustc: one compile-time obligation per claim", note=WIT)

prop('C30', "Every feature of tower builds alone and provides what it documents",
     "With default features off and any single feature on (or none, or all), the crate tower type-checks on its own, without help from the features of other crates, and the modules, types and builder methods documented for that feature exist.",
     ["configurations", "inputs"], "each declared feature alone, none and all of them",
     "The test suite is built with every feature at once, where a use of an item or dependency another feature brings in goes unnoticed.",
     ["tower/Cargo.toml", T + "lib.rs", T + "builder/mod.rs", T + "util/mod.rs"], ["cfg(feature) gates", "optional dependencies"], extra=('features',),
     technique="type checking of a witness crate per feature", note="Trusted: rustc and cargo's feature resolution.")

prop('C31', "The crates contain no unsafe code",
     "None of the four crates contains an unsafe block, function, trait, impl or attribute outside the expansion of the pin-projection macro of its dependency, so memory safety rests on the compiler and the dependencies alone.",
     ["inputs", "schedules"], "every item of the four crates with all features on",
     "Undefined behaviour in an unsafe block can hide from every test.",
     [T + "lib.rs", "tower-layer/src/lib.rs", "tower-service/src/lib.rs", "tower-test/src/lib.rs"], ["forbid(unsafe_code)"], extra=('nounsafe',),
     technique="compiler lint over all items, raised to an error that the source cannot allow", note="Trusted: rustc's unsafe_code lint.")

prop('C32', "The mock service delivers each request once, with exactly the answer sent for it",
     "The mock service of tower-test passes each request to its handle exactly once and in order; a response future resolves with exactly the response or the error sent for its own request, and with Closed when nobody can answer any more; "
     "requests are accepted only as the handle allows; an injected error is returned by exactly one readiness poll; every task waiting for readiness is woken when the handle allows requests, injects an error or goes away; after that "
     "everything fails with Closed. A spawned service passes readiness, requests and responses through and polls with its own task.",
     ["histories", "schedules"], "all orders of polls, calls, clones and drops of two service handles against all uses of the test handle (allow 0 or 1, inject an error, receive, answer, fail, drop), with up to two requests in flight",
     "The tests of tower-test cover a handful of sequences, and every other test relies on it.",
     ["tower-test/src/mock/mod.rs", "tower-test/src/mock/future.rs", "tower-test/src/mock/spawn.rs"], ["Mock, Handle, SendResponse, Spawn"],
     comps=('MockReady', 'MockClones', 'MockRequests', 'MockSpawn'), kinds={'C32', 'lock', 'panic', 'repoll', 'ready', 'stable'}, technique=MGC, note=TRUST)

prop('C33', "Discovery adapters pass on every change, wrapped and otherwise unaltered",
     "A load-tracking discovery wrapper yields exactly the changes of the discovery it wraps, in order: each inserted service wrapped with a fresh tracker and the configured settings under the same key, removals, errors, pending and the end passed on; "
     "a service list announces each of its services once, in order, under its position, and then ends.",
     ["histories", "inputs"], "all sequences of insertions, removals, errors, pendings and the end",
     "The only tests use lists; a lost removal or a shared tracker shows only after particular changes.",
     [T + "load/pending_requests.rs", T + "load/peak_ewma.rs", T + "load/constant.rs", T + "discover/list.rs", T + "discover/mod.rs"], ["poll_next of each wrapper"],
     comps=('PendingRequestsDiscover', 'PeakEwmaDiscover', 'ConstantDiscover', 'ServiceList'), extra=('peak_discover',), technique=MGC, note=TRUST)

prop('C34', "Service factories make exactly what was asked for",
     "The adapters of a make-service forward readiness, targets and made services unaltered, one creation per target; a shared factory is always ready and answers every target with a clone of its service; a balance factory turns each discovery "
     "made by its inner factory into a balancer over exactly that discovery and passes its errors on. A service used as a maker of services or connections "
     "is asked and called exactly as the maker is.",
     ["histories", "schedules", "inputs"], "all operation sequences of a protocol-abiding client, with clones and cancellation",
     "Tests make one service and use it once.",
     [T + "make/make_service.rs", T + "make/make_service/shared.rs", T + "balance/p2c/make.rs"], ["IntoService, AsService, Shared, MakeBalance"],
     comps=('IntoService', 'AsService', 'Shared', 'MakeBalance'), extra=('make_traits',), technique=MGC, note=TRUST)

prop('C35', "Random helpers stay in range and leave no choice out",
     "A number drawn from a range lies within it and can be any value of it; a random fraction is at least 0 and below 1; the two positions drawn for power-of-two-choices are always distinct and valid, and every pair can be drawn. The generator the crate brings derives every number from an input it has not used before.",
     ["inputs"], "all generator outputs, all ranges; for the pair of positions all lengths from 2 to 5 and all generator answers",
     "Tests sample generator states; an off-by-one at the end of a range shows for one output in 2^53 or only at some lengths.",
     [T + "util/rng.rs"], ["Rng::next_range, Rng::next_f64, sample_floyd2"], extra=('random',), technique=NUM.replace("a relational (order) rule", "interval bounds") , note=NUMTRUST)

prop('C36', "Accessors of a wrapper hand out exactly the service it wraps",
     "After any history of operations, the accessors of a tower service, stream or test wrapper (get_ref, get_mut, into_inner, take_service) hand out the very service that was put into it and nothing made up, the load of a limiting "
     "middleware is the load of the service it wraps, and the check method of a filter answers exactly what its predicate answers, asking it once.",
     ["histories", "inputs"], "all operation sequences of a protocol-abiding client, with an access at each state in between",
     "The accessors are called in a test or two right after construction; a swapped, cloned or replaced service shows only after requests went through.",
     [T + "limit/concurrency/service.rs", T + "limit/rate/service.rs", T + "filter/mod.rs", T + "retry/mod.rs", T + "timeout/mod.rs", T + "util/call_all/ordered.rs", T + "util/call_all/unordered.rs", T + "util/map_future.rs",
      "tower-test/src/mock/spawn.rs"], ["get_ref, get_mut, into_inner, take_service", "Load for the limits", "Filter::check, AsyncFilter::check"],
     comps=('AsyncFilter', 'CallAllOrdered', 'CallAllUnordered', 'ConcurrencyLimit', 'ConcurrencyLimitLayered', 'Filter', 'GlobalConcurrencyLimit', 'MapFuture', 'MockSpawn', 'RateLimit', 'RateLimit1', 'Retry', 'Timeout'),
     kinds={'access'}, extra=('filter_check',), technique=MGC + "; at every state each accessor is evaluated", note=TRUST)

prop('C37', "Errors built around another error answer it as their source",
     "Every error type of tower which is built around another error (the failure of a buffered service, of a discovery, of a service in a ready cache) answers exactly that error as its source, "
     "unaltered and itself rather than its own cause, also after the failure was duplicated for several callers, so that a caller can always find out which error of the wrapped part it was.",
     ["inputs"], "every implementation of std::error::Error in the crates, every wrapped error, whether or not it has a source of its own",
     "Tests print errors or downcast the outermost one; a skipped or missing level in the chain shows only to callers which walk it.",
     [T + "buffer/error.rs", T + "balance/error.rs", T + "ready_cache/error.rs"], ["ServiceError, Discover, Failed: Error::source"], extra=('error_sources',),
     technique="abstract interpretation of the compiler's MIR: value provenance from the constructor (and the inherent clone) to the result of Error::source, for every type of the crates which implements Error and holds a boxed error",
     note=TRUST)
