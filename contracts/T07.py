"""T07: span processors all see every span, in registration order."""
from contracts.common import *


class Numbered(SpanProcessor):
    """The i-th of arbitrarily many processors; logs its number."""

    def __init__(self, i, log, span=None, ctx=None, result=None, clock=None):
        self.i, self.log, self.span, self.ctx, self.result, self.clock = i, log, span, ctx, result, clock

    def on_start(self, span, parent_context=None):
        check(both(span is self.span, parent_context is self.ctx), "called with that span and the parent context")
        self.log.append(self.i)

    def on_end(self, span):
        check(span is self.span, "called with that span")
        self.log.append(self.i)

    def shutdown(self):
        self.log.append(self.i)

    def force_flush(self, timeout_millis=30000):
        self.log.append(self.i)
        if self.clock is not None:
            check(timeout_millis >= 0, "a processor never gets a negative timeout")
            check(self.clock.now + timeout_millis * 1000000 <= self.clock.deadline, "a processor gets no more than the remaining time")
        return self.result(self.i)


def numbered_log(procs, log):
    """The invariant of the fan-out loops: processors 0..i-1 have been called, in that order."""
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j)], over="procs",
             modifies=[lambda: havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[log])


@contract()
def sequential_fan_out():
    """SynchronousMultiSpanProcessor with any number of processors: each is called exactly once per event, in registration order."""
    log = ghost_list()
    span, ctx = make_tracer().start_span("s"), context_api.Context()
    m = SynchronousMultiSpanProcessor()
    procs = sym_seq("procs", lambda i: Numbered(i, log, span, ctx), tuple)
    set_attr(m, "_span_processors", procs)
    numbered_log(procs, log)
    ev = choose("event", ["start", "end", "shutdown"])
    if ev == "start":
        m.on_start(span, parent_context=ctx)
    elif ev == "end":
        m.on_end(span)
    else:
        m.shutdown()
    check(length(log) == length(procs), "every processor called once")
    check(forall(0, length(procs), lambda j: item(log, j) == j), "in registration order")


class Clock:
    """A clock that never goes back."""

    def __init__(self, timeout):
        self.now = sym_int("t0", 0, 2**62)
        self.deadline = None
        self.timeout = timeout

    def __call__(self):
        self.now = self.now + sym_int("dt", 0, 2**50)
        if self.deadline is None:
            self.deadline = self.now + self.timeout * 1000000
        return self.now


@contract()
def sequential_flush():
    """force_flush with any number of processors, results and elapsed times: true exactly if all succeeded in time, stops at the first failure."""
    log = ghost_list()
    timeout = sym_int("timeout", 0, 10**9)
    clock = Clock(timeout)
    set_clock(clock)
    ok = sym_fn("ok", "bool")
    m = SynchronousMultiSpanProcessor()
    procs = sym_seq("procs", lambda i: Numbered(i, log, result=ok, clock=clock), tuple)
    set_attr(m, "_span_processors", procs)

    def havoc():
        havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))
        now = clock.now
        clock.now = sym_int("tn", 0, 2**64)
        assume(clock.now >= now)
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j), forall(0, i, lambda j: ok(j)),
                             either(i == 0, clock.now < clock.deadline)],
             over="procs", modifies=[havoc], mods=[log, clock])
    r = m.force_flush(timeout)
    n = length(procs)
    k = length(log)
    check(k <= n, "no processor asked twice")
    check(forall(0, k, lambda j: item(log, j) == j), "asked in registration order")
    if is_true(r):
        check(k == n, "success only if every processor was asked")
        check(forall(0, n, lambda j: ok(j)), "success only if every processor succeeded")
        check(either(n == 0, clock.now < clock.deadline), "success only within the deadline")
    else:
        check(forall(0, k - 1, lambda j: ok(j)), "stops at the first failure")
        check(either(clock.now >= clock.deadline, both(k > 0, neg(ok(ite(k > 0, k - 1, 0))))), "failure only if a processor failed or the time is over")


@contract()
def sequential_flush_succeeds():
    """If every processor succeeds and no time passes, flushing succeeds (1 ms or more, any number of processors)."""
    log = ghost_list()
    set_clock(lambda: 5)
    timeout = sym_int("timeout", 1, 10**9)
    m = SynchronousMultiSpanProcessor()
    procs = sym_seq("procs", lambda i: Numbered(i, log, result=lambda i: True), tuple)
    set_attr(m, "_span_processors", procs)
    numbered_log(procs, log)
    check(is_true(m.force_flush(timeout)), "flush succeeds")
    check(length(log) == length(procs), "every processor flushed")


def multi(kind):
    return SynchronousMultiSpanProcessor() if kind == "sequential" else ConcurrentMultiSpanProcessor(num_threads=2)


def close(m):
    if isinstance(m, ConcurrentMultiSpanProcessor) and not symbolic():
        on_exit(lambda: attr(m, "_executor").shutdown())


@contract(assumes=["thread pool tasks run to completion when submitted, or when waited for (two schedules)"], bound="up to 3 processors")
def registration_histories():
    """Processors registered at a provider before, between and after spans (up to 3): each sees exactly the events after its registration, in registration order."""
    kind = choose("kind", ["sequential", "concurrent", "late"])
    if kind == "late":
        lazy_tasks()
    m = multi(kind)
    close(m)
    prov = TracerProvider(sampler=ALWAYS_ON, resource=Resource({"r": 1}), shutdown_on_exit=False, active_span_processor=m, id_generator=FixedIds(), span_limits=SpanLimits())
    tracer = prov.get_tracer("t")
    log = []
    recs = [Recorder("p" + str(i), log) for i in range(3)]
    want = []
    ctx = set_span_in_context(NonRecordingSpan(valid_context("p")), context_api.Context())
    have = 0
    ops = [choose("op0", ["add", "start"]), "add", "start", choose("op1", ["add", "end"]), "end", "shutdown"]
    spans = []
    for op in ops:
        if op == "add" and have < 3:
            prov.add_span_processor(recs[have])
            have += 1
        elif op == "start":
            s = tracer.start_span("s", context=ctx)
            check(len(log) == len(want) + have, "all processors have seen the start when the span is handed out")
            spans.append(s)
            want += [("p" + str(i), "start", s, ctx) for i in range(have)]
        elif op == "end" and spans:
            s = spans.pop()
            s.end()
            check(len(log) == len(want) + have, "all processors have seen the end when it returns")
            want += [("p" + str(i), "end", None, None) for i in range(have)]
        elif op == "shutdown":
            prov.shutdown()
            check(len(log) == len(want) + have, "all processors are shut down when it returns")
            want += [("p" + str(i), "shutdown", None, None) for i in range(have)]
    check(len(log) == len(want), "each event reaches exactly the processors registered by then, once")
    if kind == "sequential" or symbolic():
        for g, w in zip(log, want):
            check(both(g[0] == w[0], g[1] == w[1]), "in registration order")
            if g[1] == "start":
                check(both(g[2] is w[2], g[3] is w[3]), "with the span and parent context")
    else:
        check(sorted((g[0], g[1]) for g in log) == sorted((w[0], w[1]) for w in want), "the same events in some order")


@contract(assumes=["concurrent.futures.wait returns the futures that are done in time; here all are or an arbitrary subset is not"], bound="up to 3 processors")
def concurrent_fan_out():
    """ConcurrentMultiSpanProcessor (up to 3 processors): each event reaches each processor once; flushing succeeds only if all succeeded."""
    if choose("late", 2):
        lazy_tasks()
    m = multi("concurrent")
    close(m)
    n = choose("n", 4)
    log = []
    recs = [Recorder("p" + str(i), log) for i in range(n)]
    for r in recs:
        r.flush_result = choose("result", [True, False])
        m.add_span_processor(r)
    span, ctx = make_tracer().start_span("s"), context_api.Context()
    m.on_start(span, parent_context=ctx)
    m.on_end(span)
    timeout = sym_int("timeout", 1000, 10**6)
    ok = m.force_flush(timeout)
    m.shutdown()
    for r in recs:
        check(both(len(r.started) == 1, len(r.ended) == 1, r.shutdowns == 1, len(r.flushes) == 1), "each event once per processor")
        check(both(r.started[0] is span, r.contexts[0] is ctx, r.ended[0] is span), "with the span and parent context")
        check(r.flushes[0] == timeout, "each processor gets the whole timeout")
    check(iff(ok, all(r.flush_result for r in recs)), "flush succeeds exactly if all succeeded")


class Task:
    """The i-th task of the pool."""

    def __init__(self, i, waited, ok=None):
        self.i, self.waited, self.ok = i, waited, ok

    def result(self, timeout=None):
        self.waited.append(self.i)
        return None if self.ok is None else self.ok(self.i)


class Pool:
    """The thread pool as far as the processors use it: it calls what is submitted with the arguments given."""

    def __init__(self, waited, ok=None):
        self.n, self.waited, self.ok = 0, waited, ok

    def submit(self, fn, /, *args, **kwargs):
        fn(*args, **kwargs)
        self.n = self.n + 1
        return Task(self.n - 1, self.waited, self.ok)


def pooled(m, field, procs, log, waited, where, ok=None):
    """A concurrent fan-out over procs whose tasks are run by such a pool, with the invariant of its submitting loop: one task per processor so far."""
    pool = Pool(waited, ok)
    set_attr(m, field, procs)
    set_attr(m, "_executor", pool)

    def tasks(tag="futures"):
        l = ghost_list()
        havoc_list(l, lambda t, j: Task(j, waited, ok))
        return l

    def anything():
        havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))
        pool.n = fresh_int("submitted")
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j), pool.n == i, length(env.futures) == i],
             key=where, ordinal=1, modifies=[anything], mods=[log, pool], locals_={"futures": tasks})


@contract(assumes=["ThreadPoolExecutor.submit calls the function once with the arguments"])
def concurrent_fan_out_any_number():
    """ConcurrentMultiSpanProcessor with any number of processors: each is called exactly once per event and all of them have been waited for when the event returns."""
    log, waited = ghost_list(), ghost_list()
    span, ctx = make_tracer().start_span("s"), context_api.Context()
    m = ConcurrentMultiSpanProcessor(num_threads=2)
    procs = sym_seq("procs", lambda i: Numbered(i, log, span, ctx), tuple)
    pooled(m, "_span_processors", procs, log, waited, "ConcurrentMultiSpanProcessor._submit_and_await")
    loop_inv(lambda env, i: [length(waited) == i, forall(0, i, lambda j: item(waited, j) == j)], key="ConcurrentMultiSpanProcessor._submit_and_await", ordinal=2,
             modifies=[lambda: havoc_list(waited, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[waited])
    ev = choose("event", ["start", "end", "shutdown"])
    if ev == "start":
        m.on_start(span, parent_context=ctx)
    elif ev == "end":
        m.on_end(span)
    else:
        m.shutdown()
    n = length(procs)
    check(length(log) == n, "every processor called once")
    check(forall(0, n, lambda j: item(log, j) == j), "submitted in registration order")
    check(length(waited) == n, "all have been waited for")
    check(forall(0, n, lambda j: item(waited, j) == j), "all have been waited for")


@contract(assumes=["ThreadPoolExecutor.submit calls the function once with the arguments", "concurrent.futures.wait splits the futures into finished and unfinished ones"])
def concurrent_flush_any_number():
    """A concurrent flush of any number of processors, any of them failing or late: asks each once with the whole timeout and succeeds exactly if all succeeded in time."""
    import concurrent.futures as cf
    log, waited, ok = ghost_list(), ghost_list(), sym_fn("ok", "bool")
    timeout = sym_int("timeout", 0, 10 ** 9)

    class Asked(Numbered):
        def force_flush(self, timeout_millis=30000):
            check(timeout_millis == timeout, "with the whole timeout")
            self.log.append(self.i)
    m = ConcurrentMultiSpanProcessor(num_threads=2)
    procs = sym_seq("procs", lambda i: Asked(i, log), tuple)
    pooled(m, "_span_processors", procs, log, waited, "ConcurrentMultiSpanProcessor.force_flush", ok)
    late = choose("late", 2)

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        check(return_when == "ALL_COMPLETED", "waits for all")
        return (fs[1:], [fs[0]]) if late and is_true(length(fs) > 0) else (fs, [])
    stub(cf, "wait", wait)
    loop_inv(lambda env, i: [forall(0, i, ok)], key="ConcurrentMultiSpanProcessor.force_flush", ordinal=2, modifies=[lambda: havoc_list(waited, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[waited])
    r = m.force_flush(timeout)
    n = length(procs)
    check(length(log) == n, "every processor asked once")
    check(forall(0, n, lambda j: item(log, j) == j), "every processor asked once")
    if late and is_true(n > 0):
        check(not is_true(r), "fails if one is late")
    else:
        check(iff(r, neg(exists(0, n, lambda j: neg(ok(j))))), "succeeds exactly if all succeeded")


@contract(assumes=["concurrent.futures.wait splits the futures into finished and unfinished ones"], bound="up to 3 processors")
def concurrent_flush_deadline():
    """A concurrent flush with a processor that has not finished in time fails (up to 3 processors, any subset unfinished)."""
    import concurrent.futures as cf
    m = multi("concurrent")
    close(m)
    n = choose("n", 4)
    recs = [Recorder("p" + str(i)) for i in range(n)]
    for r in recs:
        m.add_span_processor(r)
    timeout = sym_int("timeout", 0, 10**6)
    asked, late = [], []

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        fs = list(fs)
        asked.append(timeout)
        done = []
        if return_when != "ALL_COMPLETED":      # may end with the first one
            return fs[:1], fs[1:]
        for f in fs:
            (late if choose("late", 2) else done).append(f)
        return done, list(late)
    stub(cf, "wait", wait)
    ok = m.force_flush(timeout)
    if asked:
        check(iff(ok, len(late) == 0), "succeeds exactly if every processor finished in time")
        check(asked[0] is not None and is_true(both(asked[0] * 1000 <= timeout + 1, asked[0] * 1000 >= timeout - 1)), "waits for the given time")


@contract()
def provider_forwards():
    """The provider's flush and shutdown are those of its processor; flush returns its result."""
    m = Recorder()
    m.flush_result = sym_bool("result")
    prov = TracerProvider(sampler=ALWAYS_ON, resource=Resource({"r": 1}), shutdown_on_exit=False, active_span_processor=m)
    t = sym_int("timeout", 0)
    check(iff(prov.force_flush(t), m.flush_result), "flush result of the processor")
    check(both(len(m.flushes) == 1, m.flushes[0] == t), "flush reaches the processor with the timeout")
    prov.shutdown()
    check(m.shutdowns == 1, "shutdown reaches the processor")


@contract()
def registered_after_any_number():
    """A processor registered at the provider after any number of others: it comes last in the order, the others keep their places."""
    log = ghost_list()
    span, ctx = make_tracer().start_span("s"), context_api.Context()
    m = multi("sequential")
    procs = sym_seq("procs", lambda i: Numbered(i, log, span, ctx), tuple)
    n = length(procs)
    set_attr(m, "_span_processors", procs)
    prov = TracerProvider(sampler=ALWAYS_ON, resource=Resource({"r": 1}), shutdown_on_exit=False, active_span_processor=m, id_generator=FixedIds(), span_limits=SpanLimits())
    prov.add_span_processor(Numbered(n, log, span, ctx))
    for where in ["on_start", "on_end", "shutdown"]:
        loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j)], key="SynchronousMultiSpanProcessor." + where,
                 modifies=[lambda: havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[log])
    ev = choose("event", ["start", "end", "shutdown"])
    if ev == "start":
        m.on_start(span, parent_context=ctx)
    elif ev == "end":
        m.on_end(span)
    else:
        m.shutdown()
    check(length(log) == n + 1, "every processor called once, the new one too")
    check(forall(0, n + 1, lambda j: item(log, j) == j), "in registration order")


@contract(assumes=["ThreadPoolExecutor.submit calls the function once with the arguments"])
def registered_after_any_number_concurrent():
    """The same with the concurrent fan-out."""
    log, waited = ghost_list(), ghost_list()
    span, ctx = make_tracer().start_span("s"), context_api.Context()
    m = ConcurrentMultiSpanProcessor(num_threads=2)
    procs = sym_seq("procs", lambda i: Numbered(i, log, span, ctx), tuple)
    n = length(procs)
    where = "ConcurrentMultiSpanProcessor._submit_and_await"
    pooled(m, "_span_processors", procs, log, waited, where)
    prov = TracerProvider(sampler=ALWAYS_ON, resource=Resource({"r": 1}), shutdown_on_exit=False, active_span_processor=m, id_generator=FixedIds(), span_limits=SpanLimits())
    prov.add_span_processor(Numbered(n, log, span, ctx))
    loop_inv(lambda env, i: [length(waited) == i, forall(0, i, lambda j: item(waited, j) == j)], key=where, ordinal=2,
             modifies=[lambda: havoc_list(waited, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[waited])
    ev = choose("event", ["start", "end", "shutdown"])
    if ev == "start":
        m.on_start(span, parent_context=ctx)
    elif ev == "end":
        m.on_end(span)
    else:
        m.shutdown()
    check(length(log) == n + 1, "every processor called once, the new one too")
    check(forall(0, n + 1, lambda j: item(log, j) == j), "in registration order")
    check(length(waited) == n + 1, "all have been waited for")


@contract()
def concurrent_registration():
    """A processor registered by another thread while one is being registered is not lost."""
    m = multi(choose("kind", ["sequential", "concurrent"]))
    close(m)
    a, b = Recorder("a"), Recorder("b")

    done = []

    def other():
        if not done:
            done.append(1)
            m.add_span_processor(b)
    guarded(m, "_span_processors", attr(m, "_lock"))
    interfere(m, "_lock", other, after=choose("after", 2) == 1)
    m.add_span_processor(a)
    s = make_tracer().start_span("s")
    m.on_start(s)
    check(both(len(a.started) == 1, len(b.started) == 1), "both processors are registered")


class Deferred:
    """A pool that runs a task when it is waited for; another thread does something at a point."""

    def __init__(self, other, at):
        self.other, self.at, self.points, self.depth = other, at, 0, 0

    def point(self):
        if self.depth:
            return
        self.points += 1
        if self.points - 1 == self.at:
            self.depth += 1
            self.other()
            self.depth -= 1

    def submit(self, fn, /, *args, **kwargs):
        self.point()
        return DeferredTask(self, fn, args, kwargs)


class DeferredTask:
    def __init__(self, pool, fn, args, kwargs):
        self.pool, self.fn, self.args, self.kwargs, self.ran = pool, fn, args, kwargs, False

    def result(self, timeout=None):
        self.pool.point()
        if not self.ran:
            self.ran = True
            self.value = self.fn(*self.args, **self.kwargs)
        return self.value


@contract()
def events_of_two_threads():
    """Another thread has an event of its own while one is handed out concurrently: each is complete at every processor when its call returns, and flushes do not take each other's results."""
    import concurrent.futures as cf
    log = []
    m = ConcurrentMultiSpanProcessor(num_threads=2)
    theirs = choose("theirs", ["event", "flush"])
    mine = choose("mine", ["event", "flush"])
    fails = choose("fails", [None, "mine", "theirs"])

    class P(SpanProcessor):
        def __init__(self, n):
            self.n = n

        def on_end(self, x):
            log.append((self.n, x))

        def shutdown(self):
            pass

        def force_flush(self, timeout_millis=30000):
            log.append((self.n, timeout_millis))
            return not (self.n == 1 and fails == ("mine" if timeout_millis == 10 else "theirs"))
    for n in range(2):
        m.add_span_processor(P(n))
    got = {}

    def run(who, what):
        x = 10 if who == "mine" else 20
        if what == "flush":
            got[who] = m.force_flush(x)
            check(got[who] == (fails != who), "a flush succeeds exactly if its own processors did")
        else:
            m.on_end(x)
        for n in range(2):
            check(log.count((n, x)) == 1, "every processor once, when the call returns")
    set_attr(m, "_executor", Deferred(lambda: run("theirs", theirs), choose("at", 5)))

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        fs = list(fs)
        for f in fs:
            f.result()
        return fs, []
    stub(cf, "wait", wait)
    run("mine", mine)
