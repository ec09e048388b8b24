"""T08: span export pipelines deliver each sampled span at most once, in order."""
from contracts.common import *
from contracts.threads import *
from opentelemetry.sdk.trace.export import BatchSpanProcessor, ConsoleSpanExporter, SimpleSpanProcessor, SpanExporter, SpanExportResult
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter


class Sp:
    """What the processors look at in an ended span."""

    def __init__(self, i, flags):
        self.i = i
        self.context = SpanContext(1, i + 1, False, TraceFlags(flags))


def suppressed():
    key = getattr(context_api, "_SUPPRESS_INSTRUMENTATION_KEY", None)
    need(key is not None, "suppression key")
    return context_api.get_value(key)


class Exp(SpanExporter):
    """Writes down every batch; fails as told; something else may happen during an export."""

    def __init__(self, fails=(), during=None):
        self.batches = []
        self.kept = []
        self.fails = fails
        self.during = during
        self.shutdowns = 0
        self.unsuppressed = 0
        self.order = []

    def export(self, spans):
        self.batches.append(list(spans))
        self.kept.append(spans)
        self.order.append("export")
        if not suppressed():
            self.unsuppressed += 1
        if self.during is not None:
            self.during(len(self.batches))
        f = self.fails[len(self.batches) - 1] if len(self.batches) <= len(self.fails) else None
        if f == "raise":
            raise ExportFailed("export failed")
        return SpanExportResult.FAILURE if f == "fail" else SpanExportResult.SUCCESS

    def shutdown(self):
        self.shutdowns += 1
        self.order.append("shutdown")


def batch_processor(exp, queue, batch):
    s = fake_threads()
    p = BatchSpanProcessor(exp, max_queue_size=queue, schedule_delay_millis=1000, max_export_batch_size=batch, export_timeout_millis=1000)
    s.worker = lambda: run_worker(p.worker)
    return p, s


def exported(exp):
    return [x for b in exp.batches for x in b]


def check_batches(exp, batch):
    for b in exp.batches:
        check(len(b) <= batch, "a batch is never larger than the maximum")
        check(all(x is not None for x in b), "a batch holds spans only")
    check(exp.unsuppressed == 0, "exports run with instrumentation suppressed")
    for b, k in zip(exp.batches, exp.kept):
        check(both(len(b) == len(k), all(x is y for x, y in zip(b, k))), "a batch handed to the exporter is not changed afterwards")


FAILS = ["", "raise", "fail"]


@contract(max_paths=20000, bound="up to 4 spans")
def deliver_until_shutdown():
    """Any sampled flags, queue size, batch size and exporter failures, up to 4 spans, with or without worker turns: exactly the sampled spans, once, in order; only the excess is lost."""
    queue = sym_int("queue", 1, 5)
    batch = choose("batch", [1, 2, 4])
    assume(batch <= queue)
    exp = Exp([choose("fail0", FAILS), choose("fail1", ["", "raise"])])
    p, s = batch_processor(exp, queue, batch)
    n = choose("n", [1, 3, 4])
    turn = choose("turn", [None, 2])
    mark = context_api.set_value("mark", 1, context_api.Context())
    token = context_api.attach(mark)
    want, waiting = [], []
    lost = 0
    for i in range(n):
        sp = Sp(i, sym_int("flags", 0, 255))
        if i == turn:
            s.timeouts = 1
            s.worker()
            waiting = []
        p.on_start(sp)
        p.on_end(sp)
        if is_true(sp.context.trace_flags % 2 == 1):
            want.append(sp)
            waiting.append(sp)
            if is_true(len(waiting) > queue):
                lost += 1
                waiting = waiting[1:]
    p.shutdown()
    check(context_api.get_current() is mark, "the caller's context is restored")
    context_api.detach(token)
    got = exported(exp)
    check(len(got) == len(want) - lost, "every sampled span is exported once, except those exceeding the queue")
    check(all(any(g is w for w in want) for g in got), "only sampled spans are exported")
    check([g.i for g in got] == sorted(set(g.i for g in got)), "each once and in end order")
    check_batches(exp, batch)
    check(both(exp.shutdowns == 1, exp.order[-1] == "shutdown"), "the exporter is shut down after the last export")
    k = len(exp.batches)
    p.on_end(Sp(9, 1))
    s.worker()
    check(len(exp.batches) == k, "after shutdown nothing more is accepted")


@contract(max_paths=20000, bound="up to 4 spans")
def flush_exports_everything_queued():
    """force_flush exports everything queued at that moment, in order, whatever the exporter does, and reports success; spans ending meanwhile are kept."""
    batch = choose("batch", [1, 2, 3])
    late = Sp(7, 1)

    def during(k):
        if k == 1 and arrive:
            p.on_end(late)
    arrive = choose("arrive", 2)
    exp = Exp([choose("fail0", FAILS), choose("fail1", ["", "raise"])], during)
    p, s = batch_processor(exp, 8, batch)
    s.flush = s.worker
    s.report = lambda: len(exported(exp))
    n = choose("n", 5)
    spans = [Sp(i, 1) for i in range(n)]
    for sp in spans:
        p.on_end(sp)
    token = context_api.attach(context_api.set_value("mark", 1, context_api.Context()))
    ok = p.force_flush(sym_int("timeout", 1, 10**6))
    check(context_api.get_value("mark") == 1, "the caller's context is restored")
    context_api.detach(token)
    check(is_true(ok), "the flush succeeds")
    check_told(s, n)
    got = exported(exp)
    check(len(got) >= n, "everything queued is exported")
    for i in range(n):
        check(got[i] is spans[i], "once and in order")
    check(both(len(got) <= n + 1, all(g is late for g in got[n:])), "nothing is exported twice")
    check_batches(exp, batch)
    p.shutdown()
    got = exported(exp)
    check(len(got) == n + (1 if arrive and exp_was_called(exp, n) else 0), "the span that ended meanwhile is exported later")


def exp_was_called(exp, n):
    return n > 0 or any(x.i == 7 for x in exported(exp))


@contract()
def flush_times_out():
    """If the worker does not get its turn the flush reports failure and loses nothing."""
    exp = Exp()
    p, s = batch_processor(exp, 4, 2)
    p.on_end(Sp(0, 1))
    check(not is_true(p.force_flush(10)), "a flush nobody serves fails")
    s.worker()
    check(len(exported(exp)) == 1, "and its span is exported later")
    check(not is_true(p.force_flush(10)), "a flush nobody serves fails with an empty queue too")
    p.shutdown()
    check(is_true(p.force_flush(10)), "flushing after shutdown succeeds")
    check(len(exported(exp)) == 1, "without exporting again")


@contract()
def flush_meets_shutdown():
    """A flush requested during an export, before or after another thread begins to shut down, is served: everything queued is exported and the waiting thread is told."""
    exp = Exp()
    p, s = batch_processor(exp, 8, 2)
    need(isinstance(getattr(p, "done", None), bool), "the flag set by shutdown")
    n = choose("n", [1, 2, 5])
    order = choose("order", ["flush", "flush then shutdown", "shutdown then flush"])
    late = []

    def during(k):
        if k == 1:
            if order == "shutdown then flush":
                set_attr(p, "done", True)
            late.append(is_true(p.force_flush(10)))
            if order == "flush then shutdown":
                set_attr(p, "done", True)
    exp.during = during
    for i in range(n):
        p.on_end(Sp(i, 1))
    s.timeouts = 2
    s.worker()
    check(both(len(late) == 1), "the flush was requested")
    for e in s.waited:
        check(e.flag, "whoever waits for a flush is told")
    got = exported(exp)
    check(len(got) == n, "everything queued is exported")
    check(both(*[got[i].i == i for i in range(n)]), "once and in order")


@contract()
def flush_while_the_worker_waits():
    """A flush requested while the worker waits, with more spans ending before or after it, is served in the same turn and reported after its spans are exported."""
    batch = choose("batch", [1, 3])
    exp = Exp()
    p, s = batch_processor(exp, 8, batch)
    before, meanwhile, after = choose("before", 3), choose("meanwhile", 4), choose("after", 2)
    down = choose("down", 2)
    spans = [Sp(i, 1) for i in range(before + meanwhile + after)]
    turns = []

    def during():
        turns.append(1)
        if len(turns) == 1:
            for sp in spans[before:before + meanwhile]:
                p.on_end(sp)
            p.force_flush(10)
            for sp in spans[before + meanwhile:]:
                p.on_end(sp)
            if down:
                set_attr(p, "done", True)
    s.during_wait = during
    s.report = lambda: len(exported(exp))
    need(isinstance(getattr(p, "done", None), bool), "the flag set by shutdown")
    for sp in spans[:before]:
        p.on_end(sp)
    s.timeouts = 3
    s.worker()
    if turns:
        check(len(s.waited) == 1, "the flush was requested")
        check_told(s, before + meanwhile)
    check_batches(exp, batch)
    s.during_wait = None
    p.shutdown()
    got = exported(exp)
    check(len(got) == (len(spans) if turns else before), "every span is exported once")
    for i in range(len(got)):
        check(got[i] is spans[i], "in end order")


@contract()
def flushes_before_the_workers_turn():
    """Two flushes, with more spans before and between, before the worker gets its turn: each is reported only after everything queued at its request is exported."""
    batch = choose("batch", [1, 3])
    exp = Exp()
    p, s = batch_processor(exp, 8, batch)
    first, second = choose("first", 3), choose("second", 4)
    items = [Sp(i, 1) for i in range(first + second)]
    s.report = lambda: len(exported(exp))
    for x in items[:first]:
        p.on_end(x)
    p.force_flush(10)
    for x in items[first:]:
        p.on_end(x)
    p.force_flush(10)
    check(len(s.waited) == 2, "both wait")
    s.timeouts = 2
    s.worker()
    for e, least in zip(s.waited, (first, first + second)):
        check(e.flag, "each is told")
        check(s.waited[0] is not s.waited[1] or least == first or s.told[0][1] >= first + second, "after everything queued is exported")
        check(all(n >= least for x, n in s.told if x is e), "after everything queued is exported")
    got = exported(exp)
    check(both(len(got) == len(items), *[got[i] is items[i] for i in range(len(got))]), "once and in order")


@contract()
def flush_waits_as_long_as_told():
    """A flush waits for the given time, zero included, else for the configured export timeout."""
    s = fake_threads()
    configured = sym_int("configured", 1, 10 ** 6)
    p = BatchSpanProcessor(Exp(), 8, 1000, 2, configured)
    t = sym_int("timeout", 0, 10 ** 6) if choose("given", 2) else None
    p.force_flush() if t is None else p.force_flush(t)
    check(len(s.timeouts_given) == 1, "one wait")
    want, got = configured if t is None else t, s.timeouts_given[0] * 1000
    check(got == want if symbolic() else abs(got - want) < 1, "in milliseconds")


@contract(assumes=["os.register_at_fork runs its handlers in the child"])
def after_a_fork():
    """In a forked child exactly the spans of the child are exported, by one new worker; what the parent had queued is the parent's."""
    child = fork()
    exp = Exp()
    p, s = batch_processor(exp, 8, 2)
    before, after = choose("before", 3), choose("after", 4)
    for i in range(before):
        p.on_end(Sp(i, 1))
    started = len(s.started)
    child()
    check(len(s.started) == started + 1, "a worker for the child")
    items = [Sp(10 + i, 1) for i in range(after)]
    for x in items:
        p.on_end(x)
    check(len(s.started) == started + 1, "one")
    p.shutdown()
    got = exported(exp)
    check(len(got) == after, "what ended in the child")
    check(both(*[got[i] is items[i] for i in range(len(got))]), "once and in order")
    check(s.started[-1].ran, "by its worker")


@contract(bound="up to 4 spans")
def worker_turn():
    """When a wait ends with spans queued, at least one batch of the oldest is exported; with an empty queue nothing is."""
    batch = choose("batch", [1, 2, 3])
    exp = Exp()
    p, s = batch_processor(exp, 6, batch)
    n = choose("n", 5)
    spans = [Sp(i, 1) for i in range(n)]
    for sp in spans:
        p.on_end(sp)
    s.timeouts = 1
    s.worker()
    got = exported(exp)
    check(len(got) >= (n if n < batch else batch), "a batch is exported")
    check(both(*[got[i] is spans[i] for i in range(len(got))]), "the oldest spans in order")
    check_batches(exp, batch)
    if n == 0:
        check(len(exp.batches) == 0, "nothing is exported from an empty queue")


def any_queue(p, name="queue"):
    """The processor with a queue of any length (newest first); spans are numbers here."""
    import collections
    f = sym_fn(name + ".span", "int", 1)
    m = p.max_queue_size
    q = sym_seq(name, lambda i: f(i), collections.deque, max_len=m, mutable=True, maxlen=m)
    set_attr(p, "queue", q)
    return f, length(q)


class Counting(SpanExporter):
    """Accepts batches of numbers and appends them to one ghost sequence."""

    def __init__(self, batch):
        self.out = ghost_list()
        self.batch = batch
        self.calls = 0
        self.bad = None

    def export(self, spans):
        check(length(spans) <= self.batch, "a batch is never larger than the maximum")
        self.out.extend(spans)
        self.calls += 1
        if self.bad is not None and self.bad():
            raise ExportFailed("export failed")
        return SpanExportResult.SUCCESS


@contract()
def export_batch_any_queue():
    """One batch from a queue of any length with any batch size: the oldest spans, in order, are exported and removed, no others (loop invariant)."""
    maxq = sym_int("max queue", 1, big(2**30))
    batch = sym_int("batch", 1, big(2**30))
    assume(batch <= maxq)
    exp = Counting(batch)
    exp.bad = lambda: is_true(sym_bool("fails"))
    p, s = batch_processor(exp, maxq, batch)
    f, n = any_queue(p)
    attr(p, "_export_batch")
    buf = attr(p, "spans_list") if symbolic() else None
    q = p.queue

    def havoc():
        havoc_list(q, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(buf, lambda tag, j: ghost_fn(tag, "int")(j))

    def inv(env, i):
        k = env.idx
        return [k >= 0, k <= n, k <= batch, length(q) == n - k, length(buf) == batch,
                forall(0, n - k, lambda j: item(q, j) == f(j)),
                forall(0, k, lambda j: item(buf, j) == f(n - 1 - j))]
    loop_inv(inv, key="_export_batch", ordinal=1, modifies=[havoc], mods=[q, buf], decreases=lambda env: length(q))
    loop_inv(lambda env, i: [length(buf) == batch], key="_export_batch", ordinal=2, modifies=[lambda: havoc_list(buf, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[buf])
    k = p._export_batch()
    want = ite(n < batch, n, batch)
    check(length(exp.out) == want, "as many spans as there are, up to the batch size")
    check(forall(0, want, lambda j: item(exp.out, j) == f(n - 1 - j)), "the oldest first, in end order")
    check(length(p.queue) == n - want, "the exported spans leave the queue")
    check(forall(0, n - want, lambda j: item(p.queue, j) == f(j)), "the others stay")
    check(exp.calls == 1, "one export")
    check(k == want, "the number exported is returned")


def one_batch(p, q, out, f, n, batch):
    """Callers of _export_batch see its contract (proved by export_batch_any_queue) in place of its body."""
    attr(p, "_export_batch")
    if not symbolic():
        return

    def oldest_first(a, o):
        return [length(q) == a, length(out) == o, forall(0, a, lambda j: item(q, j) == f(j)), forall(0, o, lambda j: item(out, j) == f(n - 1 - j))]

    def export_batch():
        a, o = length(q), length(out)
        check(a + o == n, "nothing queued or exported otherwise")
        for c in oldest_first(a, o):
            check(c, "exported so far are the oldest")
        k = ite(a < batch, a, batch)
        havoc_list(q, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(out, lambda tag, j: ghost_fn(tag, "int")(j))
        for c in oldest_first(a - k, o + k):
            assume(c)
        return k
    set_attr(p, "_export_batch", export_batch)


@contract()
def on_end_any_queue():
    """on_end with a queue of any length and any queue size: the span becomes the newest; when full exactly the oldest is lost; unsampled spans and ends after shutdown change nothing."""
    maxq = sym_int("max queue", 1, big(2**30))
    batch = sym_int("batch", 1, big(2**30))
    assume(batch <= maxq)
    p, s = batch_processor(Counting(batch), maxq, batch)
    f, n = any_queue(p)
    flags = sym_int("flags", 0, 255)
    sp = Sp(0, flags)
    down = choose("down", 2)
    if down:
        p.done = True
    p.on_end(sp)
    q = p.queue
    if down or is_true(flags % 2 == 0):
        check(length(q) == n, "nothing is queued")
        check(forall(0, n, lambda j: item(q, j) == f(j)), "the queue is unchanged")
        return
    full = is_true(n == maxq)
    check(length(q) == (n if full else n + 1), "one more, up to the queue size")
    check(item(q, 0) is sp, "the span is the newest")
    keep = n - 1 if full else n
    check(forall(0, keep, lambda j: item(q, j + 1) == f(j)), "all others kept, the oldest lost only when full")


@contract()
def drain_any_queue():
    """Draining a queue of any length exports everything in order and leaves it empty with any batch size (loop invariant over the drain loop)."""
    batch = sym_int("batch", 1, big(2**20))
    exp = Counting(batch)
    p, s = batch_processor(exp, 2**20, batch)
    f, n = any_queue(p)
    q = p.queue
    attr(p, "_drain_queue")
    out = exp.out
    one_batch(p, q, out, f, n, batch)

    def havoc():
        havoc_list(q, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(out, lambda tag, j: ghost_fn(tag, "int")(j))
    loop_inv(lambda env, i: [length(q) + length(out) == n, forall(0, length(q), lambda j: item(q, j) == f(j)), forall(0, length(out), lambda j: item(out, j) == f(n - 1 - j))],
             key="_drain_queue", modifies=[havoc], mods=[q, out, exp, attr(p, "spans_list") if symbolic() else None], decreases=lambda env: length(q))
    p._drain_queue()
    check(length(p.queue) == 0, "the queue is empty")
    check(length(out) == n, "everything is exported once")
    check(forall(0, n, lambda j: item(out, j) == f(n - 1 - j)), "in end order")


@contract()
def flush_any_queue():
    """Serving a flush request with a queue of any length exports at least everything queued at the request, in order with any batch size."""
    batch = sym_int("batch", 1, big(2**20))
    exp = Counting(batch)
    p, s = batch_processor(exp, 2**20, batch)
    f, n = any_queue(p)
    q, out = p.queue, exp.out
    attr(p, "_export")
    one_batch(p, q, out, f, n, batch)
    served = []
    s.flush = lambda: (s.worker(), served.append(1))

    def havoc():
        havoc_list(q, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(out, lambda tag, j: ghost_fn(tag, "int")(j))
    loop_inv(lambda env, i: [length(q) + length(out) == n, forall(0, length(q), lambda j: item(q, j) == f(j)), forall(0, length(out), lambda j: item(out, j) == f(n - 1 - j)),
                             env.num_spans == length(q)],
             key="_export", modifies=[havoc], mods=[q, out, exp, attr(p, "spans_list") if symbolic() else None], decreases=lambda env: length(q))
    ok = p.force_flush(1000)
    check(is_true(ok), "the flush succeeds")
    check(length(out) == n, "everything queued is exported once")
    check(forall(0, n, lambda j: item(out, j) == f(n - 1 - j)), "in end order")


@contract()
def configuration():
    """The constructor accepts exactly positive queue, delay and batch values with the batch no larger than the queue."""
    fake_threads()
    q, d, b = sym_int("queue", -5, big(2**30)), sym_int("delay", -5, 10**6), sym_int("batch", -5, big(2**30))
    raised = False
    try:
        BatchSpanProcessor(Exp(), q, d, b, 1000)
    except ValueError:
        raised = True
    check(iff(raised, either(q <= 0, d <= 0, b <= 0, b > q)), "refused exactly when invalid")


@contract()
def configuration_defaults():
    """Environment variables give the defaults; unusable values fall back."""
    fake_threads()
    qs, bs = choose("q", [None, "7", "x", "100"]), choose("b", [None, "3", "y"])
    set_env(OTEL_BSP_MAX_QUEUE_SIZE=qs, OTEL_BSP_MAX_EXPORT_BATCH_SIZE=bs, OTEL_BSP_SCHEDULE_DELAY=choose("d", [None, "20", "z"]), OTEL_BSP_EXPORT_TIMEOUT=None)
    q = {"7": 7, "100": 100}.get(qs, 2048)
    b = {"3": 3}.get(bs, 512)
    exp = Exp()
    raised = False
    try:
        p = BatchSpanProcessor(exp)
    except ValueError:
        raised = True
    check(raised == (b > q), "valid defaults are accepted")
    if not raised:
        check(both(p.max_queue_size == q, p.max_export_batch_size == b), "sizes from the environment")


@contract()
def simple_processor():
    """Every sampled span is exported at its end, alone, suppressed; failures never escape and the context is restored."""
    exp = Exp([choose("fail0", FAILS), choose("fail1", FAILS)])
    p = SimpleSpanProcessor(exp)
    mark = context_api.set_value("mark", 1, context_api.Context())
    token = context_api.attach(mark)
    want = []
    for i in range(2):
        sp = Sp(i, sym_int("flags", 0, 255))
        p.on_start(sp)
        p.on_end(sp)
        check(context_api.get_current() is mark, "the caller's context is restored")
        if is_true(sp.context.trace_flags % 2 == 1):
            want.append(sp)
        check(len(exp.batches) == len(want), "exported at its end exactly if sampled")
    context_api.detach(token)
    for b, w in zip(exp.batches, want):
        check(both(len(b) == 1, b[0] is w), "the span itself, alone, in order")
    check(exp.unsuppressed == 0, "exports run with instrumentation suppressed")
    check(is_true(p.force_flush()), "nothing to flush")
    p.shutdown()
    check(exp.shutdowns == 1, "shutdown reaches the exporter")


@contract()
def through_the_provider():
    """Spans ended through the API reach the exporter of a simple and a batching processor exactly if sampled, once, in end order."""
    kind = choose("kind", ["simple", "batch"])
    exp = InMemorySpanExporter()
    if kind == "simple":
        p = SimpleSpanProcessor(exp)
    else:
        p, s = batch_processor(exp, 8, 2)
    want = []

    class Pick(Sampler):
        def should_sample(self, *a, **k):
            return SamplingResult(choose("decision", [Decision.DROP, Decision.RECORD_ONLY, Decision.RECORD_AND_SAMPLE]))

        def get_description(self):
            return "pick"
    tracer = make_tracer(p, Pick())
    a, b = tracer.start_span("a"), tracer.start_span("b")
    for x in (b, a, b):
        x.end()
    if kind == "batch":
        p.shutdown()
    want = [x for x in (b, a) if x.get_span_context().trace_flags == 1]
    got = exp.get_finished_spans()
    check(len(got) == len(want), "exactly the sampled spans, once")
    for g, w in zip(got, want):
        check(g.name == w.name, "in end order")


@contract()
def in_memory_exporter():
    """The in-memory exporter keeps every batch in order until shutdown, then refuses; clearing empties it."""
    exp = InMemorySpanExporter()
    if symbolic():
        set_attr(exp, "_finished_spans", ghost_list())
    f, g = sym_fn("a", "int"), sym_fn("b", "int")
    one, two = sym_seq("one", f, tuple), sym_seq("two", g, list)
    r = [exp.export(one), exp.export(two)]
    got = exp.get_finished_spans()
    n = length(one)
    check(all(x is SpanExportResult.SUCCESS for x in r), "accepted")
    check(length(got) == n + length(two), "everything kept")
    check(forall(0, n, lambda j: item(got, j) == f(j)), "first batch in order")
    check(forall(0, length(two), lambda j: item(got, n + j) == g(j)), "then the second")
    exp.shutdown()
    check(exp.export(two) is SpanExportResult.FAILURE, "refused after shutdown")
    check(length(exp.get_finished_spans()) == length(got), "nothing added after shutdown")
    exp.clear()
    check(length(exp.get_finished_spans()) == 0, "cleared")


class Written:
    """An output that remembers what was written to it and whether it was flushed."""

    def __init__(self):
        self.text, self.flushed = "", False

    def write(self, s):
        self.text, self.flushed = self.text + s, False

    def flush(self):
        self.flushed = True


@contract()
def console_exporter():
    """The console exporter writes each span of a batch of any size once, in order, and flushes."""
    out = Written()
    text = sym_fn("text", "str")
    spans = sym_seq("spans", lambda i: Sp(i, 1))
    if symbolic():
        sofar = ghost_fn("written so far", "str")

        def clauses(env, i):
            assume(both(sofar(0) == "", sofar(i + 1) == sofar(i) + text(i)))
            return [out.text == sofar(i)]

        def havoc():
            out.text = sym_str("written")
            out.flushed = sym_bool("flushed")
        loop_inv(clauses, over="spans", modifies=[havoc], mods=[out])
    else:
        def sofar(n):
            return "".join(text(i) for i in range(n))
    exp = ConsoleSpanExporter(out=out, formatter=lambda sp: text(sp.i))
    r = exp.export(spans)
    check(r is SpanExportResult.SUCCESS, "success")
    check(out.text == sofar(length(spans)), "each once, in order")
    check(out.flushed, "flushed at the end")
