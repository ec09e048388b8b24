"""L02: log export pipelines deliver each record once, in order."""
from contracts.common import *
from contracts.threads import *
from opentelemetry.sdk._logs import LogData, LoggerProvider, LogRecord, LogRecordProcessor
from opentelemetry.sdk._logs._internal import ConcurrentMultiLogRecordProcessor, SynchronousMultiLogRecordProcessor
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, ConsoleLogExporter, InMemoryLogExporter, LogExporter, LogExportResult, SimpleLogRecordProcessor


class Rec:
    """A log record as the processors pass it on."""

    def __init__(self, i):
        self.i = i
        self.log_record = self


def suppressed():
    key = getattr(context_api, "_SUPPRESS_INSTRUMENTATION_KEY", None)
    need(key is not None, "suppression key")
    return context_api.get_value(key)


class Exp(LogExporter):
    """Writes down every batch; fails as told; something else may happen during an export."""

    def __init__(self, fails=(), during=None):
        self.batches = []
        self.kept = []
        self.while_down = None
        self.fails = fails
        self.during = during
        self.shutdowns = 0
        self.unsuppressed = 0
        self.order = []

    def export(self, batch):
        self.batches.append(list(batch))
        self.kept.append(batch)
        self.order.append("export")
        if not suppressed():
            self.unsuppressed += 1
        if self.during is not None:
            self.during(len(self.batches))
        f = self.fails[len(self.batches) - 1] if len(self.batches) <= len(self.fails) else None
        if f == "raise":
            raise ExportFailed("export failed")
        return LogExportResult.FAILURE if f == "fail" else LogExportResult.SUCCESS

    def shutdown(self):
        self.shutdowns += 1
        self.order.append("shutdown")
        if self.while_down is not None:
            self.while_down()


def batch_processor(exp, queue, batch):
    s = fake_threads()
    p = BatchLogRecordProcessor(exp, schedule_delay_millis=1000, max_export_batch_size=batch, export_timeout_millis=1000, max_queue_size=queue)
    s.worker = lambda: run_worker(p.worker)
    return p, s


def exported(exp):
    return [x for b in exp.batches for x in b]


def check_batches(exp, batch):
    for b in exp.batches:
        check(len(b) <= batch, "a batch is never larger than the maximum")
        check(all(x is not None for x in b), "a batch holds records only")
    check(exp.unsuppressed == 0, "exports run with instrumentation suppressed")
    for b, k in zip(exp.batches, exp.kept):
        check(both(len(b) == len(k), all(x is y for x, y in zip(b, k))), "a batch handed to the exporter is not changed afterwards")


FAILS = ["", "raise", "fail"]


@contract(max_paths=20000, bound="up to 4 records")
def deliver_until_shutdown():
    """Any queue size, batch size and exporter failures, up to 4 records, with or without worker turns: exactly the emitted records, once, in order; only the excess is lost."""
    queue = sym_int("queue", 1, 5)
    batch = choose("batch", [1, 2, 4])
    assume(batch <= queue)
    exp = Exp([choose("fail0", FAILS), choose("fail1", ["", "raise"])])
    p, s = batch_processor(exp, queue, batch)
    n = choose("n", [1, 3, 4])
    turn = choose("turn", [None, 2])
    mark = context_api.set_value("mark", 1, context_api.Context())
    token = context_api.attach(mark)
    want, waiting = [], []
    lost = 0
    for i in range(n):
        sp = Rec(i)
        if i == turn:
            s.timeouts = 1
            s.worker()
            waiting = []
        p.emit(sp)
        want.append(sp)
        waiting.append(sp)
        if is_true(len(waiting) > queue):
            lost += 1
            waiting = waiting[1:]
    p.shutdown()
    check(context_api.get_current() is mark, "the caller's context is restored")
    context_api.detach(token)
    got = exported(exp)
    check(len(got) == len(want) - lost, "every record is exported once, except those exceeding the queue")
    check(all(any(g is w for w in want) for g in got), "only emitted records are exported")
    check([g.i for g in got] == sorted(set(g.i for g in got)), "each once and in emission order")
    check_batches(exp, batch)
    check(both(exp.shutdowns == 1, exp.order[-1] == "shutdown"), "the exporter is shut down after the last export")
    k = len(exp.batches)
    p.emit(Rec(9))
    s.worker()
    check(len(exp.batches) == k, "after shutdown nothing more is accepted")


@contract(max_paths=20000, bound="up to 4 records")
def flush_exports_everything_queued():
    """force_flush exports everything queued at that moment, in order, whatever the exporter does, and reports success; records ending meanwhile are kept."""
    batch = choose("batch", [1, 2, 3])
    late = Rec(7)

    def during(k):
        if k == 1 and arrive:
            p.emit(late)
    arrive = choose("arrive", 2)
    exp = Exp([choose("fail0", FAILS), choose("fail1", ["", "raise"])], during)
    p, s = batch_processor(exp, 8, batch)
    s.flush = s.worker
    s.report = lambda: len(exported(exp))
    n = choose("n", 5)
    records = [Rec(i) for i in range(n)]
    for sp in records:
        p.emit(sp)
    token = context_api.attach(context_api.set_value("mark", 1, context_api.Context()))
    ok = p.force_flush(sym_int("timeout", 1, 10**6))
    check(context_api.get_value("mark") == 1, "the caller's context is restored")
    context_api.detach(token)
    check(is_true(ok), "the flush succeeds")
    check_told(s, n)
    got = exported(exp)
    check(len(got) >= n, "everything queued is exported")
    for i in range(n):
        check(got[i] is records[i], "once and in order")
    check(both(len(got) <= n + 1, all(g is late for g in got[n:])), "nothing is exported twice")
    check_batches(exp, batch)
    p.shutdown()
    got = exported(exp)
    check(len(got) == n + (1 if arrive and exp_was_called(exp, n) else 0), "the record that ended meanwhile is exported later")


def exp_was_called(exp, n):
    return n > 0 or any(x.i == 7 for x in exported(exp))


@contract()
def flush_times_out():
    """If the worker does not get its turn the flush reports failure and loses nothing."""
    exp = Exp()
    p, s = batch_processor(exp, 4, 2)
    p.emit(Rec(0))
    check(not is_true(p.force_flush(10)), "a flush nobody serves fails")
    s.worker()
    check(len(exported(exp)) == 1, "and its record is exported later")
    p.shutdown()
    check(is_true(p.force_flush(10)), "flushing after shutdown succeeds")
    check(len(exported(exp)) == 1, "without exporting again")


@contract()
def flush_meets_shutdown():
    """A flush requested during an export, before or after another thread begins to shut down, is served: everything queued is exported and the waiting thread is told."""
    exp = Exp()
    p, s = batch_processor(exp, 8, 2)
    need(isinstance(getattr(p, "_shutdown", None), bool), "the flag set by shutdown")
    n = choose("n", [1, 2, 5])
    order = choose("order", ["flush", "flush then shutdown", "shutdown then flush"])
    late = []

    def during(k):
        if k == 1:
            if order == "shutdown then flush":
                set_attr(p, "_shutdown", True)
            late.append(is_true(p.force_flush(10)))
            if order == "flush then shutdown":
                set_attr(p, "_shutdown", True)
    exp.during = during
    for i in range(n):
        p.emit(Rec(i))
    s.timeouts = 2
    s.worker()
    check(both(len(late) == 1), "the flush was requested")
    for e in s.waited:
        check(e.flag, "whoever waits for a flush is told")
    got = exported(exp)
    check(len(got) == n, "everything queued is exported")
    check(both(*[got[i].i == i for i in range(n)]), "once and in order")


@contract()
def flush_while_the_worker_waits():
    """A flush requested while the worker waits, with more records emitted before or after it, is served in the same turn and reported after its records are exported."""
    batch = choose("batch", [1, 3])
    exp = Exp()
    p, s = batch_processor(exp, 8, batch)
    before, meanwhile, after = choose("before", 3), choose("meanwhile", 4), choose("after", 2)
    down = choose("down", 2)
    records = [Rec(i) for i in range(before + meanwhile + after)]
    turns = []

    def during():
        turns.append(1)
        if len(turns) == 1:
            for sp in records[before:before + meanwhile]:
                p.emit(sp)
            p.force_flush(10)
            for sp in records[before + meanwhile:]:
                p.emit(sp)
            if down:
                set_attr(p, "_shutdown", True)
    s.during_wait = during
    s.report = lambda: len(exported(exp))
    need(isinstance(getattr(p, "_shutdown", None), bool), "the flag set by shutdown")
    for sp in records[:before]:
        p.emit(sp)
    s.timeouts = 3
    s.worker()
    if turns:
        check(len(s.waited) == 1, "the flush was requested")
        check_told(s, before + meanwhile)
    check_batches(exp, batch)
    s.during_wait = None
    p.shutdown()
    got = exported(exp)
    check(len(got) == (len(records) if turns else before), "every record is exported once")
    for i in range(len(got)):
        check(got[i] is records[i], "in emission order")


@contract()
def flushes_before_the_workers_turn():
    """Two flushes, with more records before and between, before the worker gets its turn: each is reported only after everything queued at its request is exported."""
    batch = choose("batch", [1, 3])
    exp = Exp()
    p, s = batch_processor(exp, 8, batch)
    first, second = choose("first", 3), choose("second", 4)
    items = [Rec(i) for i in range(first + second)]
    s.report = lambda: len(exported(exp))
    for x in items[:first]:
        p.emit(x)
    p.force_flush(10)
    for x in items[first:]:
        p.emit(x)
    p.force_flush(10)
    check(len(s.waited) == 2, "both wait")
    s.timeouts = 2
    s.worker()
    for e, least in zip(s.waited, (first, first + second)):
        check(e.flag, "each is told")
        check(s.waited[0] is not s.waited[1] or least == first or s.told[0][1] >= first + second, "after everything queued is exported")
        check(all(n >= least for x, n in s.told if x is e), "after everything queued is exported")
    got = exported(exp)
    check(both(len(got) == len(items), *[got[i] is items[i] for i in range(len(got))]), "once and in order")


@contract()
def flush_waits_as_long_as_told():
    """A flush waits for the given time, zero included, else for the configured export timeout."""
    s = fake_threads()
    configured = sym_int("configured", 1, 10 ** 6)
    p = BatchLogRecordProcessor(Exp(), 1000, 2, configured, 8)
    t = sym_int("timeout", 0, 10 ** 6) if choose("given", 2) else None
    p.force_flush() if t is None else p.force_flush(t)
    check(len(s.timeouts_given) == 1, "one wait")
    want, got = configured if t is None else t, s.timeouts_given[0] * 1000
    check(got == want if symbolic() else abs(got - want) < 1, "in milliseconds")


@contract(assumes=["os.register_at_fork runs its handlers in the child"])
def after_a_fork():
    """In a forked child exactly the records of the child are exported, by one new worker; what the parent had queued is the parent's."""
    child = fork()
    exp = Exp()
    p, s = batch_processor(exp, 8, 2)
    before, after = choose("before", 3), choose("after", 4)
    for i in range(before):
        p.emit(Rec(i))
    started = len(s.started)
    child()
    check(len(s.started) == started + 1, "a worker for the child")
    items = [Rec(10 + i) for i in range(after)]
    for x in items:
        p.emit(x)
    check(len(s.started) == started + 1, "one")
    p.shutdown()
    got = exported(exp)
    check(len(got) == after, "what ended in the child")
    check(both(*[got[i] is items[i] for i in range(len(got))]), "once and in order")
    check(s.started[-1].ran, "by its worker")


@contract(bound="up to 4 records")
def worker_turn():
    """When a wait ends with records queued, at least one batch of the oldest is exported; with an empty queue nothing is."""
    batch = choose("batch", [1, 2, 3])
    exp = Exp()
    p, s = batch_processor(exp, 6, batch)
    n = choose("n", 5)
    records = [Rec(i) for i in range(n)]
    for sp in records:
        p.emit(sp)
    s.timeouts = 1
    s.worker()
    got = exported(exp)
    check(len(got) >= (n if n < batch else batch), "a batch is exported")
    check(both(*[got[i] is records[i] for i in range(len(got))]), "the oldest records in order")
    check_batches(exp, batch)
    if n == 0:
        check(len(exp.batches) == 0, "nothing is exported from an empty queue")


def any_queue(p, name="queue"):
    """The processor with a queue of any length (newest first); records are numbers here."""
    import collections
    f = sym_fn(name + ".record", "int", 1)
    m = p._max_queue_size
    q = sym_seq(name, lambda i: f(i), collections.deque, max_len=m, mutable=True, maxlen=m)
    set_attr(p, "_queue", q)
    return f, length(q)


class Counting(LogExporter):
    """Accepts batches of numbers and appends them to one ghost sequence."""

    def __init__(self, batch):
        self.out = ghost_list()
        self.batch = batch
        self.calls = 0
        self.bad = None

    def export(self, batch):
        check(length(batch) <= self.batch, "a batch is never larger than the maximum")
        self.out.extend(batch)
        self.calls += 1
        if self.bad is not None and self.bad():
            raise ExportFailed("export failed")
        return LogExportResult.SUCCESS

    def shutdown(self):
        pass


@contract()
def export_batch_any_queue():
    """One batch from a queue of any length with any batch size: the oldest records, in order, are exported and removed, no others (loop invariant)."""
    maxq = sym_int("max queue", 1, big(2**30))
    batch = sym_int("batch", 1, big(2**30))
    assume(batch <= maxq)
    exp = Counting(batch)
    exp.bad = lambda: is_true(sym_bool("fails"))
    p, s = batch_processor(exp, maxq, batch)
    f, n = any_queue(p)
    attr(p, "_export_batch")
    buf = attr(p, "_log_records") if symbolic() else None
    q = p._queue

    def havoc():
        havoc_list(q, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(buf, lambda tag, j: ghost_fn(tag, "int")(j))

    def inv(env, i):
        k = env.idx
        return [k >= 0, k <= n, k <= batch, length(q) == n - k, length(buf) == batch,
                forall(0, n - k, lambda j: item(q, j) == f(j)),
                forall(0, k, lambda j: item(buf, j) == f(n - 1 - j))]
    loop_inv(inv, key="_export_batch", ordinal=1, modifies=[havoc], mods=[q, buf], decreases=lambda env: length(q))
    loop_inv(lambda env, i: [length(buf) == batch], key="_export_batch", ordinal=2, modifies=[lambda: havoc_list(buf, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[buf])
    k = p._export_batch()
    want = ite(n < batch, n, batch)
    check(length(exp.out) == want, "as many records as there are, up to the batch size")
    check(forall(0, want, lambda j: item(exp.out, j) == f(n - 1 - j)), "the oldest first, in emission order")
    check(length(p._queue) == n - want, "the exported records leave the queue")
    check(forall(0, n - want, lambda j: item(p._queue, j) == f(j)), "the others stay")
    check(exp.calls == 1, "one export")
    check(k == want, "the number exported is returned")


def one_batch(p, q, out, f, n, batch):
    """Callers of _export_batch see its contract (proved by export_batch_any_queue) in place of its body."""
    attr(p, "_export_batch")
    if not symbolic():
        return

    def oldest_first(a, o):
        return [length(q) == a, length(out) == o, forall(0, a, lambda j: item(q, j) == f(j)), forall(0, o, lambda j: item(out, j) == f(n - 1 - j))]

    def export_batch():
        a, o = length(q), length(out)
        check(a + o == n, "nothing queued or exported otherwise")
        for c in oldest_first(a, o):
            check(c, "exported so far are the oldest")
        k = ite(a < batch, a, batch)
        havoc_list(q, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(out, lambda tag, j: ghost_fn(tag, "int")(j))
        for c in oldest_first(a - k, o + k):
            assume(c)
        return k
    set_attr(p, "_export_batch", export_batch)


@contract()
def emit_any_queue():
    """emit with a queue of any length and any queue size: the record becomes the newest; when full exactly the oldest is lost; emitting after shutdown changes nothing."""
    maxq = sym_int("max queue", 1, big(2**30))
    batch = sym_int("batch", 1, big(2**30))
    assume(batch <= maxq)
    p, s = batch_processor(Counting(batch), maxq, batch)
    f, n = any_queue(p)
    sp = Rec(0)
    down = choose("down", 2)
    if down:
        p._shutdown = True
    p.emit(sp)
    q = p._queue
    if down:
        check(length(q) == n, "nothing is queued")
        check(forall(0, n, lambda j: item(q, j) == f(j)), "the queue is unchanged")
        return
    full = is_true(n == maxq)
    check(length(q) == (n if full else n + 1), "one more, up to the queue size")
    check(item(q, 0) is sp, "the record is the newest")
    keep = n - 1 if full else n
    check(forall(0, keep, lambda j: item(q, j + 1) == f(j)), "all others kept, the oldest lost only when full")


@contract()
def drain_any_queue():
    """Draining a queue of any length exports everything in order and leaves it empty with any batch size (loop invariant over the drain loop)."""
    batch = sym_int("batch", 1, big(2**20))
    exp = Counting(batch)
    p, s = batch_processor(exp, 2**20, batch)
    f, n = any_queue(p)
    q = p._queue
    attr(p, "_drain_queue")
    out = exp.out
    one_batch(p, q, out, f, n, batch)

    def havoc():
        havoc_list(q, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(out, lambda tag, j: ghost_fn(tag, "int")(j))
    loop_inv(lambda env, i: [length(q) + length(out) == n, forall(0, length(q), lambda j: item(q, j) == f(j)), forall(0, length(out), lambda j: item(out, j) == f(n - 1 - j))],
             key="_drain_queue", modifies=[havoc], mods=[q, out, exp, attr(p, "_log_records") if symbolic() else None], decreases=lambda env: length(q))
    p._drain_queue()
    check(length(p._queue) == 0, "the queue is empty")
    check(length(out) == n, "everything is exported once")
    check(forall(0, n, lambda j: item(out, j) == f(n - 1 - j)), "in emission order")


@contract()
def flush_any_queue():
    """Serving a flush request with a queue of any length exports at least everything queued at the request, in order with any batch size."""
    batch = sym_int("batch", 1, big(2**20))
    exp = Counting(batch)
    p, s = batch_processor(exp, 2**20, batch)
    f, n = any_queue(p)
    q, out = p._queue, exp.out
    attr(p, "_export")
    one_batch(p, q, out, f, n, batch)
    served = []
    s.flush = lambda: (s.worker(), served.append(1))

    def havoc():
        havoc_list(q, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(out, lambda tag, j: ghost_fn(tag, "int")(j))
    loop_inv(lambda env, i: [length(q) + length(out) == n, forall(0, length(q), lambda j: item(q, j) == f(j)), forall(0, length(out), lambda j: item(out, j) == f(n - 1 - j)),
                             env.num_log_records == length(q)],
             key="_export", modifies=[havoc], mods=[q, out, exp, attr(p, "_log_records") if symbolic() else None], decreases=lambda env: length(q))
    ok = p.force_flush(1000)
    check(is_true(ok), "the flush succeeds")
    check(length(out) == n, "everything queued is exported once")
    check(forall(0, n, lambda j: item(out, j) == f(n - 1 - j)), "in emission order")


@contract()
def configuration():
    """The constructor accepts exactly positive queue, delay and batch values with the batch no larger than the queue."""
    fake_threads()
    q, d, b = sym_int("queue", -5, big(2**30)), sym_int("delay", -5, 10**6), sym_int("batch", -5, big(2**30))
    raised = False
    try:
        BatchLogRecordProcessor(Exp(), d, b, 1000, q)
    except ValueError:
        raised = True
    check(iff(raised, either(q <= 0, d <= 0, b <= 0, b > q)), "refused exactly when invalid")


@contract()
def simple_processor():
    """Every record is exported when emitted, alone, suppressed; failures never escape and the context is restored."""
    exp = Exp([choose("fail0", FAILS), choose("fail1", FAILS)])
    p = SimpleLogRecordProcessor(exp)
    mark = context_api.set_value("mark", 1, context_api.Context())
    token = context_api.attach(mark)
    want = []
    for i in range(2):
        sp = Rec(i)
        p.emit(sp)
        check(context_api.get_current() is mark, "the caller's context is restored")
        want.append(sp)
        check(len(exp.batches) == len(want), "exported when emitted")
    context_api.detach(token)
    for b, w in zip(exp.batches, want):
        check(both(len(b) == 1, b[0] is w), "the record itself, alone, in order")
    check(exp.unsuppressed == 0, "exports run with instrumentation suppressed")
    check(is_true(p.force_flush()), "nothing to flush")
    exp.while_down = lambda: p.emit(Rec(8))
    p.shutdown()
    check(exp.shutdowns == 1, "shutdown reaches the exporter")
    p.emit(Rec(9))
    check(len(exp.batches) == 2, "after shutdown, or during it, nothing more is accepted")


@contract()
def in_memory_exporter():
    """The in-memory exporter keeps every batch in order until shutdown, then refuses; clearing empties it."""
    exp = InMemoryLogExporter()
    if symbolic():
        set_attr(exp, "_logs", ghost_list())
    f, g = sym_fn("a", "int"), sym_fn("b", "int")
    one, two = sym_seq("one", f, tuple), sym_seq("two", g, list)
    r = [exp.export(one), exp.export(two)]
    got = exp.get_finished_logs()
    n = length(one)
    check(all(x is LogExportResult.SUCCESS for x in r), "accepted")
    check(length(got) == n + length(two), "everything kept")
    check(forall(0, n, lambda j: item(got, j) == f(j)), "first batch in order")
    check(forall(0, length(two), lambda j: item(got, n + j) == g(j)), "then the second")
    exp.shutdown()
    check(exp.export(two) is LogExportResult.FAILURE, "refused after shutdown")
    check(length(exp.get_finished_logs()) == length(got), "nothing added after shutdown")
    exp.clear()
    check(length(exp.get_finished_logs()) == 0, "cleared")


class Written:
    """An output that remembers what was written to it and whether it was flushed."""

    def __init__(self):
        self.text, self.flushed = "", False

    def write(self, s):
        self.text, self.flushed = self.text + s, False

    def flush(self):
        self.flushed = True


@contract()
def console_exporter():
    """The console exporter writes each record of a batch of any size once, in order, and flushes."""
    out = Written()
    text = sym_fn("text", "str")
    records = sym_seq("records", lambda i: Rec(i))
    if symbolic():
        sofar = ghost_fn("written so far", "str")

        def clauses(env, i):
            assume(both(sofar(0) == "", sofar(i + 1) == sofar(i) + text(i)))
            return [out.text == sofar(i)]

        def havoc():
            out.text = sym_str("written")
            out.flushed = sym_bool("flushed")
        loop_inv(clauses, over="records", modifies=[havoc], mods=[out])
    else:
        def sofar(n):
            return "".join(text(i) for i in range(n))
    exp = ConsoleLogExporter(out=out, formatter=lambda sp: text(sp.i))
    r = exp.export(records)
    check(r is LogExportResult.SUCCESS, "success")
    check(out.text == sofar(length(records)), "each once, in order")
    check(out.flushed, "flushed at the end")


@contract()
def configuration_defaults():
    """An explicit value is used as given, else the environment's, else the documented default; an unusable text falls back to the default."""
    fake_threads()
    names = ["OTEL_BLRP_MAX_QUEUE_SIZE", "OTEL_BLRP_MAX_EXPORT_BATCH_SIZE", "OTEL_BLRP_SCHEDULE_DELAY", "OTEL_BLRP_EXPORT_TIMEOUT"]
    default, env = [2048, 512, 5000, 30000], {}
    which = choose("which", 4)
    text = choose("text", [None, "600", "x", "2.5", ""])
    set_env(**{names[i]: text if i == which else None for i in range(4)})
    want = list(default)
    if text == "600":
        want[which] = 600
    explicit = choose("explicit", 5)
    args = [None] * 4
    if explicit < 4:
        args[explicit] = sym_int("given", 513, 599) if explicit == 0 else sym_int("given", 1, 511)
        want[explicit] = args[explicit]
    raised = False
    try:
        p = BatchLogRecordProcessor(Exp(), args[2], args[1], args[3], args[0])
    except ValueError:
        raised = True
    check(raised == is_true(want[1] > want[0]), "consistent values are accepted")
    if not raised:
        got = [attr(p, "_max_queue_size"), attr(p, "_max_export_batch_size"), attr(p, "_schedule_delay_millis"), attr(p, "_export_timeout_millis")]
        for i in range(4):
            check(got[i] == want[i], "argument, else environment, else default")


class Numbered(LogRecordProcessor):
    """The i-th of arbitrarily many processors; logs its number."""

    def __init__(self, i, log, data=None, result=None, clock=None):
        self.i, self.log, self.data, self.result, self.clock = i, log, data, result, clock

    def emit(self, log_data):
        check(log_data is self.data, "called with that record")
        self.log.append(self.i)

    def shutdown(self):
        self.log.append(self.i)

    def force_flush(self, timeout_millis=30000):
        self.log.append(self.i)
        if self.clock is not None:
            check(timeout_millis >= 0, "a processor never gets a negative timeout")
            check(self.clock.now + timeout_millis * 1000000 <= self.clock.deadline, "a processor gets no more than the remaining time")
        return self.result(self.i)


def numbered_log(log):
    """The invariant of the fan-out loops: processors 0..i-1 have been called, in that order."""
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j)], over="procs",
             modifies=[lambda: havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[log])


@contract()
def sequential_fan_out():
    """Any number of processors: each gets each record, and shutdown, exactly once, in registration order."""
    log = ghost_list()
    data = Rec(0)
    m = SynchronousMultiLogRecordProcessor()
    procs = sym_seq("procs", lambda i: Numbered(i, log, data), tuple)
    set_attr(m, "_log_record_processors", procs)
    numbered_log(log)
    if choose("event", ["emit", "shutdown"]) == "emit":
        m.emit(data)
    else:
        m.shutdown()
    check(length(log) == length(procs), "every processor called once")
    check(forall(0, length(procs), lambda j: item(log, j) == j), "in registration order")


class Clock:
    """A clock that never goes back."""

    def __init__(self, timeout):
        self.now = sym_int("t0", 0, 2**62)
        self.deadline = None
        self.timeout = timeout

    def __call__(self):
        self.now = self.now + sym_int("dt", 0, 2**50)
        if self.deadline is None:
            self.deadline = self.now + self.timeout * 1000000
        return self.now


@contract()
def sequential_flush():
    """force_flush with any number of processors, results and elapsed times: true exactly if all succeeded in time, stops at the first failure."""
    log = ghost_list()
    timeout = sym_int("timeout", 0, 10**9)
    clock = Clock(timeout)
    set_clock(clock)
    ok = sym_fn("ok", "bool")
    m = SynchronousMultiLogRecordProcessor()
    procs = sym_seq("procs", lambda i: Numbered(i, log, result=ok, clock=clock), tuple)
    set_attr(m, "_log_record_processors", procs)

    def havoc():
        havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))
        now = clock.now
        clock.now = sym_int("tn", 0, 2**64)
        assume(clock.now >= now)
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j), forall(0, i, lambda j: ok(j)),
                             either(i == 0, clock.now < clock.deadline)],
             over="procs", modifies=[havoc], mods=[log, clock])
    r = m.force_flush(timeout)
    n = length(procs)
    k = length(log)
    check(k <= n, "no processor asked twice")
    check(forall(0, k, lambda j: item(log, j) == j), "asked in registration order")
    if is_true(r):
        check(k == n, "success only if every processor was asked")
        check(forall(0, n, lambda j: ok(j)), "success only if every processor succeeded")
        check(either(n == 0, clock.now < clock.deadline), "success only within the deadline")
    else:
        check(forall(0, k - 1, lambda j: ok(j)), "stops at the first failure")
        check(either(clock.now >= clock.deadline, both(k > 0, neg(ok(ite(k > 0, k - 1, 0))))), "failure only if a processor failed or the time is over")


class Sink(LogRecordProcessor):
    def __init__(self, name, log):
        self.name, self.log, self.got, self.flushes, self.shutdowns, self.flush_result = name, log, [], [], 0, True

    def emit(self, log_data):
        self.got.append(log_data)
        self.log.append((self.name, log_data))

    def shutdown(self):
        self.shutdowns += 1
        self.log.append((self.name, None))

    def force_flush(self, timeout_millis=30000):
        self.flushes.append(timeout_millis)
        return self.flush_result


def multi(kind):
    m = SynchronousMultiLogRecordProcessor() if kind == "sequential" else ConcurrentMultiLogRecordProcessor(max_workers=2)
    if kind != "sequential" and not symbolic():
        on_exit(lambda: attr(m, "_executor").shutdown())
    return m


@contract(assumes=["thread pool tasks run to completion when submitted, or when waited for (two schedules)"], bound="up to 3 processors")
def registration_histories():
    """Processors registered at a provider before, between and after records: each gets exactly the records emitted after its registration."""
    set_env(OTEL_SDK_DISABLED=None)
    kind = choose("kind", ["sequential", "concurrent", "late"])
    if kind == "late":
        lazy_tasks()
    prov = LoggerProvider(resource=Resource({"r": 1}), shutdown_on_exit=False, multi_log_record_processor=multi(kind))
    logger = prov.get_logger("t")
    log = []
    sinks = [Sink("p" + str(i), log) for i in range(3)]
    want, have = [], 0
    for op in [choose("op0", ["add", "emit"]), "add", "emit", choose("op1", ["add", "emit"]), "emit", "shutdown"]:
        if op == "add":
            prov.add_log_record_processor(sinks[have])
            have += 1
        elif op == "emit":
            r = LogRecord(body=len(want), resource=prov.resource)
            logger.emit(r)
            want += [("p" + str(i), r) for i in range(have)]
            check(len(log) == len(want), "all processors have it when emit returns")
        else:
            prov.shutdown()
            want += [("p" + str(i), None) for i in range(have)]
            check(len(log) == len(want), "all processors are shut down when it returns")
    check(len(log) == len(want), "each record reaches exactly the processors registered by then, once")
    if kind != "sequential" and not symbolic():
        for s in sinks:
            check([d and d.log_record.body for n, d in log if n == s.name] == [d and d.body for n, d in want if n == s.name], "each processor gets them in emission order")
        return
    for g, w in zip(log, want):
        check(g[0] == w[0], "in registration order")
        check((g[1] is None) if w[1] is None else g[1].log_record is w[1], "the record itself")


@contract(assumes=["thread pool tasks run to completion when submitted, or when waited for (two schedules)"], bound="up to 3 processors")
def concurrent_fan_out():
    """The concurrent fan-out: each record, flush and shutdown reaches each processor once; flushing succeeds only if all succeeded."""
    if choose("late", 2):
        lazy_tasks()
    m = multi("concurrent")
    log = []
    sinks = [Sink("p" + str(i), log) for i in range(choose("n", 4))]
    for s in sinks:
        s.flush_result = choose("result", [True, False])
        m.add_log_record_processor(s)
    data = Rec(0)
    m.emit(data)
    timeout = sym_int("timeout", 1000, 10**6)
    ok = m.force_flush(timeout)
    m.shutdown()
    for s in sinks:
        check(both(len(s.got) == 1, s.shutdowns == 1, len(s.flushes) == 1), "each event once per processor")
        check(both(s.got[0] is data, s.flushes[0] == timeout), "with the record and the timeout")
    check(iff(ok, all(s.flush_result for s in sinks)), "flush succeeds exactly if all succeeded")


class Task:
    """The i-th task of the pool."""

    def __init__(self, i, waited, ok=None):
        self.i, self.waited, self.ok = i, waited, ok

    def result(self, timeout=None):
        self.waited.append(self.i)
        return None if self.ok is None else self.ok(self.i)


class Pool:
    """The thread pool as far as the processors use it: it calls what is submitted with the arguments given."""

    def __init__(self, waited, ok=None):
        self.n, self.waited, self.ok = 0, waited, ok

    def submit(self, fn, /, *args, **kwargs):
        fn(*args, **kwargs)
        self.n = self.n + 1
        return Task(self.n - 1, self.waited, self.ok)


def pooled(m, field, procs, log, waited, where, ok=None):
    """A concurrent fan-out over procs whose tasks are run by such a pool, with the invariant of its submitting loop: one task per processor so far."""
    pool = Pool(waited, ok)
    set_attr(m, field, procs)
    set_attr(m, "_executor", pool)

    def tasks(tag="futures"):
        l = ghost_list()
        havoc_list(l, lambda t, j: Task(j, waited, ok))
        return l

    def anything():
        havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))
        pool.n = fresh_int("submitted")
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j), pool.n == i, length(env.futures) == i],
             key=where, ordinal=1, modifies=[anything], mods=[log, pool], locals_={"futures": tasks})


@contract(assumes=["ThreadPoolExecutor.submit calls the function once with the arguments"])
def concurrent_fan_out_any_number():
    """ConcurrentMultiLogRecordProcessor with any number of processors: each is called exactly once per event and all of them have been waited for when the event returns."""
    log, waited = ghost_list(), ghost_list()
    data = Rec(0)
    m = ConcurrentMultiLogRecordProcessor(max_workers=2)
    procs = sym_seq("procs", lambda i: Numbered(i, log, data), tuple)
    pooled(m, "_log_record_processors", procs, log, waited, "ConcurrentMultiLogRecordProcessor._submit_and_wait")
    loop_inv(lambda env, i: [length(waited) == i, forall(0, i, lambda j: item(waited, j) == j)], key="ConcurrentMultiLogRecordProcessor._submit_and_wait", ordinal=2,
             modifies=[lambda: havoc_list(waited, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[waited])
    if choose("event", ["emit", "shutdown"]) == "emit":
        m.emit(data)
    else:
        m.shutdown()
    n = length(procs)
    check(length(log) == n, "every processor called once")
    check(forall(0, n, lambda j: item(log, j) == j), "submitted in registration order")
    check(length(waited) == n, "all have been waited for")
    check(forall(0, n, lambda j: item(waited, j) == j), "all have been waited for")


@contract(assumes=["ThreadPoolExecutor.submit calls the function once with the arguments", "concurrent.futures.wait splits the futures into finished and unfinished ones"])
def concurrent_flush_any_number():
    """A concurrent flush of any number of processors, any of them failing or late: asks each once with the whole timeout and succeeds exactly if all succeeded in time."""
    import concurrent.futures as cf
    log, waited, ok = ghost_list(), ghost_list(), sym_fn("ok", "bool")
    timeout = sym_int("timeout", 0, 10 ** 9)

    class Asked(Numbered):
        def force_flush(self, timeout_millis=30000):
            check(timeout_millis == timeout, "with the whole timeout")
            self.log.append(self.i)
    m = ConcurrentMultiLogRecordProcessor(max_workers=2)
    procs = sym_seq("procs", lambda i: Asked(i, log), tuple)
    pooled(m, "_log_record_processors", procs, log, waited, "ConcurrentMultiLogRecordProcessor.force_flush", ok)
    late = choose("late", 2)

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        check(return_when == "ALL_COMPLETED", "waits for all")
        return (fs[1:], [fs[0]]) if late and is_true(length(fs) > 0) else (fs, [])
    stub(cf, "wait", wait)
    loop_inv(lambda env, i: [forall(0, i, ok)], key="ConcurrentMultiLogRecordProcessor.force_flush", ordinal=2, modifies=[lambda: havoc_list(waited, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[waited])
    r = m.force_flush(timeout)
    n = length(procs)
    check(length(log) == n, "every processor asked once")
    check(forall(0, n, lambda j: item(log, j) == j), "every processor asked once")
    if late and is_true(n > 0):
        check(not is_true(r), "fails if one is late")
    else:
        check(iff(r, neg(exists(0, n, lambda j: neg(ok(j))))), "succeeds exactly if all succeeded")


@contract(assumes=["concurrent.futures.wait splits the futures into finished and unfinished ones"], bound="up to 3 processors")
def concurrent_flush_deadline():
    """A concurrent flush with a processor that has not finished in time fails (any subset unfinished)."""
    import concurrent.futures as cf
    m = multi("concurrent")
    for i in range(choose("n", 4)):
        m.add_log_record_processor(Sink("p" + str(i), []))
    timeout = sym_int("timeout", 1, 10**6)
    asked, late = [], []

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        asked.append(timeout)
        done = []
        if return_when != "ALL_COMPLETED":      # may end with the first one
            return list(fs)[:1], list(fs)[1:]
        for f in list(fs):
            (late if choose("late", 2) else done).append(f)
        return done, list(late)
    stub(cf, "wait", wait)
    ok = m.force_flush(timeout)
    if asked:
        check(iff(ok, len(late) == 0), "succeeds exactly if every processor finished in time")
        check(both(asked[0] * 1000 <= timeout + 1, asked[0] * 1000 >= timeout - 1), "waits for the given time")


@contract()
def registered_after_any_number():
    """A processor registered at the provider after any number of others: it comes last in the order, the others keep their places."""
    log = ghost_list()
    set_env(OTEL_SDK_DISABLED=None)
    data = Rec(0)
    m = multi("sequential")
    procs = sym_seq("procs", lambda i: Numbered(i, log, data), tuple)
    n = length(procs)
    set_attr(m, "_log_record_processors", procs)
    prov = LoggerProvider(resource=Resource({"r": 1}), shutdown_on_exit=False, multi_log_record_processor=m)
    prov.add_log_record_processor(Numbered(n, log, data))
    for where in ["emit", "shutdown"]:
        loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j)], key="SynchronousMultiLogRecordProcessor." + where,
                 modifies=[lambda: havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[log])
    if choose("event", ["emit", "shutdown"]) == "emit":
        m.emit(data)
    else:
        m.shutdown()
    check(length(log) == n + 1, "every processor called once, the new one too")
    check(forall(0, n + 1, lambda j: item(log, j) == j), "in registration order")


@contract(assumes=["ThreadPoolExecutor.submit calls the function once with the arguments"])
def registered_after_any_number_concurrent():
    """The same with the concurrent fan-out."""
    log, waited = ghost_list(), ghost_list()
    set_env(OTEL_SDK_DISABLED=None)
    data = Rec(0)
    m = ConcurrentMultiLogRecordProcessor(max_workers=2)
    procs = sym_seq("procs", lambda i: Numbered(i, log, data), tuple)
    n = length(procs)
    where = "ConcurrentMultiLogRecordProcessor._submit_and_wait"
    pooled(m, "_log_record_processors", procs, log, waited, where)
    prov = LoggerProvider(resource=Resource({"r": 1}), shutdown_on_exit=False, multi_log_record_processor=m)
    prov.add_log_record_processor(Numbered(n, log, data))
    loop_inv(lambda env, i: [length(waited) == i, forall(0, i, lambda j: item(waited, j) == j)], key=where, ordinal=2,
             modifies=[lambda: havoc_list(waited, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[waited])
    if choose("event", ["emit", "shutdown"]) == "emit":
        m.emit(data)
    else:
        m.shutdown()
    check(length(log) == n + 1, "every processor called once, the new one too")
    check(forall(0, n + 1, lambda j: item(log, j) == j), "in registration order")
    check(length(waited) == n + 1, "all have been waited for")


@contract()
def concurrent_registration():
    """A processor registered by another thread while one is being registered is not lost."""
    m = multi(choose("kind", ["sequential", "concurrent"]))
    log = []
    a, b = Sink("a", log), Sink("b", log)
    done = []

    def other():
        if not done:
            done.append(1)
            m.add_log_record_processor(b)
    guarded(m, "_log_record_processors", attr(m, "_lock"))
    interfere(m, "_lock", other, after=choose("after", 2) == 1)
    m.add_log_record_processor(a)
    m.emit(Rec(0))
    check(both(len(a.got) == 1, len(b.got) == 1), "both processors are registered")


@contract()
def provider_forwards():
    """The provider's flush and shutdown are those of its processor; flush returns its result."""
    set_env(OTEL_SDK_DISABLED=None)
    m = Sink("m", [])
    m.flush_result = sym_bool("result")
    prov = LoggerProvider(resource=Resource({"r": 1}), shutdown_on_exit=choose("exit", [False, True]), multi_log_record_processor=m)
    t = sym_int("timeout", 0)
    check(iff(prov.force_flush(t), m.flush_result), "flush result of the processor")
    check(both(len(m.flushes) == 1, m.flushes[0] == t), "flush reaches the processor with the timeout")
    prov.shutdown()
    check(m.shutdowns == 1, "shutdown reaches the processor")


@contract()
def through_the_provider():
    """Records emitted through a logger reach the exporter of a simple and a batching processor once, in emission order, none after shutdown."""
    set_env(OTEL_SDK_DISABLED=None)
    kind = choose("kind", ["simple", "batch"])
    exp = InMemoryLogExporter()
    if kind == "simple":
        p = SimpleLogRecordProcessor(exp)
    else:
        p, s = batch_processor(exp, 8, 2)
    prov = LoggerProvider(resource=Resource({"r": 1}), shutdown_on_exit=False)
    prov.add_log_record_processor(p)
    a, b = prov.get_logger("a"), prov.get_logger("b")
    recs = [LogRecord(body=sym_str("body"), resource=prov.resource) for i in range(3)]
    for lg, r in zip((a, b, a), recs):
        lg.emit(r)
    prov.shutdown()
    a.emit(recs[0])
    got = exp.get_finished_logs()
    check(len(got) == 3, "each record once")
    for g, r, n in zip(got, recs, "aba"):
        check(both(g.log_record is r, g.instrumentation_scope.name == n), "in emission order, with its scope")


class Deferred:
    """A pool that runs a task when it is waited for; another thread does something at a point."""

    def __init__(self, other, at):
        self.other, self.at, self.points, self.depth = other, at, 0, 0

    def point(self):
        if self.depth:
            return
        self.points += 1
        if self.points - 1 == self.at:
            self.depth += 1
            self.other()
            self.depth -= 1

    def submit(self, fn, /, *args, **kwargs):
        self.point()
        return DeferredTask(self, fn, args, kwargs)


class DeferredTask:
    def __init__(self, pool, fn, args, kwargs):
        self.pool, self.fn, self.args, self.kwargs, self.ran = pool, fn, args, kwargs, False

    def result(self, timeout=None):
        self.pool.point()
        if not self.ran:
            self.ran = True
            self.value = self.fn(*self.args, **self.kwargs)
        return self.value


@contract()
def events_of_two_threads():
    """Another thread has an event of its own while one is handed out concurrently: each is complete at every processor when its call returns, and flushes do not take each other's results."""
    import concurrent.futures as cf
    log = []
    m = ConcurrentMultiLogRecordProcessor(max_workers=2)
    theirs = choose("theirs", ["event", "flush"])
    mine = choose("mine", ["event", "flush"])
    fails = choose("fails", [None, "mine", "theirs"])

    class P(LogRecordProcessor):
        def __init__(self, n):
            self.n = n

        def emit(self, x):
            log.append((self.n, x))

        def shutdown(self):
            pass

        def force_flush(self, timeout_millis=30000):
            log.append((self.n, timeout_millis))
            return not (self.n == 1 and fails == ("mine" if timeout_millis == 10 else "theirs"))
    for n in range(2):
        m.add_log_record_processor(P(n))
    got = {}

    def run(who, what):
        x = 10 if who == "mine" else 20
        if what == "flush":
            got[who] = m.force_flush(x)
            check(got[who] == (fails != who), "a flush succeeds exactly if its own processors did")
        else:
            m.emit(x)
        for n in range(2):
            check(log.count((n, x)) == 1, "every processor once, when the call returns")
    set_attr(m, "_executor", Deferred(lambda: run("theirs", theirs), choose("at", 5)))

    def wait(fs, timeout=None, return_when="ALL_COMPLETED"):
        fs = list(fs)
        for f in fs:
            f.result()
        return fs, []
    stub(cf, "wait", wait)
    run("mine", mine)
