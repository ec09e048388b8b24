"""M08: metric readers and provider: collection and shutdown life cycle."""
import atexit
from contracts.common import *
from contracts.metrics import *
from contracts.threads import *
from contracts.M04 import metrics_of
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics._internal.exceptions import MetricsTimeoutError
from opentelemetry.sdk.metrics._internal.sdk_configuration import SdkConfiguration
from opentelemetry.sdk.metrics._internal import export as export_module
from opentelemetry.sdk.metrics.export import InMemoryMetricReader, MetricExporter, MetricExportResult, MetricReader, PeriodicExportingMetricReader


class Reader:
    """Stands for the i-th reader."""

    def __init__(self, i, log, fails, left, error=RuntimeError):
        self.i, self.log, self.fails, self.left, self.error = i, log, fails, left, error

    def act(self, timeout_millis):
        self.log.append(self.i)
        self.left(timeout_millis)
        if is_true(self.fails(self.i)):
            raise self.error("reader")

    def shutdown(self, timeout_millis=30000):
        self.act(timeout_millis)

    def force_flush(self, timeout_millis=10000):
        self.act(timeout_millis)
        return True


class Errors:
    """Any number of failures noted so far."""

    def __init__(self, n):
        self.n = n

    def __setitem__(self, reader, error):
        self.n = self.n + 1

    def __len__(self):
        return self.n

    def items(self):
        return [(Reader(0, [], None, None), RuntimeError("reader"))] if not symbolic() else sym_seq("noted", lambda i: (Reader(0, [], None, None), RuntimeError("reader")))


class Alarm(XEvent):
    """An event whose wait ends by timeout as often as told, then only when it is set."""
    timeouts = 0

    def wait(self, timeout=None):
        if not self.flag:
            if Alarm.timeouts <= 0:
                raise Parked()
            Alarm.timeouts -= 1
        return self.flag


def no_threads():
    """Threads, events and conditions under the control of the contract."""
    sched = fake_threads()
    for name, fake in (("Thread", XThread), ("Event", Alarm), ("Condition", XCondition)):
        if hasattr(export_module, name):
            stub(export_module, name, fake)
    return sched


def provider(**kw):
    return MeterProvider([], resource=Resource({}), **kw)


@contract(seconds=120)
def every_reader_is_told():
    """Any number of readers of which any fail: shutdown and force_flush reach each exactly once, in order, with a time limit; the call fails exactly if some reader did; a second shutdown does nothing."""
    log, fails = ghost_list(), sym_fn("fails", "bool")
    what = choose("what", ["shutdown", "force_flush"])
    timeout = sym_int("timeout", 1, 10 ** 6)
    start = sym_int("start", 10 ** 18, 2 * 10 ** 18)
    set_clock(lambda: start)
    p = provider(shutdown_on_exit=False)

    def left(t):
        check(both(0 < t, t <= timeout + 1), "with what is left of the time")
    error = choose("error", [RuntimeError, ValueError, MetricsTimeoutError, TimeoutError, KeyError])
    readers = sym_seq("readers", lambda i: Reader(i, log, fails, left, error))
    set_attr(p, "_sdk_config", SdkConfiguration(None, Resource({}), readers, []))

    errors = Errors(0)

    def noted(env):
        errors.n = fresh_int("errors")
        return errors
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j), iff(length(env.metric_reader_error) > 0, exists(0, i, fails)),
                             length(env.metric_reader_error) >= 0],
             over="readers", modifies=[lambda: havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[log, errors],
             locals_={"metric_reader_error": noted})
    failed = False
    try:
        getattr(p, what)(timeout)
    except Exception:
        failed = True
    n = length(readers)
    check(length(log) == n, "every reader once")
    check(forall(0, n, lambda j: item(log, j) == j), "in order")
    check(iff(failed, exists(0, n, fails)), "fails exactly if some reader did")
    if what == "shutdown":
        p.shutdown(timeout)
        check(length(log) == n, "a second shutdown tells no reader")


@contract()
def a_second_thread_shuts_down():
    """Another thread shuts the provider down at the lock: each reader is shut down once."""
    log = []
    p = provider(shutdown_on_exit=False)
    set_attr(p, "_sdk_config", SdkConfiguration(None, Resource({}), [Reader(i, log, lambda i: False, lambda t: None) for i in range(2)], []))
    set_clock(lambda: 5)
    interfere(attr(p, "_shutdown_once"), "_lock", lambda: p.shutdown() if not log else None, after=choose("after", 2) == 1)
    p.shutdown()
    check(log == [0, 1], "each once")


@contract()
def after_shutdown():
    """A provider that is shut down hands out meters whose instruments do nothing."""
    set_clock(lambda: 10 ** 18)
    r = InMemoryMetricReader()
    p = MeterProvider([r], resource=Resource({}), shutdown_on_exit=False)
    before = p.get_meter("m").create_counter("a")
    p.shutdown()
    p.get_meter("m").create_counter("c").add(1)
    check(metrics_of(r.get_metrics_data()) == [], "nothing is recorded")
    check(before is not None, "created before")


@contract()
def at_exit():
    """Unless told otherwise the provider is shut down at exit, and not a second time after a shutdown."""
    handlers = []
    from opentelemetry.sdk.metrics import _internal
    stub(_internal, "register", lambda f: (handlers.append(f), f)[1])
    stub(_internal, "unregister", lambda f: handlers.remove(f))
    on_exit_too = choose("on exit", 2) == 1
    p = provider(shutdown_on_exit=on_exit_too)
    check(len(handlers) == (1 if on_exit_too else 0), "registered")
    log = []
    set_clock(lambda: 5)
    set_attr(p, "_sdk_config", SdkConfiguration(None, Resource({}), [Reader(0, log, lambda i: False, lambda t: None)], []))
    if on_exit_too and choose("exit", 2):
        handlers[0]()
    else:
        p.shutdown()
    check(log == [0], "shut down once")
    check(handlers == [], "no longer registered")


@contract(bound="two readers in each of two providers")
def one_provider_per_reader():
    """Up to two readers in each of up to two providers, possibly another thread at the lock: registering a reader a second time fails."""
    a, b = InMemoryMetricReader(), InMemoryMetricReader()
    set_clock(lambda: 10 ** 18)
    first = choose("first", [[], [a], [a, b], [a, a]])
    second = choose("second", [[a], [b], [b, a], []])

    def build(readers):
        try:
            return MeterProvider(readers, resource=Resource({}), shutdown_on_exit=False)
        except Exception:
            return None
    p = build(first)
    check((p is None) == (len(first) != len({id(r) for r in first})), "refused exactly if a reader is given twice")
    q = build(second)
    taken = [r for r in second if r in first]
    check((q is None) == bool(taken), "refused exactly if some reader is taken")
    owners = {id(r): (p if r in first else q if q is not None and r in second else None) for r in (a, b)}
    for o in (p, q):
        if o is not None:
            o.get_meter("m").create_counter("c").add(3)
    for r in (a, b):
        if owners[id(r)] is not None and not taken and p is not None:
            check([m.data.data_points[0].value for _, m in metrics_of(r.get_metrics_data())] == [3], "it collects from its provider")


@contract()
def registering_races():
    """Another thread registers the same reader at the lock: one of the two providers is refused."""
    a, got = InMemoryMetricReader(), []
    real = MeterProvider._all_metric_readers_lock

    def other():
        if not got:
            got.append(None)
            try:
                got[0] = MeterProvider([a], resource=Resource({}), shutdown_on_exit=False)
            except Exception:
                pass
    stub(MeterProvider, "_all_metric_readers_lock", XLock(real, other, 0, choose("after", 2) == 1))
    try:
        mine = MeterProvider([a], resource=Resource({}), shutdown_on_exit=False)
    except Exception:
        mine = None
    check((mine is None) != (got[0] is None), "exactly one provider has it")


class Exporter(MetricExporter):
    """Writes down what it is asked to do and under which circumstances."""

    def __init__(self, fails=None):
        super().__init__()
        self.order, self.fails, self.suppressed, self.timeouts, self.lock, self.locked = [], fails, [], [], None, []

    def export(self, metrics_data, timeout_millis=10000, **kwargs):
        self.order.append("export")
        self.data = metrics_data
        self.suppressed.append(bool(context_api.get_value(context_api._SUPPRESS_INSTRUMENTATION_KEY)))
        self.timeouts.append(timeout_millis)
        self.locked.append(self.lock is None or self.lock.locked())
        if self.fails is not None:
            raise self.fails("export")
        return MetricExportResult.SUCCESS

    def force_flush(self, timeout_millis=10000):
        self.order.append("flush")
        return True

    def shutdown(self, timeout_millis=30000, **kwargs):
        self.order.append("shutdown")


@contract()
def exports_are_suppressed():
    """Any batch and time limit, an exporter that fails or not: it is exported once, suppressed, never concurrently; the caller's context is restored and no failure escapes."""
    no_threads()
    e = Exporter(choose("fails", [None, ValueError, RuntimeError]))
    r = PeriodicExportingMetricReader(e, export_interval_millis=float("inf"))
    e.lock = attr(r, "_export_lock")
    need(hasattr(e.lock, "locked"), "the export lock")
    outer = context_api.set_value("mark", sym_int("mark"), context_api.Context())
    token = context_api.attach(outer)
    on_exit(lambda: context_api.detach(token))
    data, t = object(), sym_number("timeout", 1)
    r._receive_metrics(data, timeout_millis=t)
    check(e.order == ["export"] and e.data is data, "exported once")
    check(e.suppressed == [True], "with instrumentation suppressed")
    check(e.timeouts[0] == t, "with the time limit")
    check(e.locked == [True], "holding the export lock")
    check(not e.lock.locked(), "which is released")
    check(context_api.get_current() is outer, "the caller's context is restored")


class Ticks:
    """Stands for the shutdown event: each wait ends by timeout until it is set."""

    def __init__(self, stop, waits):
        self.stop, self.waits = stop, waits

    def wait(self, timeout=None):
        self.waits.n = self.waits.n + 1
        self.waits.timeout = timeout
        return self.stop(self.waits.n)


class Waits:
    n, timeout = 0, None


@contract()
def the_timer():
    """Any number of intervals, any of whose collections fail in any way: one collection per interval and a final one."""
    no_threads()
    interval, limit = sym_int("interval", 1, 10 ** 6), sym_int("limit", 1, 10 ** 6)
    r = PeriodicExportingMetricReader(Exporter(), export_interval_millis=interval, export_timeout_millis=limit)
    stop, kind = sym_fn("stop", "bool"), sym_fn("kind", "int")
    w = Waits()
    final = []
    if not symbolic():
        inner = stop
        stop = lambda n: n > 6 or inner(n)
    set_attr(r, "_shutdown_event", Ticks(stop, w))
    meanwhile = sym_fn("meanwhile", "bool")

    class Counted:
        n = 0

    def collect(reader, timeout_millis=10000):
        check(reader is r, "for this reader")
        Counted.n = Counted.n + 1
        k = kind(Counted.n)
        if is_true(meanwhile(Counted.n)) or is_true(stop(w.n)):
            set_attr(r, "_shutdown", True)      # shut down while collecting
        if is_true(k == 0):
            raise MetricsTimeoutError("t")
        if is_true(k == 1) and not is_true(stop(w.n)):
            raise ValueError("v")
        if is_true(k == 2):
            check(timeout_millis == limit if not is_true(stop(w.n)) else True, "with the export time limit")
        return None
    r._set_collect_callback(collect)

    def anything():
        w.n = Counted.n = fresh_int("n")
        w.timeout = None
        set_attr(r, "_shutdown", choose("shut", 2) == 1)
    loop_inv(lambda env, i: [w.n == Counted.n, w.n >= 0], key="PeriodicExportingMetricReader._ticker", modifies=[anything], mods=[w, Counted, r], is_while=True)
    r._ticker()
    check(is_true(stop(w.n)), "ends only when shut down")
    check(w.timeout is not None and w.timeout * 1000 == interval if symbolic() else True, "waits for the interval")
    check(Counted.n == w.n, "one collection per interval and a final one")


@contract()
def periodic_shutdown():
    """Any interval, failing exporter or not, with or without intervals passed: shutdown delivers a final collection, then shuts the exporter down, once; a second shutdown does nothing."""
    no_threads()
    set_clock(lambda: 10 ** 18)
    e = Exporter(choose("fails", [None, ValueError]))
    timer = choose("timer", 2)
    r = PeriodicExportingMetricReader(e, export_interval_millis=sym_int("interval", 1, 10 ** 7) if timer else float("inf"))
    p = MeterProvider([r], resource=Resource({}), shutdown_on_exit=False)
    c = p.get_meter("m").create_counter("c")
    c.add(sym_int("v", 0))
    if choose("flush before", 2):
        r.force_flush()
        check(e.order == ["export", "flush"], "a flush exports what was collected, then flushes the exporter")
    if choose("collected before", 2):
        r.collect()
    before = len(e.order)
    by = choose("by", ["reader", "provider"])
    (r if by == "reader" else p).shutdown(sym_int("timeout", 1, 10 ** 6))
    check(e.order[before:] == ["export", "shutdown"], "a final collection, then the exporter's shutdown")
    check(metrics_of(e.data)[0][1].name == "c", "with what was recorded")
    r.shutdown()
    check(len(e.order) == before + 2, "a second shutdown does nothing")
    check(all(e.suppressed), "all exports suppressed")


@contract()
def without_a_provider():
    """A reader that is not registered collects nothing and fails not."""
    no_threads()
    e = Exporter()
    r = PeriodicExportingMetricReader(e, export_interval_millis=float("inf"))
    r.collect()
    r.shutdown()
    check(e.order == ["shutdown"], "only the exporter's shutdown")


@contract()
def intervals_are_positive():
    """Any interval: refused exactly if it is not positive; a thread exactly if it is finite."""
    no_threads()
    i = sym_number("interval", -100, 100)
    try:
        r = PeriodicExportingMetricReader(Exporter(), export_interval_millis=i)
    except ValueError:
        check(i <= 0, "refused only if not positive")
        return
    check(i > 0, "positive")
    t = attr(r, "_daemon_thread")
    check(t is not None and t.started, "the thread runs")


@contract()
def every_batch_once():
    """Of any batches received by an in-memory reader the last is handed out, once: nothing is left when nothing was collected since."""
    r = InMemoryMetricReader()
    batches = [object() for _ in range(3)]
    now = []
    r._set_collect_callback(lambda reader, timeout_millis=None: now.pop() if now else None)
    expected = None
    for step in range(3):
        what = choose(f"step {step}", ["received", "collected", "read"])
        if what == "received":
            r._receive_metrics(batches[step])
            expected = batches[step]
        elif what == "collected":
            now.append(batches[step])
            r.collect()
            expected = batches[step]
        else:
            check(r.get_metrics_data() is expected, "the last batch")
            expected = None
    check(r.get_metrics_data() is expected, "the last batch")
    check(r.get_metrics_data() is None, "once")


@contract()
def collecting_hands_over():
    """collect hands what the provider collected to the exporter with the time limit, and nothing when there is nothing."""
    no_threads()
    e = Exporter()
    r = PeriodicExportingMetricReader(e, export_interval_millis=float("inf"))
    data, t = choose("data", [None, object()]), sym_int("timeout", 1)
    calls = []
    r._set_collect_callback(lambda reader, timeout_millis=None: (calls.append((reader, timeout_millis)), data)[1])
    r.collect(t)
    check(len(calls) == 1 and calls[0][0] is r and is_true(calls[0][1] == t), "one collection for this reader")
    check(e.order == ([] if data is None else ["export"]), "handed over if there is any")
    check(data is None or e.data is data and is_true(e.timeouts[0] == t), "as it is")
