"""T11: global providers are set once; proxies forward to them."""
import opentelemetry.trace as T
import opentelemetry.metrics as MA
import opentelemetry.metrics._internal as M
import opentelemetry._logs._internal as L
from opentelemetry.util._once import Once
from contracts.common import *


class RealTracer(T.Tracer):
    def __init__(self, *what):
        self.what, self.calls = what, []

    def start_span(self, name, context=None, kind=SpanKind.INTERNAL, attributes=None, links=None, start_time=None, record_exception=True,
                   set_status_on_exception=True):
        self.calls.append((name, context, kind, attributes, links, start_time, record_exception, set_status_on_exception))
        return NonRecordingSpan(SpanContext(5, 7, False))

    def start_as_current_span(self, name, context=None, kind=SpanKind.INTERNAL, attributes=None, links=None, start_time=None, record_exception=True,
                              set_status_on_exception=True, end_on_exit=True):
        self.calls.append((name, context, kind, attributes, links, start_time, record_exception, set_status_on_exception, end_on_exit))
        return use_span(NonRecordingSpan(SpanContext(5, 7, False)))


class RealTracerProvider(T.TracerProvider):
    def __init__(self):
        self.made = []

    def get_tracer(self, instrumenting_module_name, instrumenting_library_version=None, schema_url=None, attributes=None):
        t = RealTracer(instrumenting_module_name, instrumenting_library_version, schema_url, attributes)
        self.made.append(t)
        return t


class RealLogger(L.Logger):
    def __init__(self, *what):
        super().__init__("n")
        self.what, self.records = what, []

    def emit(self, record):
        self.records.append(record)


class RealLoggerProvider(L.LoggerProvider):
    def __init__(self):
        self.made = []

    def get_logger(self, name, version=None, schema_url=None, attributes=None):
        t = RealLogger(name, version, schema_url, attributes)
        self.made.append(t)
        return t


class RealInstrument:
    def __init__(self, *what):
        self.what, self.calls = what, []

    def add(self, amount, attributes=None, context=None):
        self.calls.append(("add", amount, attributes, context))

    def record(self, amount, attributes=None, context=None):
        self.calls.append(("record", amount, attributes, context))

    def set(self, amount, attributes=None, context=None):
        self.calls.append(("set", amount, attributes, context))


class RealMeter(M.Meter):
    def __init__(self, *what):
        super().__init__(what[0])
        self.what, self.made = what, []

    def _make(self, *what):
        i = RealInstrument(*what)
        self.made.append(i)
        return i

    def create_counter(self, name, unit="", description=""):
        return self._make("counter", name, unit, description, None, None)

    def create_up_down_counter(self, name, unit="", description=""):
        return self._make("updown", name, unit, description, None, None)

    def create_gauge(self, name, unit="", description=""):
        return self._make("gauge", name, unit, description, None, None)

    def create_histogram(self, name, unit="", description="", *, explicit_bucket_boundaries_advisory=None):
        return self._make("histogram", name, unit, description, None, explicit_bucket_boundaries_advisory)

    def create_observable_counter(self, name, callbacks=None, unit="", description=""):
        return self._make("ocounter", name, unit, description, callbacks, None)

    def create_observable_up_down_counter(self, name, callbacks=None, unit="", description=""):
        return self._make("oupdown", name, unit, description, callbacks, None)

    def create_observable_gauge(self, name, callbacks=None, unit="", description=""):
        return self._make("ogauge", name, unit, description, callbacks, None)


class RealMeterProvider(M.MeterProvider):
    def __init__(self):
        self.made = []

    def get_meter(self, name, version=None, schema_url=None, attributes=None):
        t = RealMeter(name, version, schema_url, attributes)
        self.made.append(t)
        return t


def fresh_globals():
    """No provider set yet, as at interpreter start."""
    stub(T, "_TRACER_PROVIDER", None)
    stub(T, "_TRACER_PROVIDER_SET_ONCE", Once())
    stub(M, "_METER_PROVIDER", None)
    stub(M, "_METER_PROVIDER_SET_ONCE", Once())
    need(hasattr(M, "_ProxyMeterProvider"), "the proxy meter provider class")
    stub(M, "_PROXY_METER_PROVIDER", getattr(M, "_ProxyMeterProvider")())
    stub(L, "_LOGGER_PROVIDER", None)
    stub(L, "_LOGGER_PROVIDER_SET_ONCE", Once())
    set_env(OTEL_PYTHON_TRACER_PROVIDER=None, OTEL_PYTHON_METER_PROVIDER=None, OTEL_PYTHON_LOGGER_PROVIDER=None)


SIGNALS = {
    "traces": (RealTracerProvider, T.set_tracer_provider, T.get_tracer_provider, T),
    "metrics": (RealMeterProvider, M.set_meter_provider, M.get_meter_provider, M),
    "logs": (RealLoggerProvider, L.set_logger_provider, L.get_logger_provider, L),
}


@contract()
def first_set_wins():
    """set_*_provider / get_*_provider: the first provider stays, whatever is set later and however often it is read in between."""
    fresh_globals()
    make, set_, get, mod = SIGNALS[choose("signal", ["traces", "metrics", "logs"])]
    before = choose("gets before", 3)
    proxies = [get() for _ in range(before)]
    for p in proxies:
        check(p is proxies[0], "the same stand-in before anything is set")
    first, second, third = make(), make(), make()
    set_(first)
    if choose("get between", 2):
        check(get() is first, "the provider set is the global one")
    set_(second)
    check(get() is first, "a later set does not replace it")
    set_(third)
    check(get() is first, "nor does a third")
    check(len(second.made) == 0 and len(third.made) == 0, "later providers are not used")


@contract()
def environment_choice():
    """With the provider named in the environment the first read loads it; it then stays."""
    fresh_globals()
    sig = choose("signal", ["traces", "metrics", "logs"])
    make, set_, get, mod = SIGNALS[sig]
    loaded = make()
    loads = []

    def load(variable, kind):
        loads.append((variable, kind))
        return loaded
    need(hasattr(mod, "_load_provider"), "_load_provider")
    stub(mod, "_load_provider", load)
    set_env(**{"traces": {"OTEL_PYTHON_TRACER_PROVIDER": "x"}, "metrics": {"OTEL_PYTHON_METER_PROVIDER": "x"}, "logs": {"OTEL_PYTHON_LOGGER_PROVIDER": "x"}}[sig])
    mine = make()
    if choose("set first", 2):
        set_(mine)
        check(get() is mine, "a provider set in code wins")
        check(len(loads) == 0, "nothing is loaded")
    else:
        check(get() is loaded, "the named provider is loaded")
        check(len(loads) == 1 and loads[0][0] == {"traces": "OTEL_PYTHON_TRACER_PROVIDER", "metrics": "OTEL_PYTHON_METER_PROVIDER",
                                                  "logs": "OTEL_PYTHON_LOGGER_PROVIDER"}[sig], "by its variable")
        set_(mine)
        check(get() is loaded, "and stays")
        check(len(loads) == 1, "it is loaded once")


@contract()
def once_under_interference():
    """Once.do_once: exactly one caller runs its function, whichever thread is first to the lock; the others do nothing and say so."""
    o = Once()
    log, others = [], []
    order = choose("other thread", ["before", "at the lock", "after"])

    def other():
        others.append(o.do_once(lambda: log.append("other")))
    if order == "before":
        other()
    elif order == "at the lock":
        interfere(o, "_lock", other, after=choose("after", 2) == 1)
    r = o.do_once(lambda: log.append("me"))
    if order == "after":
        other()
    check(len(log) == 1, "the function runs once")
    check(iff(r, log[0] == "me"), "the caller who ran it is told so")
    check(iff(others[0], log[0] == "other"), "and only that one")
    check(not o.do_once(lambda: log.append("late")), "nothing runs later")
    check(len(log) == 1, "still once")


@contract()
def once_failure():
    """A function that raises does not count as having been executed; the error reaches the caller and the lock is free again."""
    o = Once()
    log = []

    def bad():
        raise ValueError("no")
    try:
        o.do_once(bad)
        fail("the error is passed on")
    except ValueError:
        pass
    check(o.do_once(lambda: log.append(1)), "the next function runs")
    check(len(log) == 1, "once")


@contract()
def concurrent_set():
    """Two threads setting a provider: one wins, and everybody sees that one."""
    fresh_globals()
    sig = choose("signal", ["traces", "metrics", "logs"])
    make, set_, get, mod = SIGNALS[sig]
    a, b = make(), make()
    seen = []
    once = getattr(mod, {"traces": "_TRACER_PROVIDER_SET_ONCE", "metrics": "_METER_PROVIDER_SET_ONCE", "logs": "_LOGGER_PROVIDER_SET_ONCE"}[sig])

    def other():
        set_(b)
        seen.append(get())
    late = choose("after", 2) == 1
    interfere(once, "_lock", other, after=late)
    set_(a)
    winner = a if late else b
    check(seen[0] is winner, "who asks then sees the provider set first")
    check(get() is winner, "the loser does not replace it")


def any_scope():
    name, version, schema = sym_str("name"), sym_str("version"), sym_str("schema")
    attributes = {"a": sym_int("attr")} if choose("attributes", 2) else None
    return name, version, schema, attributes


@contract()
def tracers():
    """get_tracer before or after the set, through the function or the provider: same delegate, same arguments; nothing before."""
    fresh_globals()
    name, version, schema, attributes = any_scope()
    real = RealTracerProvider()
    when = choose("obtained", ["before", "after"])
    how = choose("how", ["function", "provider"])
    proxy_provider = T.get_tracer_provider()
    if when == "after":
        T.set_tracer_provider(real)
    t = T.get_tracer(name, version, None, schema, attributes) if how == "function" else proxy_provider.get_tracer(name, version, schema, attributes)
    sname = sym_str("span")
    if when == "before":
        check(not t.start_span(sname).get_span_context().is_valid, "before: an invalid span")
        with t.start_as_current_span(sname) as s:
            check(not s.is_recording(), "before: nothing is recorded")
        T.set_tracer_provider(real)
    c, st = context_api.Context(), sym_int("start")
    t.start_span(sname, c, SpanKind.CLIENT, {"k": 1}, [], st, False, True)
    check(len(real.made) == 1, "one tracer is obtained from the provider")
    if len(real.made) != 1:
        return
    r = real.made[0]
    check(both(r.what[0] == name, r.what[1] == version, r.what[2] == schema), "with the name, version and schema url given")
    check(r.what[3] == attributes, "and the attributes given")
    check(len(r.calls) == 1, "each call is passed on once")
    n, cc, k, at, ln, s, re_, ss = r.calls[0]
    check(both(n == sname, s == st), "with its name and start time")
    check(cc is c and k is SpanKind.CLIENT and at == {"k": 1} and ln == [] and re_ is False and ss is True, "and all else")
    with t.start_as_current_span(sname, end_on_exit=False) as sp:
        check(sp.get_span_context().trace_id == 5, "the real span is given")
        check(get_current_span() is sp, "and is current")
    check(len(r.calls) == 2 and r.calls[1][8] is False, "passed on once")
    check(len(real.made) == 1, "the same real tracer is kept")


@contract()
def tracer_proxies_are_independent():
    """Several proxies made before the set each get their own delegate."""
    fresh_globals()
    names = [sym_str("a"), sym_str("b")]
    ts = [T.get_tracer(n) for n in names]
    real = RealTracerProvider()
    T.set_tracer_provider(real)
    order = choose("order", [[0, 1], [1, 0], [0, 1, 0]])
    for i in order:
        ts[i].start_span("s")
    check(len(real.made) == 2, "one delegate each")
    for k, i in enumerate(order[:2]):
        check(real.made[k].what[0] == names[i], "under its own name")
    check(len(real.made[0].calls) == (2 if len(order) == 3 else 1), "calls go to the own delegate")


@contract()
def explicit_provider():
    """A provider passed explicitly is used, whatever is global."""
    fresh_globals()
    name, version, schema, attributes = any_scope()
    if choose("global set", 2):
        T.set_tracer_provider(RealTracerProvider())
        M.set_meter_provider(RealMeterProvider())
        L.set_logger_provider(RealLoggerProvider())
    sig = choose("signal", ["traces", "metrics", "logs"])
    if sig == "traces":
        p = RealTracerProvider()
        r = T.get_tracer(name, version, p, schema, attributes)
    elif sig == "metrics":
        p = RealMeterProvider()
        r = M.get_meter(name, version, p, schema, attributes)
    else:
        p = RealLoggerProvider()
        r = L.get_logger(name, version, p, schema, attributes)
    check(len(p.made) == 1 and p.made[0] is r, "the given provider makes it")
    check(both(r.what[0] == name, r.what[1] == version, r.what[2] == schema), "with the name, version and schema url given")
    check(r.what[3] == attributes, "and the attributes given")


@contract()
def loggers():
    fresh_globals()
    name, version, schema, attributes = any_scope()
    real = RealLoggerProvider()
    when = choose("obtained", ["before", "after"])
    how = choose("how", ["function", "provider"])
    proxy_provider = L.get_logger_provider()
    if when == "after":
        L.set_logger_provider(real)
    t = L.get_logger(name, version, None, schema, attributes) if how == "function" else proxy_provider.get_logger(name, version, schema, attributes)
    recs = [object(), object()]
    if when == "before":
        t.emit(object())
        L.set_logger_provider(real)
    t.emit(recs[0])
    t.emit(recs[1])
    check(len(real.made) == 1, "one logger is obtained from the provider")
    if len(real.made) != 1:
        return
    r = real.made[0]
    check(both(r.what[0] == name, r.what[1] == version, r.what[2] == schema), "with the name, version and schema url given")
    check(r.what[3] == attributes, "and the attributes given")
    check(len(r.records) == 2 and r.records[0] is recs[0] and r.records[1] is recs[1], "records are passed on once, in order; none from before the set")


KINDS = ["counter", "updown", "gauge", "histogram", "ocounter", "oupdown", "ogauge"]
VERB = {"counter": "add", "updown": "add", "gauge": "set", "histogram": "record"}


def create(meter, kind, name, unit, description, cbs, advisory):
    if kind == "counter":
        return meter.create_counter(name, unit, description)
    if kind == "updown":
        return meter.create_up_down_counter(name, unit, description)
    if kind == "gauge":
        return meter.create_gauge(name, unit, description)
    if kind == "histogram":
        return meter.create_histogram(name, unit, description, explicit_bucket_boundaries_advisory=advisory)
    if kind == "ocounter":
        return meter.create_observable_counter(name, cbs, unit, description)
    if kind == "oupdown":
        return meter.create_observable_up_down_counter(name, cbs, unit, description)
    return meter.create_observable_gauge(name, cbs, unit, description)


def check_instrument(r, kind, name, unit, description, cbs, advisory):
    check(r.what[0] == kind, "the delegate is of the same kind")
    check(both(r.what[1] == name, r.what[2] == unit, r.what[3] == description), "with its name, unit and description")
    check(r.what[4] is (cbs if kind[0] == "o" else None), "with its callbacks")
    check(r.what[5] is (advisory if kind == "histogram" else None), "with its advisory boundaries")


@contract()
def instruments():
    """Every instrument kind x (meter obtained, instrument created) before or after the set: one delegate with the same arguments, measurements passed on."""
    fresh_globals()
    name, version, schema = sym_str("scope"), sym_str("version"), sym_str("schema")
    kind = choose("kind", KINDS)
    when = choose("set", ["after the instrument", "between meter and instrument", "before the meter"])
    iname, unit, description = sym_str("name"), sym_str("unit"), sym_str("description")
    cbs, advisory = [lambda o: []], [sym_int("boundary")]
    real = RealMeterProvider()
    if choose("how", ["function", "provider"]) == "function":
        def obtain():
            return M.get_meter(name, version, None, schema)
    else:
        proxy_provider = M.get_meter_provider()

        def obtain():
            return proxy_provider.get_meter(name, version, schema)
    if when == "before the meter":
        M.set_meter_provider(real)
    m = obtain()
    if when == "between meter and instrument":
        M.set_meter_provider(real)
    i = create(m, kind, iname, unit, description, cbs, advisory)
    c = context_api.Context()
    if when == "after the instrument":
        if kind in VERB:
            getattr(i, VERB[kind])(1, {"k": "before"}, c)
        M.set_meter_provider(real)
    check(len(real.made) == 1, "one meter is obtained from the provider")
    if len(real.made) != 1:
        return
    rm = real.made[0]
    check(both(rm.what[0] == name, rm.what[1] == version, rm.what[2] == schema), "with the name, version and schema url given")
    check(len(rm.made) == 1, "one instrument is created on it")
    if len(rm.made) != 1:
        return
    r = rm.made[0]
    check_instrument(r, kind, iname, unit, description, cbs, advisory)
    check(len(r.calls) == 0, "nothing measured before reaches it")
    if kind in VERB:
        v, at = sym_int("amount"), {"k": "v"}
        getattr(i, VERB[kind])(v, at, c)
        check(len(r.calls) == 1 and r.calls[0][0] == VERB[kind] and r.calls[0][2] is at and r.calls[0][3] is c, "a measurement is passed on once")
        check(r.calls[0][1] == v, "with its amount")


@contract()
def several_instruments():
    """Two meters with any kinds of instruments, in any mix of creation before and after the set: each gets its own delegate on its own meter."""
    fresh_globals()
    k = [choose("kind0", KINDS), choose("kind1", ["counter", "histogram", "ogauge"])]
    real = RealMeterProvider()
    ns = ["s0", "s1"]
    ms = [M.get_meter(n, "1") for n in ns]
    cbs, advisory = [lambda o: []], [1.0]
    a = create(ms[0], k[0], "i0", "u0", "d0", cbs, advisory)
    b = create(ms[1], k[1], "i1", "u1", "d1", cbs, advisory)
    a2 = create(ms[0], k[1], "i2", "u2", "d2", cbs, advisory)
    M.set_meter_provider(real)
    late = create(ms[0], k[0], "i3", "u3", "d3", cbs, advisory)
    check(len(real.made) == 2, "one delegate meter each")
    if len(real.made) != 2:
        return
    by_scope = {m.what[0]: {i.what[1]: i for i in m.made} for m in real.made}
    check(set(by_scope) == {"s0", "s1"}, "under their own names")
    check(set(by_scope["s0"]) == {"i0", "i2", "i3"} and set(by_scope["s1"]) == {"i1"}, "each instrument on its own meter")
    check(len(real.made[0].made) + len(real.made[1].made) == 4, "each once")
    check_instrument(by_scope["s0"]["i0"], k[0], "i0", "u0", "d0", cbs, advisory)
    check_instrument(by_scope["s0"]["i2"], k[1], "i2", "u2", "d2", cbs, advisory)
    check_instrument(by_scope["s0"]["i3"], k[0], "i3", "u3", "d3", cbs, advisory)
    check_instrument(by_scope["s1"]["i1"], k[1], "i1", "u1", "d1", cbs, advisory)


@contract()
def instrument_creation_races_with_set():
    """A provider set by another thread while an instrument or meter is being created: the instrument still gets exactly one delegate that works."""
    fresh_globals()
    real = RealMeterProvider()
    kind = choose("kind", KINDS)
    where = choose("where", ["meter lock", "provider lock"])
    provider = M.get_meter_provider()
    cbs = [lambda o: []]
    if where == "meter lock":
        m = provider.get_meter("m")
        interfere(m, "_lock", lambda: M.set_meter_provider(real), after=choose("after", 2) == 1)
        i = create(m, kind, "i", "u", "d", cbs, [1.0])
    else:
        interfere(provider, "_lock", lambda: M.set_meter_provider(real), after=choose("after", 2) == 1)
        m = provider.get_meter("m")
        i = create(m, kind, "i", "u", "d", cbs, [1.0])
    check(len(real.made) == 1, "one real meter")
    made = [x for r in real.made for x in r.made]
    check(len(made) == 1, "one real instrument")
    if kind in VERB and len(made) == 1:
        getattr(i, VERB[kind])(3)
        check(len(made[0].calls) == 1, "measurements reach it")


@contract()
def meter_attributes():
    """The attributes a meter was obtained with reach the real provider (findings: they are dropped)."""
    fresh_globals()
    real = RealMeterProvider()
    at = {"a": sym_int("attr")}
    provider = M.get_meter_provider()
    if choose("obtained", ["before", "after"]) == "before":
        M.get_meter("m", "1", None, "s", at)
        M.set_meter_provider(real)
    else:
        M.set_meter_provider(real)
        provider.get_meter("m", "1", "s", at)
    check(len(real.made) == 1 and real.made[0].what[3] == at, "with the attributes given")


@contract()
def noop_providers():
    """The no-op providers hand out things that do nothing."""
    kind = choose("kind", KINDS)
    n = sym_str("name")
    t = T.NoOpTracerProvider().get_tracer(n)
    check(not t.start_span(n).get_span_context().is_valid, "no-op tracers start invalid spans")
    m = M.NoOpMeterProvider().get_meter(n)
    i = create(m, kind, "i", "u", "d", [], [1.0])
    if kind in VERB:
        check(getattr(i, VERB[kind])(1) is None, "no-op instruments do nothing")
    check(L.NoOpLoggerProvider().get_logger(n).emit(object()) is None, "no-op loggers do nothing")
