"""M06: observable callbacks are each run once per collection and isolated."""
import collections.abc
from contracts.common import *
from contracts.metrics import *
from contracts.M04 import Filter, metrics_of, provider
from opentelemetry.metrics import CallbackOptions, Observation
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics._internal.exceptions import MetricsTimeoutError
from opentelemetry.sdk.metrics._internal.instrument import _ObservableCounter, _ObservableGauge, _ObservableUpDownCounter
from opentelemetry.sdk.metrics._internal.measurement_consumer import SynchronousMeasurementConsumer
from opentelemetry.sdk.metrics._internal.sdk_configuration import SdkConfiguration
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.util.instrumentation import InstrumentationScope

KINDS = [_ObservableCounter, _ObservableUpDownCounter, _ObservableGauge]


def observable(kind, callbacks):
    return kind("a", InstrumentationScope("m"), None, callbacks)


class Tally:
    """What the current callback gave and how much of it was delivered."""

    def __init__(self):
        self.begin(None)

    def begin(self, i):
        self.i, self.given, self.delivered, self.failed = i, [], 0, False

    def complete(self):
        return self.failed or self.delivered == len(self.given)


@contract()
def every_callback_once():
    """Any number of callbacks, each giving two, one or no observations and then perhaps failing: each is run once with the options, each observation of one that does not fail is delivered once, of one that fails at most once."""
    ins = observable(choose("kind", KINDS), None)
    options = CallbackOptions(7)
    how = sym_fn("how", "int")
    called, t = ghost_list(), Tally()
    late = choose("fails as", ["call", "iteration"])

    class Callback:
        def __init__(self, i):
            self.i = i

        def __call__(self, opts):
            check(opts is options, "with the collection's options")
            check(t.complete(), "nothing the callback before gave is lost")
            called.append(self.i)
            t.begin(self.i)
            h = how(self.i)
            if late == "call" and is_true(h == 0):
                t.failed = True
                raise ValueError("callback")
            return self.observe(h)

        def observe(self, h):
            n = 1 if is_true(h == 0) else 2 if is_true(h == 1) else 1 if is_true(h == 2) else 0
            for j in range(n):
                t.given.append(Observation(10 * self.i + j, {"a": 1}))
                yield t.given[-1]
            if is_true(either(h == 0, h == 1)):
                t.failed = True
                raise [ValueError, StopIteration, LookupError][choose("error", 3)]("callback")
    callbacks = sym_seq("callbacks", lambda i: Callback(i))
    set_attr(ins, "_callbacks", callbacks)

    def havoc():
        havoc_list(called, lambda tag, j: ghost_fn(tag, "int")(j))
        t.begin(None)
    loop_inv(lambda env, i: [length(called) == i, forall(0, i, lambda j: item(called, j) == j), t.complete()], over="callbacks",
             modifies=[havoc], mods=[called, t])
    for m in ins.callback(options):
        check(t.delivered < len(t.given), "only what was given, once")
        check(both(m.value == t.given[t.delivered].value, m.attributes is t.given[t.delivered].attributes), "with its value and attributes, in order")
        check(m.instrument is ins, "as a measurement of the instrument")
        t.delivered += 1
    check(length(called) == length(callbacks), "every callback once")
    check(forall(0, length(callbacks), lambda j: item(called, j) == j), "in order")
    check(t.complete(), "nothing given by the last one is lost")


@contract()
def every_observation_once():
    """One callback with any number of observations, with or without attributes and context: each becomes exactly one measurement."""
    ins = observable(choose("kind", KINDS), None)
    now, current = sym_int("now", 1), context_api.Context({"current": 1})
    set_clock(lambda: now)
    token = context_api.attach(current)
    on_exit(lambda: context_api.detach(token))
    value = sym_fn("value", "int")
    own = [None, context_api.Context(), context_api.Context({"k": 1})][choose("context", 3)]
    attributes = [None, {}, {"k": 1}][choose("attributes", 3)]
    obs = sym_seq("obs", lambda i: Observation(value(i), attributes, own))
    set_attr(ins, "_callbacks", [lambda options: obs])
    got = ghost_list()
    loop_inv(lambda env, i: [length(got) == i, forall(0, i, lambda j: item(got, j) == value(j))], over="obs",
             modifies=[lambda: havoc_list(got, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[got])
    for m in ins.callback(CallbackOptions()):
        got.append(m.value)
        check(m.attributes is attributes, "with its attributes")
        check(m.context is (own if own is not None else context_api.get_current()), "with its context, else the current one")
        check(m.instrument is ins and m.time_unix_nano == now, "of this instrument, at this time")
    check(length(got) == length(obs), "as many measurements as observations")
    check(forall(0, length(obs), lambda j: item(got, j) == value(j)), "with their values, in order")


class Gen(collections.abc.Generator):
    """A generator callback that writes down how it is resumed."""

    def __init__(self, answer, empty=False):
        self.answer, self.sent, self.empty = answer, [], empty

    def send(self, value):
        self.sent.append(value)
        if self.empty:
            raise StopIteration
        if len(self.sent) == 1:
            return None
        if isinstance(self.answer, type):
            raise self.answer()
        return self.answer

    def throw(self, *a):
        raise NotImplementedError


@contract()
def generators_are_resumed_once():
    """A generator as callback, in any order with functions: it is started once when registered and resumed once per collection with the options; exhausted or failing it gives nothing and harms no other."""
    answer = choose("answer", [[], [Observation(1)], [Observation(1), Observation(2)], StopIteration, ValueError])
    g, calls = Gen(answer, is_true(answer is StopIteration) and choose("empty", 2) == 1), []

    def function(options):
        calls.append(options)
        return [Observation(9)]
    order = choose("order", [[g], [g, function], [function, g]])
    ins = observable(choose("kind", KINDS), tuple(order) if choose("tuple", 2) else order)
    check(g.sent == [None], "started once")
    n = sym_int("collections", 0, 10 ** 6)
    own = [] if isinstance(answer, type) else [o.value for o in answer]
    for i in range(choose("collections", 3)):
        options = CallbackOptions(i)
        got = [m.value for m in ins.callback(options)]
        check(len(g.sent) == i + 2 and g.sent[-1] is options, "resumed once with the options")
        check(got == [v for c in order for v in (own if c is g else [9])], "its observations, and the others'")
        check(len(calls) == (i + 1 if function in order else 0), "the others once")


@contract()
def real_generators():
    """Generators written as functions, ending after any number of collections: one batch per collection until exhausted."""
    n = choose("n", 4)
    seen = []

    def gen():
        options = yield
        for i in range(n):
            seen.append(options)
            options = yield [Observation(i), Observation(10 + i)]
    ins = observable(choose("kind", KINDS), [gen()])
    for i in range(5):
        options = CallbackOptions(i)
        got = [m.value for m in ins.callback(options)]
        check(got == ([i, 10 + i] if i < n else []), "one batch per collection until exhausted")
        check(len(seen) == min(i + 1, n) and (i >= n or seen[-1] is options), "resumed with the collection's options")


@contract()
def callbacks_are_taken_over():
    """Any number of callbacks given as any iterable: exactly these, in order; None gives none."""
    kind = choose("kind", KINDS)
    fs = [lambda o: [], lambda o: [], lambda o: []][:choose("n", 4)]
    given = choose("given", ["list", "tuple", "iterator", "none"])
    ins = observable(kind, None if given == "none" else iter(fs) if given == "iterator" else tuple(fs) if given == "tuple" else fs)
    got = list(attr(ins, "_callbacks"))
    check(len(got) == (0 if given == "none" else len(fs)), "as many as given")
    check(all(a is b for a, b in zip(got, fs)), "these, in order")


class Always:
    def should_sample(self, value, time_unix_nano, attributes, context):
        return True


class Instrument:
    """Stands for the i-th observable instrument."""

    def __init__(self, i, log, now, deadline, options):
        self.i, self.log, self.now, self.deadline, self.options = i, log, now, deadline, options

    def callback(self, options):
        self.log.append(self.i)
        self.options(options)
        return [measurement(self.i), measurement(self.i)]


class Storage:
    def __init__(self):
        self.got, self.collects = ghost_list(), 0

    def consume_measurement(self, m, should_sample_exemplar=True):
        check(should_sample_exemplar is True, "the exemplar decision as it is")
        self.got.append(m.value)

    def collect(self):
        self.collects += 1
        return self


def consumer(instruments, storage, reader):
    class R:
        _instrument_class_temporality, _instrument_class_aggregation = {}, {}

    class Other:
        def consume_measurement(self, m, should_sample_exemplar=True):
            fail("an observation was given to another reader")

        def collect(self):
            fail("another reader's data was collected")
    c = SynchronousMeasurementConsumer(SdkConfiguration(Always(), Resource({}), [], []))
    set_attr(c, "_reader_storages", {object(): Other(), reader: storage})
    set_attr(c, "_async_instruments", instruments)
    return c


@contract()
def every_instrument_once():
    """Any number of instruments, any progress of time: in a collection that is not cut off by its deadline, every instrument's callbacks are run once and both their observations delivered, with a time limit no longer than what is left."""
    reader, storage, log = object(), Storage(), ghost_list()
    timeout = sym_int("timeout", 0, 10 ** 7)

    class Time:
        begun = []
        now = sym_int("start", 10 ** 18, 2 * 10 ** 18)
    start, limit = Time.now, Time.now + timeout * 10 ** 6

    def tick():
        step = fresh_int("step")
        assume(step >= 0)
        Time.now = Time.now + step
        if not Time.begun:
            Time.begun.append(Time.now)
        return Time.now
    if symbolic():
        set_clock(tick)
    else:
        steps = []

        def later():
            steps.append(0)
            Time.now += sym_int(f"step{len(steps)}", 0, 4 * 10 ** 9)
            return Time.now
        set_clock(later)

    def see(options):
        check(options.timeout_millis <= 10000, "at most the default limit")
        check(implies(options.timeout_millis < 10000, lambda: options.timeout_millis <= timeout + 1), "no longer than what is left")
    instruments = sym_seq("instruments", lambda i: Instrument(i, log, None, None, see))
    c = consumer(instruments, storage, reader)
    got = storage.got

    def havoc(env):
        havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(got, lambda tag, j: ghost_fn(tag, "int")(j))
        n = fresh_int("now")
        Time.now = n
        t = fresh_real("limit")
        return CallbackOptions(t)
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j), length(got) == 2 * i,
                             forall(0, i, lambda j: both(item(got, 2 * j) == j, item(got, 2 * j + 1) == j)),
                             Time.now >= Time.begun[0] if Time.begun else True,
                             env.callback_options.timeout_millis <= 10000,
                             implies(env.callback_options.timeout_millis < 10000, lambda: env.callback_options.timeout_millis <= timeout)],
             over="instruments", modifies=[], mods=[log, got, Time],
             locals_={"callback_options": havoc})
    try:
        r = c.collect(reader, timeout)
    except MetricsTimeoutError:
        check(Time.now >= limit - 1000, "cut off only at the deadline")
        check(storage.collects == 0, "nothing is collected then")
        return
    check(r is storage and storage.collects == 1, "the reader's data, collected once")
    check(length(log) == length(instruments), "every instrument once")
    check(forall(0, length(instruments), lambda j: item(log, j) == j), "in order")
    check(length(got) == 2 * length(instruments), "every observation once")
    check(forall(0, length(instruments), lambda j: both(item(got, 2 * j) == j, item(got, 2 * j + 1) == j)), "to the reader's storage")


@contract()
def every_observation_is_stored():
    """One instrument with any number of observations: each is offered to the exemplar filter and stored once."""
    reader, storage = object(), Storage()
    value = sym_fn("value", "int")
    ms = sym_seq("ms", lambda i: measurement(value(i), 3, {"a": 1}))

    class One:
        def callback(self, options):
            return ms
    c = consumer([One()], storage, reader)
    set_clock(lambda: 5)
    got = storage.got
    loop_inv(lambda env, i: [length(got) == i, forall(0, i, lambda j: item(got, j) == value(j))], over="ms",
             modifies=[lambda: havoc_list(got, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[got])

    class Asked:
        def should_sample(self, value, time_unix_nano, attributes, context):
            check(both(time_unix_nano == 3, attributes == {"a": 1}), "about this measurement")
            return True
    set_attr(c, "_sdk_config", SdkConfiguration(Asked(), Resource({}), [], []))
    c.collect(reader)
    check(length(got) == length(ms), "every observation once")
    check(forall(0, length(ms), lambda j: item(got, j) == value(j)), "in order")


@contract(bound="two instruments with two callbacks each, two collections")
def failures_are_isolated():
    """Two observable instruments with two callbacks each, any of which fail: two collections report exactly the observations of the others."""
    reader = InMemoryMetricReader()
    m = provider([reader]).get_meter("m")
    fails = [[choose(f"fail{i}{j}", [None, "first", "both"]) for j in range(2)] for i in range(2)]
    rounds, runs = [], []
    set_clock(lambda: 10 ** 18)

    def make(i, j):
        def callback(options):
            runs.append((i, j))
            bad = fails[i][j] == "both" or (fails[i][j] == "first" and len(rounds) == 1)
            if bad:
                raise ValueError("callback")
            return [Observation(10 * len(rounds) + i, {"j": j})]
        return callback
    m.create_observable_gauge("g0", [make(0, 0), make(0, 1)])
    m.create_observable_counter("g1", [make(1, 0), make(1, 1)])
    for r in range(2):
        rounds.append(r)
        runs.clear()
        got = {x.name: {p.attributes["j"]: p.value for p in x.data.data_points} for _, x in metrics_of(reader.get_metrics_data())}
        check(sorted(runs) == [(0, 0), (0, 1), (1, 0), (1, 1)], "every callback once")
        for i in range(2):
            for j in range(2):
                bad = fails[i][j] == "both" or (fails[i][j] == "first" and r == 0)
                name = f"g{i}"
                if not bad:
                    check(got.get(name, {}).get(j) == 10 * (r + 1) + i, "each observation is reported")
                elif i == 0 or r == 0:
                    check(j not in got.get(name, {}), "a failed callback reports nothing")


@contract()
def registered_meanwhile():
    """An instrument registered while another thread is about to: both are kept."""
    c = SynchronousMeasurementConsumer(SdkConfiguration(Filter(True), Resource({}), [], []))
    a, b, z = object(), object(), object()
    if choose("before", 2):
        c.register_asynchronous_instrument(z)
    before = list(attr(c, "_async_instruments"))
    theirs = []

    def other():
        if not theirs:
            theirs.append(b)
            c.register_asynchronous_instrument(b)
    interfere(c, "_lock", other, after=choose("after", 2) == 1)
    c.register_asynchronous_instrument(a)
    now = attr(c, "_async_instruments")
    check(now[:len(before)] == before and len(now) == len(before) + 2 and a in now and b in now, "both, each once")
