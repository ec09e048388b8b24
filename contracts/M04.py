"""M04: measurements are routed to exactly the matching streams and series."""
from contracts.common import *
from contracts.metrics import *
from opentelemetry.sdk.metrics import Counter, Histogram, MeterProvider, ObservableCounter, ObservableGauge, UpDownCounter
from opentelemetry.sdk.metrics._internal import measurement_consumer as consumer_module
from opentelemetry.sdk.metrics._internal import metric_reader_storage as storage_module
from opentelemetry.sdk.metrics._internal._view_instrument_match import _ViewInstrumentMatch
from opentelemetry.sdk.metrics._internal.aggregation import (
    Aggregation, DefaultAggregation, DropAggregation, ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation,
    LastValueAggregation, SumAggregation)
from opentelemetry.sdk.metrics._internal.instrument import (
    _Counter, _Gauge, _Histogram, _ObservableCounter, _ObservableGauge, _ObservableUpDownCounter, _UpDownCounter)
from opentelemetry.sdk.metrics._internal.measurement_consumer import SynchronousMeasurementConsumer
from opentelemetry.sdk.metrics._internal.metric_reader_storage import MetricReaderStorage
from opentelemetry.sdk.metrics._internal.sdk_configuration import SdkConfiguration
from opentelemetry.sdk.metrics.export import ExponentialHistogram, Gauge, InMemoryMetricReader, Sum
from opentelemetry.sdk.metrics.export import Histogram as HistogramData
from opentelemetry.sdk.metrics.view import View
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.util.instrumentation import InstrumentationScope

NAME, UNIT = r"[a-z][-_./a-z0-9]{0,254}", r"[\x20-\x7e]{0,63}"
POOL = ["a", "b", "ab", "a.b", "x"]


class AnyCounter(Counter):
    """A counter with any name, unit and scope."""

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, name="a", unit="", scope=None, description=""):
        self.name, self.unit, self.description = name, unit, description
        self.instrumentation_scope = scope if scope is not None else InstrumentationScope("m")


class AnyObservable(ObservableCounter):
    def __new__(cls, *a, **k):
        return object.__new__(cls)

    __init__ = AnyCounter.__init__


GLOBS = ["*", "a*", "*.b", "?", "a?"]


def glob_matches(g, s):
    if g == "*":
        return True
    if g == "a*":
        return s.startswith("a")
    if g == "*.b":
        return s.endswith(".b")
    return len(s) == 1 if g == "?" else both(len(s) == 2, s.startswith("a"))


def glob_or_text(name, own):
    """A name pattern and what it should say about `own`."""
    which = choose(name + ".glob", [None, "text", *GLOBS])
    if which is None:
        return None, True
    if which == "text":
        v = sym_str(name, pattern=r"[^*?\[]{0,63}", pool=POOL + ["", " a", "a "])
        return v, own == v
    return which, glob_matches(which, own)


def text(name, own):
    if choose(name + ".given", 2):
        v = sym_str(name, pool=["", "m", "n", "1.0"])
        return v, own == v
    return None, True


@contract()
def every_condition_must_hold():
    """A view with any of the six conditions, any instrument: it matches exactly if all conditions given hold."""
    scope = InstrumentationScope(sym_str("meter", pool=["", "m", "n"]), [None, sym_str("version", pool=["", "1.0"])][choose("versioned", 2)],
                                 [None, sym_str("url", pool=["", "m"])][choose("urled", 2)])
    kind = choose("kind", [AnyCounter, AnyObservable])
    ins = kind(sym_str("name", pattern=NAME, pool=POOL), sym_str("unit", pattern=UNIT, pool=POOL), scope)
    part = choose("part", 3)
    name = unit = mname = version = url = wanted = None
    conds = []
    if part == 0:
        name, c = glob_or_text("iname", ins.name)
        conds.append(c)
        unit, c = glob_or_text("iunit", ins.unit)
        conds.append(c)
    if part == 1:
        mname, c = text("mname", scope.name)
        conds.append(c)
        version, c = text("mversion", scope.version)
        conds.append(c)
        url, c = text("murl", scope.schema_url)
        conds.append(c)
    if part == 2:
        name, c = glob_or_text("iname", ins.name)
        conds.append(c)
        mname, c = text("mname", scope.name)
        conds.append(c)
    wanted = choose("type", [None, Counter, ObservableCounter, Histogram, AnyCounter])
    if wanted is not None:
        conds.append(isinstance(ins, wanted))
    given = [x for x in (name, unit, mname, version, url, wanted) if x is not None]
    try:
        v = View(instrument_type=wanted, instrument_name=name, meter_name=mname, meter_version=version, meter_schema_url=url, instrument_unit=unit)
    except Exception:
        check(not given, "refused only without any condition")
        return
    check(bool(given), "at least one condition is required")
    check(iff(v._match(ins), both(True, *conds)), "matches exactly if every condition given holds")


class Match:
    """Stands for the stream of the i-th view."""

    def __init__(self, i, log=None, want=None, sample=None):
        self.i, self.log, self.want, self.sample = i, log, want, sample

    def consume_measurement(self, measurement, should_sample_exemplar=True):
        check(both(measurement is self.want, should_sample_exemplar is self.sample), "the measurement and the exemplar decision as they are")
        self.log.append(self.i)

    def conflicts(self, other):
        return False


class NumberedView:
    def __init__(self, i, matches, ins, aggregation):
        self.i, self.matches, self.ins, self._aggregation = i, matches, ins, aggregation

    def _match(self, instrument):
        check(instrument is self.ins, "asked about the instrument of the measurement")
        return self.matches(self.i)


class Ghost:
    """Where in the list of streams each view's stream is."""

    def __init__(self):
        self.pos = lambda k: -1


def streams(views):
    return MetricReaderStorage(SdkConfiguration(None, Resource({}), [], views), {AnyCounter: DELTA, AnyObservable: DELTA}, {})


def stub_match(made):
    def build(view, instrument, instrument_class_aggregation):
        made.append(view)
        return Match(getattr(view, "i", -1))
    stub(storage_module, "_ViewInstrumentMatch", build)


@contract()
def one_stream_per_matching_view():
    """Any number of views of which any match: exactly the matching ones become streams, in order."""
    matches = sym_fn("matches", "bool")
    ins = AnyCounter()
    views = sym_seq("views", lambda i: NumberedView(i, matches, ins, DefaultAggregation()), tuple)
    st = streams(views)
    ghost, out, got = Ghost(), ghost_list(), ghost_list()

    def build(view, instrument, instrument_class_aggregation):
        check(both(instrument is ins, instrument_class_aggregation is st._instrument_class_aggregation), "a stream of this instrument")
        n, old, me = length(out), ghost.pos, view.i
        ghost.pos = lambda k: ite(k == me, n, old(k))
        out.append(me)
        return Match(me)
    stub(storage_module, "_ViewInstrumentMatch", build)

    def inv(env, i):
        n, p = length(out), ghost.pos
        return [0 <= n, n <= i, length(got) == n,
                forall(0, n, lambda j: both(0 <= item(out, j), item(out, j) < i, matches(item(out, j)), p(item(out, j)) == j)),
                forall(0, n - 1, lambda j: item(out, j) < item(out, j + 1)),
                forall(0, i, lambda k: implies(matches(k), lambda: both(0 <= p(k), p(k) < n, item(out, p(k)) == k)))]

    def havoc():
        havoc_list(out, lambda tag, j: ghost_fn(tag, "int")(j))
        havoc_list(got, lambda tag, j: ghost_fn(tag, "int")(j))
        f = ghost_fn("pos", "int")
        ghost.pos = lambda k: f(k)
    loop_inv(inv, over="views", modifies=[havoc], mods=[out, ghost, got])
    attr(st, "_handle_view_instrument_match")(ins, got)
    n, p = length(out), ghost.pos
    check(length(got) == n, "the streams that were made")
    check(forall(0, n, lambda j: matches(item(out, j))), "only of matching views")
    check(forall(0, length(views), lambda k: implies(matches(k), lambda: both(0 <= p(k), p(k) < n, item(out, p(k)) == k))), "of every matching view")
    check(forall(0, n - 1, lambda j: item(out, j) < item(out, j + 1)), "once, in the order of the views")


@contract()
def the_default_stream_when_no_view_matches():
    """Up to three views of which any match: their streams in order, or the default one; an instrument keeps its streams."""
    ins = AnyCounter()
    n = choose("n", 4)
    hit = [choose(f"hit{i}", 2) == 1 for i in range(n)]
    views = [NumberedView(i, lambda i: hit[i], ins, DefaultAggregation()) for i in range(n)]
    st = streams(views)
    made = []
    stub_match(made)
    got = st._get_or_init_view_instrument_match(ins)
    want = [v for v, h in zip(views, hit) if h] or [storage_module._DEFAULT_VIEW]
    check(len(made) == len(want), "as many streams as views match, else one")
    for a, b in zip(made, want):
        check(a is b, "the matching views', else the default one's")
    check([m.i for m in got] == [getattr(v, "i", -1) for v in want], "these are the instrument's")
    check(st._get_or_init_view_instrument_match(ins) is got, "an instrument keeps its streams")


@contract()
def incompatible_views_are_not_applied():
    """Explicit buckets are not applied to an observable instrument; the default stream is used if nothing else matches."""
    ins = choose("ins", [AnyCounter(), AnyObservable()])
    aggs = [ExplicitBucketHistogramAggregation(), DefaultAggregation(), SumAggregation(), LastValueAggregation(), DropAggregation(), ExponentialBucketHistogramAggregation()]
    views = [View(instrument_name=choose(f"name{i}", ["a", "b"]), aggregation=choose(f"agg{i}", aggs)) for i in range(choose("n", 3))]
    st = streams(views)
    made = []
    stub_match(made)
    st._get_or_init_view_instrument_match(ins)
    want = [v for v in views if v._instrument_name == "a" and not (isinstance(ins, AnyObservable) and isinstance(v._aggregation, ExplicitBucketHistogramAggregation))]
    check(len(made) == max(len(want), 1), "one stream per view that applies, else one")
    for a, b in zip(made, want or [storage_module._DEFAULT_VIEW]):
        check(a is b, "of that view")


@contract()
def the_default_stream():
    """The default view changes nothing about an instrument: its name, description, unit and every attribute."""
    v = storage_module._DEFAULT_VIEW
    check(v._name is None and v._description is None and v._attribute_keys is None and isinstance(v._aggregation, DefaultAggregation), "customizes nothing")


@contract()
def measurements_reach_every_stream():
    """A measurement of an instrument with any number of streams: each consumes it exactly once, in order."""
    ins, log = AnyCounter(), ghost_list()
    m, sample = measurement(sym_real("value"), instrument=ins), choose("sample", [True, False])
    st = streams(())
    matches = sym_seq("streams", lambda i: Match(i, log, m, sample))
    attr(st, "_instrument_view_instrument_matches")[ins] = matches
    other = Match(0, [], None, None)
    attr(st, "_instrument_view_instrument_matches")[AnyCounter()] = [other]
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j)], over="streams",
             modifies=[lambda: havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[log])
    st.consume_measurement(m, sample)
    check(length(log) == length(matches), "every stream once")
    check(forall(0, length(matches), lambda j: item(log, j) == j), "in order")
    check(other.log == [], "no other instrument's stream")


@contract()
def streams_are_made_once():
    """Another thread records the first measurement of the same instrument at the same time: both use the same streams."""
    ins = AnyCounter()
    st = streams([View(instrument_name="a", name=f"v{i}") for i in range(2)])
    made, theirs = [], []
    stub_match(made)

    def other():
        if not theirs:
            theirs.append(None)
            theirs[0] = st._get_or_init_view_instrument_match(ins)
    interfere(st, "_lock", other, at=choose("at", 2), after=choose("after", 2) == 1)
    mine = st._get_or_init_view_instrument_match(ins)
    again = st._get_or_init_view_instrument_match(ins)
    check(mine is again, "kept")
    if theirs:
        check(theirs[0] is mine, "the other thread has the same")
    check(len(made) == 2, "each made once")


class Series:
    """An aggregation that writes down what it gets."""

    def __init__(self, attributes):
        self.attributes, self.got = attributes, []

    def aggregate(self, m, should_sample_exemplar=True):
        self.got.append((m, should_sample_exemplar))

    def collect(self, temporality, at):
        return (self, temporality, at)


class MakeSeries(Aggregation):
    def __init__(self):
        self.made = []

    def _create_aggregation(self, instrument, attributes, reservoir_factory, start_time_unix_nano):
        s = Series(attributes)
        s.start, s.instrument = start_time_unix_nano, instrument
        self.made.append(s)
        return s


def some_attributes(tag, most):
    """None or a dictionary with up to `most` of any keys and any string, number, truth or list values."""
    n = choose(tag + ".n", most + 2)
    if n == most + 1:
        return None
    d = {}
    for i in range(n):
        kind = choose(f"{tag}.kind{i}", 3)
        k = sym_str(f"{tag}.key{i}", pool=["k", "l", "m"])
        d[k] = sym_str(f"{tag}.s{i}", pool=["1", ""]) if kind == 0 else sym_int(f"{tag}.v{i}", 0, 3) if kind == 1 else [1, 2]
    return d


def restricted(attributes, keys):
    return {k: v for k, v in (attributes or {}).items() if keys is None or k in keys}


def frozen(attributes):
    return {k: tuple(v) if isinstance(v, list) else v for k, v in attributes.items()}


@contract(bound="two measurements with at most two attributes each, at most two attribute keys", seconds=200)
def one_series_per_restricted_attributes():
    """Two measurements with any attributes, a view with any attribute keys: the same series exactly if their restricted attributes are equal, and it has these attributes."""
    keys = [None, set(), {sym_str("only", pool=["k", "l"])}, {"k", "l"}][choose("keys", 4)]
    agg, ins = MakeSeries(), AnyCounter()
    by_class = choose("by_class", 2)
    vm = _ViewInstrumentMatch(View(instrument_name="a", attribute_keys=keys, aggregation=None if by_class else agg), ins, {AnyCounter: agg})
    agg.made.clear()
    a, b = some_attributes("a", 2), some_attributes("b", 1)
    ra, rb = frozen(restricted(a, keys)), frozen(restricted(b, keys))
    m1, m2 = measurement(1, attributes={}, instrument=ins), measurement(2, attributes={}, instrument=ins)
    object.__setattr__(m1, "attributes", a)
    object.__setattr__(m2, "attributes", b)
    vm.consume_measurement(m1, True)
    vm.consume_measurement(m2, False)
    first = agg.made[0]
    check(frozen(first.attributes) == ra, "the series has the restricted attributes")
    check(first.got[0][0] is m1 and first.got[0][1] is True, "and gets the measurement")
    check(first.instrument is ins, "made for this instrument")
    if is_true(ra == rb):
        check(len(agg.made) == 1, "equal attributes are one series")
        check(len(first.got) == 2 and first.got[1][0] is m2 and first.got[1][1] is False, "which gets both")
    else:
        check(len(agg.made) == 2, "different attributes are different series")
        second = agg.made[1]
        check(frozen(second.attributes) == rb, "the other series has its attributes")
        check(len(first.got) == 1 and len(second.got) == 1 and second.got[0][0] is m2, "each gets its own")
    points = vm.collect(DELTA, 77)
    check([p[0] for p in points] == agg.made, "collecting asks every series once")
    check(all(p[1] is DELTA and p[2] == 77 for p in points), "with the temporality and time given")


@contract()
def series_keep_their_attributes():
    """Changing the dictionary or list given with a measurement afterwards changes no series."""
    agg, ins = MakeSeries(), AnyCounter()
    keys = choose("keys", [None, {"k"}])
    vm = _ViewInstrumentMatch(View(instrument_name="a", attribute_keys=keys, aggregation=agg), ins, {})
    agg.made.clear()
    values = [1, 2]
    v = sym_str("v", pool=["1"])
    d = choose("d", [{"k": v}, {"k": values}])
    before = dict(frozen(d))
    vm.consume_measurement(measurement(1, attributes=d, instrument=ins))
    if isinstance(d["k"], list):
        values.append(3)
    d["k2"] = 2
    d["k"] = 9
    check(frozen(agg.made[0].attributes) == before, "the series keeps the attributes of the measurement")
    vm.consume_measurement(measurement(1, attributes=d, instrument=ins))
    check(len(agg.made) == 2, "another series for the changed attributes")


@contract()
def first_measurements_race():
    """Another thread records with the same attributes at the lock: one series, both measurements in it."""
    agg, ins = MakeSeries(), AnyCounter()
    vm = _ViewInstrumentMatch(View(instrument_name="a", aggregation=agg), ins, {})
    agg.made.clear()
    v, w = sym_str("v", pool=["1"]), sym_str("w", pool=["1", "2"])
    m1, m2 = measurement(1, attributes={"k": v}, instrument=ins), measurement(2, attributes={"k": w}, instrument=ins)
    done = []

    def other():
        if not done:
            done.append(1)
            vm.consume_measurement(m2)
    interfere(vm, "_lock", other, after=choose("after", 2) == 1)
    vm.consume_measurement(m1)
    got = [m for s in agg.made for m, _ in s.got]
    check(len(got) == 2 and m1 in got and m2 in got, "both are in some series")
    check(len(agg.made) == (1 if is_true(v == w) else 2), "one series per attributes")


@contract()
def a_stream_uses_its_views_choices():
    """Name, description and aggregation of a stream: the view's if given, else the instrument's and the reader's for the kind."""
    name, desc = sym_str("iname", pattern=NAME, pool=POOL), sym_str("idesc", pool=["", "d"])
    ins = AnyCounter(name, "u", None, desc)
    vname, vdesc = [None, sym_str("vname", pattern=".+", pool=["n"])][choose("named", 2)], [None, sym_str("vdesc", pattern=".+", pool=["vd"])][choose("described", 2)]
    own, theirs = MakeSeries(), MakeSeries()
    given = choose("given", [None, "default", "own"])
    v = View(instrument_name="a", name=vname, description=vdesc, aggregation=None if given is None else own if given == "own" else DefaultAggregation())
    vm = _ViewInstrumentMatch(v, ins, {AnyCounter: theirs})
    check(attr(vm, "_name") == (name if vname is None else vname), "its name")
    check(attr(vm, "_description") == (desc if vdesc is None else vdesc), "its description")
    vm.consume_measurement(measurement(1, instrument=ins))
    check(len(own.made) == (2 if given == "own" else 0) and len(theirs.made) == (0 if given == "own" else 2), "the view's aggregation, else the reader's")


class Storage:
    def __init__(self, i, log, want, sample):
        self.i, self.log, self.want, self.sample = i, log, want, sample

    def consume_measurement(self, measurement, should_sample_exemplar=True):
        check(both(measurement is self.want, should_sample_exemplar is self.sample), "the measurement and the exemplar decision as they are")
        self.log.append(self.i)


class Filter:
    def __init__(self, result):
        self.result, self.asked = result, []

    def should_sample(self, value, time_unix_nano, attributes, context):
        self.asked.append((value, time_unix_nano, attributes, context))
        return self.result


class Storages:
    def __init__(self, seq):
        self.seq = seq

    def values(self):
        return self.seq


@contract()
def every_reader_gets_every_measurement():
    """Any number of readers: each one's storage consumes a measurement exactly once; the exemplar filter decides once."""
    sample = choose("sample", [True, False])
    f, log = Filter(sample), ghost_list()
    c = SynchronousMeasurementConsumer(SdkConfiguration(f, Resource({}), [], []))
    m = measurement(sym_real("value"), sym_int("time", 0), {"a": 1})
    storages = sym_seq("storages", lambda i: Storage(i, log, m, sample))
    set_attr(c, "_reader_storages", Storages(storages))
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j)], over="storages",
             modifies=[lambda: havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[log])
    c.consume_measurement(m)
    check(length(log) == length(storages), "every reader's storage once")
    check(forall(0, length(storages), lambda j: item(log, j) == j), "in order")
    check(f.asked == [(m.value, m.time_unix_nano, m.attributes, m.context)], "the filter is asked once, about this measurement")


KINDS = [
    (_Counter, True), (_UpDownCounter, False), (_Histogram, None), (_Gauge, None)]


def provider(readers, views=()):
    return MeterProvider(readers, resource=Resource({"r": 1}), shutdown_on_exit=False, views=views)


def metrics_of(data):
    return [] if data is None else [(s.scope, m) for r in data.resource_metrics for s in r.scope_metrics for m in s.metrics]


def record(ins, v, attributes=None):
    f = ins.add if hasattr(ins, "add") else ins.record if hasattr(ins, "record") else ins.set
    f(v, attributes)


@contract()
def collected_metrics():
    """Each kind of instrument and aggregation: one metric per stream with the stream's name, description, unit, kind of data, temporality and monotonicity; dropped streams are absent."""
    kind = choose("kind", 4)
    temporality = choose("temporality", [DELTA, CUMULATIVE])
    agg = choose("agg", [None, SumAggregation(), LastValueAggregation(), ExplicitBucketHistogramAggregation([1]), DropAggregation(), ExponentialBucketHistogramAggregation()])
    reader = InMemoryMetricReader(preferred_temporality={t: temporality for t in (Counter, UpDownCounter, Histogram)})
    p = provider([reader], [] if agg is None else [View(instrument_name="x", name="y", description="vd", aggregation=agg)])
    meter = p.get_meter("m", "1", "url")
    ins = [meter.create_counter, meter.create_up_down_counter, meter.create_histogram, meter.create_gauge][kind]("x", "u", "d")
    record(ins, 7 if isinstance(agg, ExponentialBucketHistogramAggregation) else sym_int("value", 0, 10))
    record(ins, 3, {"k": 1})
    data = reader.get_metrics_data()
    got = metrics_of(data)
    if isinstance(agg, DropAggregation):
        check(got == [], "a dropped stream produces nothing")
        return
    check(len(got) == 1, "one metric")
    scope, m = got[0]
    check(scope is meter._instrumentation_scope and data.resource_metrics[0].scope_metrics[0].schema_url == "url", "in its scope")
    check(data.resource_metrics[0].resource.attributes == {"r": 1}, "and resource")
    check((m.name, m.description, m.unit) == (("x", "d", "u") if agg is None else ("y", "vd", "u")), "name, description and unit of the stream")
    want = {None: [Sum, Sum, HistogramData, Gauge][kind], SumAggregation: Sum, LastValueAggregation: Gauge, ExplicitBucketHistogramAggregation: HistogramData,
            ExponentialBucketHistogramAggregation: ExponentialHistogram}[None if agg is None else type(agg)]
    check(type(m.data) is want, "the kind of data of its aggregation")
    if want is Sum:
        check(m.data.is_monotonic == (kind == 0), "monotonic exactly for counters")
    if want is not Gauge and kind != 3:
        check(m.data.aggregation_temporality is temporality, "with the reader's temporality")
    check(len(m.data.data_points) == 2, "a point for each series")
    check([dict(x.attributes) for x in m.data.data_points] == [{}, {"k": 1}], "with its attributes")


@contract()
def metrics_are_grouped_by_scope():
    """Instruments of two meters, any of which recorded: each scope appears once, with exactly its own metrics."""
    reader = InMemoryMetricReader()
    dropped = View(instrument_name="c2", name="dropped", aggregation=DropAggregation())
    views = [View(instrument_name="c2"), View(instrument_name="c2", name="again")]
    views.insert(choose("dropped", 3), dropped)
    p = provider([reader], views)
    m1, m2 = p.get_meter("one"), p.get_meter("two")
    use = [(m1, "c1"), (m2, "c1"), (m1, "c2"), (m2, "c2")]
    want = {}
    for i, (m, name) in enumerate(use):
        c = m.create_counter(name)
        if choose(f"used{i}", 2):
            c.add(i + 1)
            for n in ([name, "again"] if name == "c2" else [name]):
                want.setdefault(m._instrumentation_scope.name, []).append((n, i + 1))
    data = reader.get_metrics_data()
    got = {}
    for r in (data.resource_metrics if data is not None else []):
        for s in r.scope_metrics:
            check(s.scope.name not in got, "each scope once")
            got[s.scope.name] = [(m.name, m.data.data_points[0].value) for m in s.metrics]
    check({k: sorted(v) for k, v in got.items()} == {k: sorted(v) for k, v in want.items()}, "its metrics, with their values")
    check(data is not None or not want, "nothing only when nothing was recorded")


@contract(bound="two readers, up to four measurements and collections")
def readers_are_independent():
    """Two readers with any temporality, any interleaving of up to four measurements and collections: each sees the totals as if alone."""
    temps = [choose("t1", [DELTA, CUMULATIVE]), choose("t2", [DELTA, CUMULATIVE])]
    readers = [InMemoryMetricReader(preferred_temporality={Counter: t}) for t in temps]
    p = provider(readers)
    c = p.get_meter("m").create_counter("c")
    total, pending, ever = 0, [None, None], False
    for i in range(4):
        op = choose(f"op{i}", 3)
        if op == 2:
            v = sym_int(f"v{i}", 0, 100)
            c.add(v)
            total = total + v
            ever = True
            pending = [v if x is None else x + v for x in pending]
            continue
        got = metrics_of(readers[op].get_metrics_data())
        want = pending[op] if temps[op] is DELTA else (total if ever else None)
        if want is None:
            check(got == [], "nothing to report")
        else:
            check(len(got) == 1 and got[0][1].data.data_points[0].value == want, "what this reader has not seen, or the total")
        pending[op] = None


@contract()
def collection_is_for_one_reader():
    """Collecting for a reader collects its own storage once and gives observations to no other."""
    class R:
        _instrument_class_temporality, _instrument_class_aggregation = {}, {}
    readers = [R(), R()]
    set_clock(lambda: 5)
    c = SynchronousMeasurementConsumer(SdkConfiguration(Filter(True), Resource({}), readers, []))
    log = []

    class S:
        def __init__(self, i):
            self.i = i

        def consume_measurement(self, m, should_sample_exemplar=True):
            log.append(("consume", self.i, m))

        def collect(self):
            log.append(("collect", self.i, None))
            return self
    st = [S(0), S(1)]
    set_attr(c, "_reader_storages", {readers[0]: st[0], readers[1]: st[1]})
    ms = [measurement(1), measurement(2)][:choose("n", 3)]

    class Observed:
        def callback(self, options):
            return ms
    c.register_asynchronous_instrument(Observed())
    which = choose("which", 2)
    check(c.collect(readers[which]) is st[which], "the collected data of this reader")
    check(log == [("consume", which, m) for m in ms] + [("collect", which, None)], "the observations, then its storage, and no other's")
