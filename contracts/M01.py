"""M01: sums and last values are conserved across collections."""
import math
from contracts.common import *
from contracts.metrics import *
from opentelemetry.sdk.metrics._internal.aggregation import _LastValueAggregation, _SumAggregation


class History:
    """What was measured and collected so far."""

    def __init__(self, start):
        self.total = 0          # of everything measured
        self.pending = None     # measured since the last collection
        self.reported = 0       # last total reported / sum of the deltas reported
        self.last_time = start  # of the last collection


def maybe_number(name):
    def make(tag):
        return ghost_number(tag + name) if choose("some", 2) else None
    return make


@contract()
def synchronous_sum():
    """Any history of measurements and collections of a synchronous sum, both temporalities: nothing is lost or counted twice, the intervals are contiguous."""
    delta = choose("delta", 2)
    temporality = DELTA if delta else CUMULATIVE
    start = sym_int("start", 0, 2**62)
    attrs, res = {"a": 1}, FakeReservoir()
    agg = _SumAggregation(attrs, choose("monotonic", 2) == 1, DELTA, start, res.build)
    guarded(agg, "_value", attr(agg, "_lock"), reads=True)
    guarded(agg, "_previous_value", attr(agg, "_lock"), reads=True)
    h = History(start)
    value, at, collects = sym_fn("value", "real"), sym_fn("at", "int", lo=0), sym_fn("collects", "bool")
    ops = sym_seq("ops", lambda i: i, conc_max=9)

    def inv(env, i):
        v, p = attr(agg, "_value"), attr(agg, "_previous_value")
        out = [(v is None) == (h.pending is None)]
        if v is not None:
            out.append(same_sum(v, h.pending))
        if delta:
            return out + [same_sum(h.total, h.reported + (0 if v is None else v)), attr(agg, "_previous_collection_start_nano") == h.last_time]
        return out + [same_sum(h.total, p + (0 if v is None else v)), p == h.reported]

    def anything():
        some = choose("pending", 2)
        set_attr(agg, "_value", ghost_number("value") if some else None)
        h.pending = ghost_number("pending") if some else None
        set_attr(agg, "_previous_value", ghost_number("previous"))
        set_attr(agg, "_previous_collection_start_nano", fresh_int("prev_start"))
        h.total, h.reported, h.last_time = ghost_number("total"), ghost_number("reported"), fresh_int("last_time")
    loop_inv(inv, over="ops", modifies=[anything], mods=[agg, h, res])
    for i in ops:
        if not is_true(collects(i)):
            agg.aggregate(measurement(value(i)), False)
            h.total = h.total + value(i)
            h.pending = value(i) if h.pending is None else h.pending + value(i)
            continue
        p = agg.collect(temporality, at(i))
        if delta and h.pending is None:
            check(p is None, "no delta point when nothing was measured")
        else:
            check(p is not None, "a point for what was measured")
            if delta:
                check(same_sum(p.value, h.pending), "a delta is what was measured since the previous collection")
                check(p.start_time_unix_nano == h.last_time, "delta intervals are contiguous")
                h.reported = h.reported + p.value
                check(same_sum(h.reported, h.total), "the deltas add up to the total")
            else:
                check(same_sum(p.value, h.total), "a cumulative point reports the total")
                check(p.start_time_unix_nano == start, "since the start")
                h.reported = p.value
            check(p.time_unix_nano == at(i), "up to the collection")
            check(p.attributes is attrs, "of this series")
        h.pending, h.last_time = None, at(i)


@contract()
def asynchronous_sum():
    """Any history of observations and collections of an asynchronous sum: cumulative reports the observed total, delta its change."""
    delta = choose("delta", 2)
    temporality = DELTA if delta else CUMULATIVE
    start = sym_int("start", 0, 2**62)
    attrs, res = {"a": 1}, FakeReservoir()
    agg = _SumAggregation(attrs, choose("monotonic", 2) == 1, CUMULATIVE, start, res.build)
    h = History(start)
    value, at, seen = sym_fn("value", "real"), sym_fn("at", "int", lo=0), sym_fn("seen", "bool")
    rounds = sym_seq("rounds", lambda i: i, conc_max=7)

    def inv(env, i):
        out = [attr(agg, "_value") is None]
        if delta:
            out += [attr(agg, "_previous_value") == h.reported, attr(agg, "_previous_collection_start_nano") == h.last_time]
        return out

    def anything():
        set_attr(agg, "_value", None)
        set_attr(agg, "_previous_value", ghost_number("previous"))
        set_attr(agg, "_previous_collection_start_nano", fresh_int("prev_start"))
        h.reported, h.last_time = ghost_number("reported"), fresh_int("last_time")
    loop_inv(inv, over="rounds", modifies=[anything], mods=[agg, h, res])
    for i in rounds:
        if not is_true(seen(i)):
            check(agg.collect(temporality, at(i)) is None, "no point when nothing was observed")
            continue
        agg.aggregate(measurement(value(i)), False)
        p = agg.collect(temporality, at(i))
        check(p is not None, "a point for the observation")
        if delta:
            check(same_sum(p.value, value(i) - h.reported), "the change since the previous observation")
            check(p.start_time_unix_nano == h.last_time, "since the previous observation")
        else:
            check(p.value == value(i), "the observed total")
            check(p.start_time_unix_nano == start, "since the start")
        check(p.time_unix_nano == at(i), "up to the collection")
        check(p.attributes is attrs, "of this series")
        h.reported, h.last_time = value(i), at(i)


@contract()
def last_value():
    """Any history of a gauge: a collection reports the latest measurement since the previous one, and nothing without one."""
    attrs, res = {"a": 1}, FakeReservoir()
    agg = _LastValueAggregation(attrs, res.build)
    guarded(agg, "_value", attr(agg, "_lock"), reads=True)
    temporality = DELTA if choose("delta", 2) else CUMULATIVE
    h = History(0)
    value, at, collects = sym_fn("value", "real"), sym_fn("at", "int", lo=0), sym_fn("collects", "bool")
    ops = sym_seq("ops", lambda i: i, conc_max=9)

    def inv(env, i):
        v = attr(agg, "_value")
        if v is None or h.pending is None:
            return [v is None and h.pending is None]
        return [v == h.pending]

    def anything():
        some = choose("pending", 2)
        set_attr(agg, "_value", ghost_number("value") if some else None)
        h.pending = ghost_number("pending") if some else None
    loop_inv(inv, over="ops", modifies=[anything], mods=[agg, h, res])
    for i in ops:
        if not is_true(collects(i)):
            agg.aggregate(measurement(value(i)), False)
            h.pending = value(i)
            continue
        p = agg.collect(temporality, at(i))
        if h.pending is None:
            check(p is None, "no point when nothing was measured")
        else:
            check(p is not None, "a point for what was measured")
            check(p.value == h.pending, "the latest measurement")
            check(p.time_unix_nano == at(i), "at the collection")
            check(p.attributes is attrs, "of this series")
        h.pending = None


@contract()
def values_keep_their_kind():
    """Whole numbers stay whole, whichever aggregation reports them."""
    n, m = sym_int("n"), sym_int("m")
    res = FakeReservoir()
    agg = _SumAggregation({}, True, DELTA, 0, res.build) if choose("sum", 2) else _LastValueAggregation({}, res.build)
    agg.aggregate(measurement(n), False)
    agg.aggregate(measurement(m), False)
    p = agg.collect(DELTA, 5)
    check(isinstance(p.value, int), "a whole number")
    check(p.value == (n + m if isinstance(agg, _SumAggregation) else m), "exactly")


@contract()
def mixed_kinds_add_up():
    """Whole and fractional measurements in any order: nothing is cut off."""
    delta = choose("delta", 2)
    res = FakeReservoir()
    agg = _SumAggregation({}, False, DELTA, 0, res.build)
    total, points = 0, 0
    for i in range(3):
        v = sym_int(f"n{i}", -1000, 1000) if choose(f"whole{i}", 2) else sym_real(f"r{i}", -1000, 1000)
        agg.aggregate(measurement(v), False)
        total = total + v
        if i < 2 and choose(f"collect{i}", 2):
            p = agg.collect(DELTA if delta else CUMULATIVE, 5 + i).value
            check(same_sum(points + p if delta else p, total), "the total so far")
            points = points + p if delta else p
    p = agg.collect(DELTA if delta else CUMULATIVE, 9).value
    check(same_sum(points + p if delta else p, total), "nothing is lost")
    last = _LastValueAggregation({}, res.build)
    v, w = sym_int("v"), sym_real("w")
    last.aggregate(measurement(v), False)
    last.aggregate(measurement(w), False)
    check(last.collect(CUMULATIVE, 5).value == w, "a gauge reports the latest exactly")


@contract()
def exemplars_pass_through():
    """The reservoir is offered exactly the measurements to be sampled, with their value, time, attributes and context; the point carries what it returns."""
    res = FakeReservoir()
    kind = choose("kind", 2)
    agg = _SumAggregation({"a": 1}, True, DELTA, 0, res.build) if kind else _LastValueAggregation({"a": 1}, res.build)
    m, sample = measurement(sym_real("value"), sym_int("time", 0), {"a": 1, "b": 2}), sym_bool("sample")
    agg.aggregate(m, sample)
    if is_true(sample):
        check(len(res.offers) == 1, "a sampled measurement is offered once")
        o = res.offers[0]
        check(both(o[0] == m.value, o[1] == m.time_unix_nano, o[2] == {"a": 1, "b": 2}, o[3] is m.context), "as it is")
    else:
        check(len(res.offers) == 0, "others are not")
    p = agg.collect(DELTA if choose("delta", 2) else CUMULATIVE, 7)
    check(p.exemplars is res.collected, "the point has the reservoir's exemplars")
    check(res.collects == 1 and res.point_attributes is attr(agg, "_attributes"), "which it is asked for once, for this series")


def collect_between(agg, others):
    def action():
        if others["n"] == 0:
            others["n"] = 1
            others["point"] = agg.collect(DELTA, 50)
    return action


@contract()
def concurrent_collection():
    """A collection by another thread at any lock acquisition of a measurement: every measurement is in exactly one delta."""
    res = FakeReservoir()
    agg = _SumAggregation({}, True, DELTA, 0, res.build)
    a, b, c = sym_real("a"), sym_real("b"), sym_real("c")
    agg.aggregate(measurement(a), False)
    others = {"n": 0, "point": None}
    interfere(agg, "_lock", collect_between(agg, others), at=0, after=choose("after", 2) == 1)
    agg.aggregate(measurement(b), False)
    agg.aggregate(measurement(c), False)
    p = agg.collect(DELTA, 100)
    check(others["n"] == 1 and others["point"] is not None, "the other collection got a point")
    check(same_sum(others["point"].value + p.value, a + b + c), "every measurement in exactly one delta")
    check(p.start_time_unix_nano == 50, "contiguous intervals")


class OneSeries:
    """The i-th series: has a point or not."""

    def __init__(self, i, some, ask):
        self.i, self.some, self.ask = i, some, ask

    def collect(self, temporality, start):
        check(temporality is self.ask[0] and start == self.ask[1], "asked for the collection's temporality and time")
        return self.i if is_true(self.some(self.i)) else None


class SeriesTable:
    """A table of any number of series."""

    def __init__(self, seq):
        self.seq = seq

    def values(self):
        return self.seq

    def items(self):
        return zip(self.seq, self.seq)

    def __getattr__(self, name):
        need(False, "a table read by values() or items()")


@contract()
def any_number_of_series_with_and_without_points():
    """A stream of any number of series: a collection has the point of each that has one, in order, and nothing else."""
    from opentelemetry.sdk.metrics import Counter, MeterProvider
    from opentelemetry.sdk.metrics._internal._view_instrument_match import _ViewInstrumentMatch
    from opentelemetry.sdk.metrics.view import SumAggregation, View
    some, temporality, at = sym_fn("some", "bool"), choose("temporality", [DELTA, CUMULATIVE]), sym_int("at", 0)
    series = sym_seq("series", lambda i: OneSeries(i, some, (temporality, at)))
    n = length(series)
    j = sym_int("j", 0, big(10 ** 9))
    meter = MeterProvider([], resource=Resource({}), shutdown_on_exit=False).get_meter("m")
    ins = meter.create_counter("x")
    m = _ViewInstrumentMatch(View(instrument_name="x"), ins, {type(ins): SumAggregation(), Counter: SumAggregation()})
    need(type(attr(m, "_attributes_aggregation")) is dict, "a dictionary of series")
    set_attr(m, "_attributes_aggregation", SeriesTable(series))
    if symbolic():
        before = ghost_fn("before", "int")
        assume(before(0) == 0)

        def clauses(env, i):
            out = env.data_points
            if is_true(i > 0):
                assume(before(i) == before(i - 1) + ite(some(i - 1), 1, 0))
            if is_true(j < i):
                assume(both(before(j) >= 0, before(j) + ite(some(j), 1, 0) <= before(i)))
            cs = [length(out) == before(i)]
            if is_true(both(j < i, some(j))):
                cs.append(is_true(before(j) < length(out)) and item(out, before(j)) == j)
            return cs

        def points(tag):
            l = ghost_list()
            havoc_list(l, lambda t, i: ghost_fn(t, "int")(i))
            return l
        loop_inv(clauses, over="series", locals_={"data_points": points})
    else:
        def before(k):
            return sum(1 for x in range(k) if some(x))
    out = m.collect(temporality, at)
    if out is None:
        check(before(n) == 0, "nothing only when no series has a point")
        check(either(j >= n, neg(some(j))), "nothing only when no series has a point")
        return
    check(length(out) == before(n), "as many points as series with one")
    if is_true(both(j < n, some(j))):
        check(item(out, before(j)) == j, "each series' point, in order")


@contract(bound="two series, two collections")
def through_the_provider():
    """Two series of an instrument of each kind, each measured or not before each of two collections: exactly the points the temporality requires, with the right totals, kind and monotonicity."""
    from opentelemetry.metrics import Observation
    from opentelemetry.sdk.metrics import Counter, MeterProvider, ObservableCounter, ObservableUpDownCounter, UpDownCounter
    from opentelemetry.sdk.metrics.export import Gauge, InMemoryMetricReader, Sum
    kind, temporality = choose("kind", ["counter", "up_down_counter", "gauge", "observable_counter", "observable_up_down_counter", "observable_gauge"]), choose("temporality", [DELTA, CUMULATIVE])
    reader = InMemoryMetricReader(preferred_temporality={k: temporality for k in (Counter, UpDownCounter, ObservableCounter, ObservableUpDownCounter)})
    set_clock(lambda: 5)
    meter = MeterProvider([reader], resource=Resource({}), shutdown_on_exit=False).get_meter("m")
    now = []

    def observe(options):
        return [Observation(v, {"s": s}) for s, v in now]
    watch = kind.startswith("observable")
    ins = getattr(meter, "create_" + kind)("x", [observe]) if watch else getattr(meter, "create_" + kind)("x")
    last, total, ever = [0, 0], [0, 0], [False, False]
    for r in range(2):
        now[:] = [(s, sym_int(f"v{r}{s}", 0, 1000)) for s in range(2) if choose(f"measured{r}{s}", 2)]
        want = {}
        for s, v in now:
            if not watch:
                (ins.set if kind == "gauge" else ins.add)(v, {"s": s})
            total[s] = v if watch or kind == "gauge" else total[s] + v
            ever[s] = True
        for s in range(2):
            here = s in [x for x, _ in now]
            if kind.endswith("gauge"):
                if here:
                    want[s] = total[s]
            elif temporality is DELTA:
                if here:
                    want[s] = total[s] - last[s]
                    last[s] = total[s]
            elif here or (ever[s] and not watch):
                want[s] = total[s]
        data = reader.get_metrics_data()
        ms = [] if data is None else [m for rm in data.resource_metrics for sm in rm.scope_metrics for m in sm.metrics]
        check(len(ms) == (1 if want else 0), "a metric if there is a point")
        if want:
            d = ms[0].data
            check(type(d) is (Gauge if kind.endswith("gauge") else Sum), "the kind of data")
            if type(d) is Sum:
                check(d.is_monotonic == (not kind.endswith("up_down_counter")) and d.aggregation_temporality is temporality, "monotonic exactly for counters, with the temporality asked for")
            check(len(d.data_points) == len(want) and {p.attributes["s"] for p in d.data_points} == set(want), "a point for each series that needs one")
            for p in d.data_points:
                check(p.value == want[p.attributes["s"]], "with its value")
