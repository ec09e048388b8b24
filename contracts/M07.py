"""M07: exemplars are genuine, bounded and filtered."""
from contracts.common import *
from contracts.metrics import *
from contracts.M04 import AnyCounter, metrics_of, record
from opentelemetry.sdk.metrics import AlwaysOffExemplarFilter, AlwaysOnExemplarFilter, Counter, Histogram, MeterProvider, TraceBasedExemplarFilter
from opentelemetry.sdk.metrics._internal import aggregation as aggregations
from opentelemetry.sdk.metrics._internal import view as view_module
from opentelemetry.sdk.metrics._internal.aggregation import (
    _DropAggregation, _ExplicitBucketHistogramAggregation, _ExponentialBucketHistogramAggregation, _LastValueAggregation, _SumAggregation)
from opentelemetry.sdk.metrics._internal.exemplar import exemplar_reservoir as reservoirs
from opentelemetry.sdk.metrics._internal.exemplar.exemplar_reservoir import (
    AlignedHistogramBucketExemplarReservoir, BucketIndexError, ExemplarBucket, FixedSizeExemplarReservoirABC, SimpleFixedSizeExemplarReservoir)
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, View
from opentelemetry.trace import INVALID_SPAN


def traced(tag):
    """A context with no span, or any valid span, and the identity it stands for."""
    if choose(tag + ".span", 2):
        c = valid_context(tag, state=TraceState())
        return set_span_in_context(NonRecordingSpan(c), context_api.Context()), (c.trace_id, c.span_id)
    return choose(tag + ".no span", [context_api.Context(), set_span_in_context(INVALID_SPAN, context_api.Context())]), (None, None)


def identity(e):
    return (e.trace_id, e.span_id)


@contract()
def a_bucket_keeps_its_last_measurement():
    """Any two measurements with or without a span: the exemplar repeats value, time and trace identity of the last one, and is given out once."""
    b = ExemplarBucket()
    check(b.collect({}) is None, "nothing without a measurement")
    if choose("earlier", 2):
        c, _ = traced("c0")
        b.offer(sym_int("v0"), sym_int("t0"), {"old": 1}, c)
        if choose("taken", 2):
            b.collect({})
    v, t = sym_number("v"), sym_int("t")
    c, ids = traced("c")
    b.offer(v, t, [None, {}, {"k": 1}][choose("attributes", 3)], c)
    e = b.collect({})
    check(e is not None, "the measurement is kept")
    check(e.value == v, "its value")
    check(e.time_unix_nano == t, "its time")
    check(identity(e) == ids, "its trace identity, or none")
    check("old" not in (e.filtered_attributes or {}), "its own attributes only")
    check(b.collect({}) is None, "given out once")


@contract()
def only_what_the_series_dropped():
    """Any number of attributes of the measurement and of the series: exactly the attributes with keys the series does not have, also if the caller changes its dictionary later."""
    b = ExemplarBucket()
    val = sym_fn("value", "int", arg="str")
    own = sym_map("own", lambda k: val(k), keys=["a", "b", "c"])
    point = sym_map("point", lambda k: 0, keys=["a", "b", "c"])
    if not symbolic() and choose("no attributes", 4) == 3:
        own = None
    if symbolic() and choose("no attributes", 2):
        own = None
    b.offer(1, 2, own, context_api.Context())
    k = sym_str("key", pool=["a", "b", "c"])
    there = own is not None and is_true(k in own)
    in_series = is_true(k in point)
    if own is not None and choose("changed", 2):
        if there:
            own[k] = -1
        else:
            own["late"] = 1
    got = b.collect(point).filtered_attributes
    if got is None:
        check(neg(both(there, not in_series)), "an attribute is kept exactly if the series dropped it")
        return
    check(iff(k in got, both(there, not in_series)), "an attribute is kept exactly if the series dropped it")
    if is_true(k in got):
        check(got[k] == val(k), "with the value of the measurement")


@contract()
def the_bucket_index():
    """Any number of measurements seen, any size, any random choice: the index is below the size, or the measurement is not kept; it counts as seen."""
    size, seen = sym_int("size", 1, 10 ** 6), sym_int("seen", 0, 10 ** 9)
    r = SimpleFixedSizeExemplarReservoir(size)
    set_attr(r, "_measurements_seen", seen)
    drawn = sym_int("drawn", 0, 10 ** 9)

    def randrange(lo, hi=None):
        lo, hi = (0, lo) if hi is None else (lo, hi)
        check(lo < hi, "a choice among something")
        return ite(both(lo <= drawn, drawn < hi), drawn, lo) if symbolic() else min(max(drawn, lo), hi - 1)
    stub(reservoirs, "randrange", randrange)
    try:
        i = r._find_bucket_index(1, 2, {}, context_api.Context())
    except BucketIndexError:
        check(seen >= size - 1, "dropped only when the reservoir is full")
        return
    check(both(0 <= i, i < size), "below the size")


class Bucket:
    def __init__(self):
        self.offers = []

    def offer(self, *a):
        self.offers.append(a)


class Store:
    """Stands for the buckets: any index asked for is there."""

    def __init__(self):
        self.asked, self.bucket = [], Bucket()

    def __getitem__(self, i):
        self.asked.append(i)
        return self.bucket


@contract()
def offers_go_to_their_bucket():
    """A measurement is offered unchanged to the bucket of its index, or to none if there is no index."""
    index = sym_int("index", 0)
    none = choose("none", 2)

    class R(FixedSizeExemplarReservoirABC):
        def _find_bucket_index(self, *a):
            check(a == args, "asked about this measurement")
            if none:
                raise BucketIndexError("none")
            return index
    args = (sym_number("v"), sym_int("t"), {"k": 1}, context_api.Context())
    r, s = R(2), Store()
    set_attr(r, "_reservoir_storage", s)
    r.offer(*args)
    check(s.asked == ([] if none else [index]), "the bucket of its index")
    check(s.bucket.offers == ([] if none else [args]), "once, as it is")


@contract()
def the_aligned_bucket():
    """Any number of ascending boundaries, any value: the index is that of the first boundary not below the value, else one past the last."""
    bound = sym_fn("bound", "real")
    bounds = sym_seq("bounds", lambda i: bound(i))
    n = length(bounds)
    r = AlignedHistogramBucketExemplarReservoir([])
    set_attr(r, "_boundaries", bounds)
    v = sym_number("v")
    args = (v, sym_int("t"), {"k": 1}, context_api.Context())
    s = Store()
    set_attr(r, "_reservoir_storage", s)
    loop_inv(lambda env, i: [forall(0, i, lambda j: item(bounds, j) < v)], over="bounds")
    r.offer(*args)
    check(len(s.asked) == 1, "one bucket")
    i = s.asked[0]
    check(both(0 <= i, i <= n), "one of the buckets")
    check(forall(0, i, lambda j: item(bounds, j) < v), "all boundaries before it are below the value")
    check(implies(i < n, lambda: v <= item(bounds, i)), "its boundary is not")
    check(s.bucket.offers == [args], "the measurement as it is")


@contract()
def the_aligned_size():
    """One bucket more than boundaries."""
    n = choose("n", 4)
    r = AlignedHistogramBucketExemplarReservoir(boundaries=list(range(n)))
    check(attr(r, "_size") == n + 1, "one more")


@contract(bound="at most four measurements, capacity at most two", seconds=120)
def a_history():
    """Two intervals of up to four and two measurements with any random choices: at most as many exemplars as the capacity, each repeating a different measurement of the interval."""
    size = choose("size", [1, 2])
    aligned = choose("aligned", 2)
    r = AlignedHistogramBucketExemplarReservoir(boundaries=[10] * (size - 1)) if aligned else SimpleFixedSizeExemplarReservoir(size=size)
    draws = []

    def randrange(lo, hi=None):
        lo, hi = (0, lo) if hi is None else (lo, hi)
        draws.append(0)
        return choose(f"draw{len(draws)}", hi - lo) + lo
    stub(reservoirs, "randrange", randrange)
    n = 0
    for interval in range(2):
        last, offered = {}, []
        for _ in range(choose(f"n{interval}", 5 - 2 * interval)):
            n += 1
            v = choose(f"v{n}", [5, 15]) if aligned else n
            r.offer(v, n, {"k": n, "p": 1}, context_api.Context())
            offered.append(n)
            last[0 if size == 1 or v == 5 else 1] = n
        got = r.collect({"p": 1})
        times = [e.time_unix_nano for e in got]
        check(len(got) <= size, "never more than the capacity")
        check(all(t in offered for t in times), "each from a measurement of the interval")
        check(len(set(times)) == len(times), "each from another one")
        check(all(e.filtered_attributes == {"k": e.time_unix_nano} and (aligned or e.value == e.time_unix_nano) for e in got), "as it was")
        if aligned:
            check(sorted(times) == sorted(last.values()), "the last of each bucket")
        check(bool(got) or not offered, "none only without any measurement")
        check(r.collect({"p": 1}) == [], "reading empties the reservoir")


@contract()
def the_filters():
    """Any context: always on admits all, always off none, trace based exactly those of a sampled span."""
    flags = any_flags("flags")
    c = SpanContext(valid_trace_id(), valid_span_id(), sym_bool("remote"), flags, TraceState())
    spanned = choose("span", 3)
    ctx = [context_api.Context(), set_span_in_context(INVALID_SPAN, context_api.Context()), set_span_in_context(NonRecordingSpan(c), context_api.Context())][spanned]
    args = (sym_number("v"), sym_int("t"), {}, ctx)
    check(AlwaysOnExemplarFilter().should_sample(*args) is True, "always on admits it")
    check(AlwaysOffExemplarFilter().should_sample(*args) is False, "always off does not")
    got = TraceBasedExemplarFilter().should_sample(*args)
    check(iff(got, both(spanned == 2, flags % 2 == 1)), "trace based exactly in a sampled span")


def aggregation(kind, res, attributes):
    if kind == "sum":
        return _SumAggregation(attributes, True, choose("instrument", [DELTA, CUMULATIVE]), 0, res.build)
    if kind == "last":
        return _LastValueAggregation(attributes, res.build)
    if kind == "explicit":
        return _ExplicitBucketHistogramAggregation(attributes, DELTA, 0, res.build, [1, 10])
    return _ExponentialBucketHistogramAggregation(attributes, res.build, DELTA, 0)


@contract()
def admitted_measurements_are_offered():
    """Every aggregation, two measurements each admitted or not: the reservoir is offered exactly those admitted, as they are; the point carries what the reservoir then has for the series, in every interval anew."""
    kind, res = choose("kind", ["sum", "last", "explicit", "exponential"]), FakeReservoir()
    attributes = {"p": 1}
    agg = aggregation(kind, res, attributes)
    t = choose("temporality", [DELTA, CUMULATIVE])
    ms, admitted = [], []
    for interval in range(2):
        for i in range(2):
            v = 3 * i + 1 if kind == "exponential" else 6 * i + interval if kind == "explicit" else sym_int(f"v{interval}{i}", 0)
            m = measurement(v, 5, {"k": i, "p": 1}, context_api.Context({"n": i}))
            ok = choose(f"admitted{i}", [True, False])
            agg.aggregate(m, ok)
            if ok:
                admitted.append(m)
        check(len(res.offers) == len(admitted), "offered exactly if admitted")
        for o, m in zip(res.offers, admitted):
            check(o[0] is m.value and o[1] == m.time_unix_nano and o[2] is m.attributes and o[3] is m.context, "as it is")
        res.collected = [object()]
        p = agg.collect(t, 10 + interval)
        check(p.exemplars is res.collected, "the point carries the reservoir's exemplars")
        check(res.collects == interval + 1 and res.point_attributes == attributes, "collected once, for the attributes of the series")


@contract()
def dropped_streams_have_none():
    res = FakeReservoir()
    agg = _DropAggregation({}, res.build)
    agg.aggregate(measurement(1), True)
    check(agg.collect(DELTA, 1) is None, "no point, no exemplar")


class Counted:
    """A filter that admits as told and writes down whom it was asked about."""

    def __init__(self, answers):
        self.answers, self.n = answers, 0

    def should_sample(self, value, time_unix_nano, attributes, context):
        self.n += 1
        return self.answers[self.n - 1]


@contract(bound="two readers, three measurements")
def through_the_provider():
    """Two readers, a view keeping one of two attributes, three measurements each admitted or not: each reader reports exemplars of admitted measurements of its interval only, with exactly the attribute dropped, once."""
    answers = [choose(f"admit{i}", [True, False]) for i in range(3)]
    agg = choose("aggregation", [None, ExplicitBucketHistogramAggregation([5]), ExponentialBucketHistogramAggregation()])
    readers = [InMemoryMetricReader(preferred_temporality={Counter: DELTA, Histogram: DELTA}), InMemoryMetricReader()]
    filter_ = Counted(answers)
    p = MeterProvider(readers, resource=Resource({}), exemplar_filter=filter_, shutdown_on_exit=False,
                      views=[View(instrument_name="c", attribute_keys={"keep"}, **({} if agg is None else {"aggregation": agg}))])
    c = p.get_meter("m").create_counter("c")
    split = choose("split", 4)
    values = [2, 7, 3]
    got = [[], []]

    def read():
        for r, l in zip(readers, got):
            for _, m in metrics_of(r.get_metrics_data()):
                for point in m.data.data_points:
                    check(dict(point.attributes) == {"keep": 1}, "the attributes of the series")
                    l.append([(e.value, e.filtered_attributes) for e in point.exemplars])
    for i in range(3):
        if i == split:
            read()
        c.add(values[i], {"keep": 1, "drop": i})
    read()
    for l in got:
        flat = [x for y in l for x in y]
        for v, a in flat:
            i = values.index(v)
            check(answers[i], "only of an admitted measurement")
            check(a == {"drop": i}, "with exactly the attribute the series dropped")
        check(len({v for v, _ in flat}) == len(flat), "none twice")
        if split in (1, 2) and len(l) == 2:
            check(all(values.index(v) < split for v, _ in l[0]) and all(values.index(v) >= split for v, _ in l[1]), "each in its interval")
    check(filter_.n == 3, "the filter is asked once per measurement")


@contract()
def the_default_reservoirs():
    """Explicit buckets: the bucket reservoir with their boundaries; all others: one exemplar, exponential ones at most 20."""
    kind = choose("kind", [_SumAggregation, _LastValueAggregation, _ExponentialBucketHistogramAggregation, _ExplicitBucketHistogramAggregation])
    r = view_module._default_reservoir_factory(kind)
    if kind is _ExplicitBucketHistogramAggregation:
        check(type(r(boundaries=[1, 2])) is AlignedHistogramBucketExemplarReservoir, "the bucket reservoir")
        agg = kind({}, DELTA, 0, r, [1, 2])
        check(list(attr(attr(agg, "_reservoir"), "_boundaries")) == [1, 2], "with the boundaries of the histogram")
    else:
        check(type(r()) is SimpleFixedSizeExemplarReservoir and attr(r(), "_size") == 1, "one exemplar")
