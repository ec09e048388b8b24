"""X05: OTLP encoding of metrics is complete and faithful."""
from contracts.common import *
from contracts.metrics import CUMULATIVE, DELTA
from contracts.X01 import U64, WHOLE, any_time, id_bytes, in_range, is_int, is_text
from opentelemetry.exporter.otlp.proto.common._internal import metrics_encoder as menc
from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter
from opentelemetry.proto.common.v1.common_pb2 import AnyValue, KeyValue
from opentelemetry.proto.metrics.v1 import metrics_pb2 as pb2
from opentelemetry.sdk.metrics import Counter, Exemplar, ObservableCounter, ObservableGauge, ObservableUpDownCounter, UpDownCounter
from opentelemetry.sdk.metrics import Histogram as HistogramInstrument
from opentelemetry.sdk.metrics._internal.point import (Buckets, ExponentialHistogram, ExponentialHistogramDataPoint, Gauge, Histogram, HistogramDataPoint, Metric,
                                                       MetricsData, NumberDataPoint, ResourceMetrics, ScopeMetrics, Sum)
from opentelemetry.sdk.metrics.export import AggregationTemporality, InMemoryMetricReader
from opentelemetry.sdk.metrics.view import ExplicitBucketHistogramAggregation, ExponentialBucketHistogramAggregation, LastValueAggregation
from opentelemetry.sdk.util.instrumentation import InstrumentationScope


class Points:
    """What the points of a metric hold, by position."""

    def __init__(self, tag="p"):
        self.text, self.start, self.time = sym_fn(tag + ".text", "str"), sym_fn(tag + ".start", "int", 0, U64), sym_fn(tag + ".time", "int", 0, U64)
        self.isint, self.int, self.real = sym_fn(tag + ".isint", "bool"), sym_fn(tag + ".int", "int", *WHOLE), sym_fn(tag + ".real", "real")
        self.count, self.sum, self.min, self.max = sym_fn(tag + ".count", "int", 0, U64), sym_fn(tag + ".sum", "real"), sym_fn(tag + ".min", "real"), sym_fn(tag + ".max", "real")
        self.b0, self.b1 = sym_fn(tag + ".b0", "int", 0, U64), sym_fn(tag + ".b1", "int", 0, U64)
        self.scale, self.offset, self.flags = sym_fn(tag + ".scale", "int", -10, 20), sym_fn(tag + ".offset", "int", -2000, 2000), sym_fn(tag + ".flags", "int", 0, 3)

    def value(self, i):
        return self.int(i) if is_true(self.isint(i)) else self.real(i)

    def exemplars(self, i):
        return [Exemplar({"e": "x"}, self.int(i), self.time(i))]

    def common(self, m, i):
        """Attributes, time and exemplars as at position i."""
        return both(m.time_unix_nano == self.time(i), len(m.attributes) == 1, m.attributes[0].key == "k", is_text(m.attributes[0].value, self.text(i)),
                    len(m.exemplars) == 1, m.exemplars[0].as_int == self.int(i), m.exemplars[0].time_unix_nano == self.time(i))

    def number(self, i):
        return NumberDataPoint({"k": self.text(i)}, self.start(i), self.time(i), self.value(i), self.exemplars(i))

    def same_number(self, m, i):
        if is_true(self.isint(i)):
            return both(self.common(m, i), m.WhichOneof("value") == "as_int", m.as_int == self.int(i))
        return both(self.common(m, i), m.WhichOneof("value") == "as_double", m.as_double == self.real(i))

    def histogram(self, i):
        return HistogramDataPoint({"k": self.text(i)}, self.start(i), self.time(i), self.count(i), self.sum(i), (self.b0(i), self.b1(i)), (self.real(i),), self.min(i), self.max(i),
                                  self.exemplars(i))

    def same_histogram(self, m, i):
        return both(self.common(m, i), m.start_time_unix_nano == self.start(i), m.count == self.count(i), m.sum == self.sum(i), m.HasField("min"), m.HasField("max"), m.min == self.min(i), m.max == self.max(i),
                    list_is(m.bucket_counts, [self.b0(i), self.b1(i)]), list_is(m.explicit_bounds, [self.real(i)]))

    def exponential(self, i):
        return ExponentialHistogramDataPoint({"k": self.text(i)}, self.start(i), self.time(i), self.count(i), self.sum(i), self.scale(i), self.b1(i),
                                             Buckets(self.offset(i), [self.b0(i), self.b1(i)]), Buckets(self.offset(i) + 1, [self.b1(i)]), self.flags(i), self.min(i), self.max(i), self.exemplars(i))

    def same_exponential(self, m, i):
        return both(self.common(m, i), m.start_time_unix_nano == self.start(i), m.count == self.count(i), m.sum == self.sum(i), m.scale == self.scale(i), m.zero_count == self.b1(i),
                    m.flags == self.flags(i), m.HasField("min"), m.HasField("max"), m.min == self.min(i), m.max == self.max(i), m.positive.offset == self.offset(i), m.negative.offset == self.offset(i) + 1,
                    list_is(m.positive.bucket_counts, [self.b0(i), self.b1(i)]), list_is(m.negative.bucket_counts, [self.b1(i)]))


def list_is(xs, want):
    return both(length(xs) == len(want), *[item(xs, k) == w for k, w in enumerate(want)]) if is_true(length(xs) == len(want)) else False


def g(t, name, sort, i, lo=None, hi=None):
    v = ghost_fn(t + "." + name, sort)(i)
    return v if lo is None else in_range(v, lo, hi)


def any_common(t, i):
    """The parts every kind of encoded point has, arbitrary."""
    return dict(time_unix_nano=g(t, "time", "int", i, 0, U64), start_time_unix_nano=g(t, "start", "int", i, 0, U64),
                attributes=[KeyValue(key=g(t, "key", "str", i), value=AnyValue(string_value=g(t, "text", "str", i)))],
                exemplars=[pb2.Exemplar(time_unix_nano=g(t, "etime", "int", i, 0, U64), as_int=g(t, "eint", "int", i, *WHOLE))])


def any_number_point(t, i):
    m = pb2.NumberDataPoint(**any_common(t, i))
    if is_true(g(t, "isint", "bool", i)):
        m.as_int = g(t, "int", "int", i, *WHOLE)
    else:
        m.as_double = g(t, "real", "real", i)
    return m


def any_histogram_point(t, i):
    return pb2.HistogramDataPoint(count=g(t, "count", "int", i, 0, U64), sum=g(t, "sum", "real", i), min=g(t, "min", "real", i), max=g(t, "max", "real", i),
                                  bucket_counts=[g(t, "b0", "int", i, 0, U64), g(t, "b1", "int", i, 0, U64)], explicit_bounds=[g(t, "bound", "real", i)], **any_common(t, i))


def any_exponential_point(t, i):
    return pb2.ExponentialHistogramDataPoint(
        count=g(t, "count", "int", i, 0, U64), sum=g(t, "sum", "real", i), min=g(t, "min", "real", i), max=g(t, "max", "real", i), scale=g(t, "scale", "int", i, -10, 20),
        zero_count=g(t, "zero", "int", i, 0, U64), flags=g(t, "flags", "int", i, 0, 3),
        positive=pb2.ExponentialHistogramDataPoint.Buckets(offset=g(t, "po", "int", i, -3000, 3000), bucket_counts=[g(t, "p0", "int", i, 0, U64), g(t, "p1", "int", i, 0, U64)]),
        negative=pb2.ExponentialHistogramDataPoint.Buckets(offset=g(t, "no", "int", i, -3000, 3000), bucket_counts=[g(t, "n0", "int", i, 0, U64)]), **any_common(t, i))


def encode(data, target, fields, any_point, same):
    """Encode a metric of any number of points; the invariant: the first i points are there, in order."""
    m = pb2.Metric()
    j = sym_int("j", 0, big(10 ** 9))
    if symbolic():
        kind = getattr(m, target)
        points = ghost_repeated(kind, "data_points")

        def clauses(env, i):
            return [length(points) == i] + [implies(i > 0, getattr(kind, f) == v) for f, v in fields] + \
                [is_true(neg(j < i)) or (is_true(j < length(points)) and same(item(points, j), j))]

        def havoc(env):
            havoc_list(points, any_point)
            for f, v in fields:
                pb_havoc(kind, f, fresh_bool(f) if isinstance(v, bool) else fresh_int(f))

        loop_inv(clauses, over="points", modifies=[havoc], mods=[points, pb_record(kind)])
    menc._encode_metric(Metric("m", "", "", data), m)
    check(m.WhichOneof("data") == target, "the kind of the metric")
    kind = getattr(m, target)
    for f, v in fields:
        check(getattr(kind, f) == v, "its " + f)
    n = length(data.data_points)
    check(length(kind.data_points) == n, "as many points")
    if is_true(j < n):
        check(same(item(kind.data_points, j), j), "each point in its place")


TEMPORALITY = [(DELTA, 1), (CUMULATIVE, 2)]


@contract()
def gauges_of_any_number_of_points():
    p = Points()
    encode(Gauge(sym_seq("points", p.number, min_len=1)), "gauge", [], any_number_point, p.same_number)


@contract()
def sums_of_any_number_of_points():
    p = Points()
    t, code = choose("temporality", TEMPORALITY)
    mono = choose("monotonic", [False, True])
    encode(Sum(sym_seq("points", p.number, min_len=1), t, mono), "sum", [("aggregation_temporality", code), ("is_monotonic", mono)], any_number_point,
           lambda m, i: both(p.same_number(m, i), m.start_time_unix_nano == p.start(i)))


@contract()
def histograms_of_any_number_of_points():
    p = Points()
    t, code = choose("temporality", TEMPORALITY)
    encode(Histogram(sym_seq("points", p.histogram, min_len=1), t), "histogram", [("aggregation_temporality", code)], any_histogram_point, p.same_histogram)


@contract()
def exponential_histograms_of_any_number_of_points():
    p = Points()
    t, code = choose("temporality", TEMPORALITY)
    encode(ExponentialHistogram(sym_seq("points", p.exponential, min_len=1), t), "exponential_histogram", [("aggregation_temporality", code)], any_exponential_point, p.same_exponential)


@contract()
def buckets_of_any_number():
    """The bucket counts and bounds of a point, however many."""
    counts, bounds = sym_fn("count", "int", 0, U64), sym_fn("bound", "real")
    cs, bs = sym_seq("counts", counts, pytype=choose("type", [list, tuple])), sym_seq("bounds", bounds)
    m = pb2.Metric()
    form = choose("form", ["explicit", "positive", "negative"])
    if form == "explicit":
        menc._encode_metric(Metric("m", "", "", Histogram([HistogramDataPoint({}, 1, 2, 3, 4.5, cs, bs, 0.5, 6.5)], DELTA)), m)
        out = m.histogram.data_points[0].bucket_counts
        check(same_seq(m.histogram.data_points[0].explicit_bounds, bs), "the bounds")
    else:
        b, none = Buckets(-3, cs), Buckets(0, [])
        point = ExponentialHistogramDataPoint({}, 1, 2, 3, 4.5, 5, 6, b if form == "positive" else none, none if form == "positive" else b, 0, 0.5, 6.5)
        menc._encode_metric(Metric("m", "", "", ExponentialHistogram([point], DELTA)), m)
        x = m.exponential_histogram.data_points[0]
        out = x.positive.bucket_counts if form == "positive" else x.negative.bucket_counts
        check(length(x.negative.bucket_counts if form == "positive" else x.positive.bucket_counts) == 0, "the other sign has none")
        if is_true(length(cs) > 0):
            check((x.positive if form == "positive" else x.negative).offset == -3, "the offset")
    check(same_seq(out, cs), "the counts")


@contract()
def sum_values_and_integer_sums():
    """An integer sum of a histogram and integer values stay what they are; a boolean value counts as an integer."""
    n = sym_int("n", -(2 ** 53), 2 ** 53)
    m = pb2.Metric()
    menc._encode_metric(Metric("m", "", "", Histogram([HistogramDataPoint({}, 1, 2, 3, n, [3], [], n, n)], DELTA)), m)
    x = m.histogram.data_points[0]
    check(both(x.sum == n, x.min == n, x.max == n, length(x.explicit_bounds) == 0), "the numbers")


@contract()
def exemplars_of_any_number():
    """Each exemplar, in order, with its value, time, attributes and, if it has one, trace identity."""
    isint, ints, reals, times, text = sym_fn("isint", "bool"), sym_fn("int", "int", *WHOLE), sym_fn("real", "real"), sym_fn("time", "int", 0, U64), sym_fn("text", "str")
    traced, tids, sids = sym_fn("traced", "bool"), sym_fn("trace", "int", 0, 2 ** 128 - 1), sym_fn("span", "int", 0, U64)

    def make(i):
        value = ints(i) if is_true(isint(i)) else reals(i)
        if is_true(traced(i)):
            return Exemplar({"k": text(i)}, value, times(i), sids(i), tids(i))
        return Exemplar({"k": text(i)}, value, times(i))

    def same(m, i):
        ok = both(m.time_unix_nano == times(i), len(m.filtered_attributes) == 1, m.filtered_attributes[0].key == "k", is_text(m.filtered_attributes[0].value, text(i)))
        v = both(m.WhichOneof("value") == "as_int", m.as_int == ints(i)) if is_true(isint(i)) else both(m.WhichOneof("value") == "as_double", m.as_double == reals(i))
        ids = both(m.trace_id == id_bytes(tids(i), 16), m.span_id == id_bytes(sids(i), 8)) if is_true(traced(i)) else both(m.trace_id == b"", m.span_id == b"")
        return both(ok, v, ids)

    es = sym_seq("exemplars", make)
    j = sym_int("j", 0, big(10 ** 9))
    if symbolic():
        def clauses(env, i):
            out = env.pb_exemplars
            return [length(out) == i, is_true(neg(j < i)) or (is_true(j < length(out)) and same(item(out, j), j))]

        def any_exemplar(t, i):
            m = pb2.Exemplar(time_unix_nano=g(t, "time", "int", i, 0, U64), filtered_attributes=[KeyValue(key=g(t, "key", "str", i), value=AnyValue(string_value=g(t, "text", "str", i)))])
            if is_true(g(t, "isint", "bool", i)):
                m.as_int = g(t, "int", "int", i, *WHOLE)
            else:
                m.as_double = g(t, "real", "real", i)
            if is_true(g(t, "traced", "bool", i)):
                m.trace_id = g(t, "trace", "int", i, 0, 2 ** 128 - 1).to_bytes(16, "big")
                m.span_id = g(t, "span", "int", i, 0, U64).to_bytes(8, "big")
            return m

        def any_exemplars(tag):
            l = ghost_list()
            havoc_list(l, any_exemplar)
            return l

        loop_inv(clauses, over="exemplars", locals_={"pb_exemplars": any_exemplars})
    out = menc._encode_exemplars(es)
    check(length(out) == length(es), "as many")
    if is_true(j < length(es)):
        check(same(item(out, j), j), "each in its place")


class Other:
    """Data of a kind the protocol does not have."""

    data_points = ()


RS = [Resource({"r": 1}), Resource({"r": 1, "s": "x"}, "https://u")]
SS = [InstrumentationScope("a", "1", "url", {"k": "v"}), InstrumentationScope("b")]


@contract(bound="up to two resources, two scopes each, two metrics each")
def every_metric_once_under_its_own_group():
    """Each metric with its name, description and unit, under its own scope and resource, in order."""
    names = sym_fn("name", "str")
    k = 0
    rms = []
    for r in range(choose("resources", 3)):
        sms = []
        for s in range(choose(f"scopes{r}", 3)):
            ms = []
            for _ in range(choose(f"metrics{r}{s}", 3)):
                ms.append(Metric(names(k), names(1000 + k), names(2000 + k), Gauge([NumberDataPoint({}, 1, 2, 3)])))
                k += 1
            sms.append(ScopeMetrics(SS[s], ms, SS[s].schema_url))
        rms.append(ResourceMetrics(RS[r], sms, RS[r].schema_url))
    req = menc.encode_metrics(MetricsData(rms))
    check(len(req.resource_metrics) == len(rms), "each resource")
    for x, rm in zip(req.resource_metrics, rms):
        check(x.schema_url == rm.resource.schema_url, "its schema URL")
        check([a.key for a in x.resource.attributes] == list(rm.resource.attributes), "its attributes")
        check(len(x.scope_metrics) == len(rm.scope_metrics), "each scope")
        for y, sm in zip(x.scope_metrics, rm.scope_metrics):
            check(y.scope.name == sm.scope.name and y.scope.version == (sm.scope.version or "") and y.schema_url == sm.scope.schema_url, "its name, version and schema URL")
            check([(a.key, a.value.string_value) for a in y.scope.attributes] == list(sm.scope.attributes.items()), "its attributes")
            check(len(y.metrics) == len(sm.metrics), "each metric")
            for z, met in zip(y.metrics, sm.metrics):
                check(both(z.name == met.name, z.description == met.description, z.unit == met.unit), "its name, description and unit")
                check(len(z.gauge.data_points) == 1, "its point")


@contract()
def metrics_of_any_number_in_a_scope():
    """A scope of any number of metrics, with others before and after it: each arrives once with its name, description, unit and point, in order; the others keep theirs."""
    name, desc, unit, val = sym_fn("name", "str"), sym_fn("description", "str"), sym_fn("unit", "str"), sym_fn("value", "int", *WHOLE)
    ms = sym_seq("metrics", lambda i: Metric(name(i), desc(i), unit(i), Gauge([NumberDataPoint({}, 1, 2, val(i))])))
    j = sym_int("j", 0, big(10 ** 9))

    def same(m, i):
        return both(m.name == name(i), m.description == desc(i), m.unit == unit(i), length(m.gauge.data_points) == 1, m.gauge.data_points[0].as_int == val(i))

    def clauses(env, i):
        out = env.pb2_scope_metrics.metrics
        return [length(out) == i, is_true(neg(j < i)) or (is_true(j < length(out)) and same(item(out, j), j))]

    def any_metric(t, i):
        m = pb2.Metric(name=g(t, "name", "str", i), description=g(t, "description", "str", i), unit=g(t, "unit", "str", i))
        m.gauge.data_points.append(pb2.NumberDataPoint(as_int=g(t, "value", "int", i, *WHOLE)))
        return m

    def havoc(env):
        points = ghost_repeated(env.pb2_scope_metrics, "metrics")
        havoc_list(points, any_metric)
        return [points]

    loop_inv(clauses, over="metrics", modifies=[havoc])
    other = [Metric("o", "", "", Gauge([NumberDataPoint({}, 1, 2, 3)]))]
    where = choose("where", ["second scope", "first scope", "second resource"])
    scopes = {"second scope": [[ScopeMetrics(SS[0], other, ""), ScopeMetrics(SS[1], ms, "")]], "first scope": [[ScopeMetrics(SS[0], ms, ""), ScopeMetrics(SS[1], other, "")]],
              "second resource": [[ScopeMetrics(SS[0], other, "")], [ScopeMetrics(SS[0], ms, "")]]}[where]
    req = menc.encode_metrics(MetricsData([ResourceMetrics(RS[r], x, "") for r, x in enumerate(scopes)]))
    check([len(x.scope_metrics) for x in req.resource_metrics] == [len(x) for x in scopes], "each resource and scope")
    at, beside = {"second scope": ((0, 1), (0, 0)), "first scope": ((0, 0), (0, 1)), "second resource": ((1, 0), (0, 0))}[where]
    out = req.resource_metrics[at[0]].scope_metrics[at[1]].metrics
    check(length(out) == length(ms), "as many metrics")
    if is_true(j < length(ms)):
        check(same(item(out, j), j), "each in its place")
    rest = req.resource_metrics[beside[0]].scope_metrics[beside[1]].metrics
    check(len(rest) == 1 and rest[0].name == "o", "the other scope's metric")


@contract()
def other_data_loses_nothing_else():
    """Metrics without points, or of a kind the protocol does not have, leave the others as they are; None is no description and no unit."""
    n = sym_int("n", *WHOLE)
    odd = choose("odd", [Other(), Gauge([]), Sum([], DELTA, True), Histogram([], DELTA), ExponentialHistogram([], DELTA)])
    ms = [Metric("odd", None, None, odd), Metric("m", None, None, Gauge([NumberDataPoint({}, 1, 2, n)]))]
    if choose("first", 2):
        ms.reverse()
    req = menc.encode_metrics(MetricsData([ResourceMetrics(RS[0], [ScopeMetrics(SS[0], ms, "")], "")]))
    out = [m for m in req.resource_metrics[0].scope_metrics[0].metrics if m.name == "m"]
    check(len(out) == 1 and is_true(out[0].gauge.data_points[0].as_int == n), "the other metric is there")
    check(out[0].description == "" and out[0].unit == "", "no description, no unit")


# ---------------------------------------------------------------------------------------------------- preferences
class Exporter(menc.OTLPMetricExporterMixin):
    pass


KINDS = [Counter, UpDownCounter, HistogramInstrument, ObservableCounter, ObservableUpDownCounter, ObservableGauge]
DOCUMENTED = {"CUMULATIVE": [], "DELTA": [Counter, HistogramInstrument, ObservableCounter], "LOWMEMORY": [Counter, HistogramInstrument]}


@contract()
def temporality_preference():
    """The documented temporality of each kind of instrument for each preference, upper or lower case; anything else is cumulative; a given one takes precedence."""
    pref = choose("preference", [None, "CUMULATIVE", "DELTA", "LOWMEMORY", "other"])
    text = pref
    if pref == "other":
        text = sym_str("text", pattern="[^\x00]*", pool=["", "x", "delt", "LOW", "both"])
        for name in DOCUMENTED:
            assume(neg(text.upper().strip() == name))
    elif pref is not None:
        text = choose("spelling", [pref, pref.lower(), pref.title(), " " + pref + "\t"])
    set_env(OTEL_EXPORTER_OTLP_METRICS_TEMPORALITY_PREFERENCE=text, OTEL_EXPORTER_OTLP_METRICS_DEFAULT_HISTOGRAM_AGGREGATION=None)
    given = choose("given", [None, {}, {Counter: CUMULATIVE, ObservableGauge: DELTA}])
    e = Exporter()
    e._common_configuration(given)
    for k in KINDS:
        want = DELTA if k in DOCUMENTED.get(pref, []) else CUMULATIVE
        if given and k in given:
            want = given[k]
        check(e._preferred_temporality[k] is want, "the temporality of each kind")
    check(given is None or len(given) in (0, 2), "what was given is not changed")


@contract()
def histogram_aggregation_preference():
    pref = choose("preference", [None, "explicit_bucket_histogram", "base2_exponential_bucket_histogram", "other"])
    text = pref
    if pref == "other":
        text = sym_str("text", pattern="[^\x00]*", pool=["", "x"])
        assume(neg(text == "base2_exponential_bucket_histogram"))
    set_env(OTEL_EXPORTER_OTLP_METRICS_TEMPORALITY_PREFERENCE=None, OTEL_EXPORTER_OTLP_METRICS_DEFAULT_HISTOGRAM_AGGREGATION=text)
    mine = LastValueAggregation()
    given = choose("given", [None, {HistogramInstrument: mine}, {Counter: mine}])
    e = Exporter()
    e._common_configuration(None, given)
    got = e._preferred_aggregation
    if given and HistogramInstrument in given:
        check(got[HistogramInstrument] is mine, "the given one takes precedence")
    elif pref == "base2_exponential_bucket_histogram":
        check(isinstance(got[HistogramInstrument], ExponentialBucketHistogramAggregation), "exponential")
    else:
        check(isinstance(got[HistogramInstrument], ExplicitBucketHistogramAggregation), "explicit")
    check(got.get(Counter) is (mine if given and Counter in given else None), "what is given for another kind")


# ------------------------------------------------------------------------------------------------------ splitting
def points_of(md):
    return [(rm.resource, sm.scope, m.name, m.data.aggregation_temporality, p) for rm in md.resource_metrics for sm in rm.scope_metrics for m in sm.metrics for p in m.data.data_points]


@contract(bound="up to four points", seconds=120)
def splitting_loses_and_repeats_nothing():
    """Up to four points in any arrangement over metrics, scopes and resources, empty ones in between, and any batch size: the batches hold each point once, in order, under its own
    metric, scope and resource; each but the last is full, and none holds anything empty."""
    size = sym_int("size", 1, big(10 ** 9, 6))
    rms = []
    for i in range(choose("points", 5)):
        step = choose(f"step{i}", ["same", "metric", "scope", "resource", "after an empty metric"]) if i else "resource"
        if step == "resource":
            rms.append(ResourceMetrics(RS[len(rms) % 2], [], ""))
        if step in ("resource", "scope"):
            sms = rms[-1].scope_metrics
            sms.append(ScopeMetrics(SS[len(sms) % 2], [], ""))
        ms = rms[-1].scope_metrics[-1].metrics
        if step == "after an empty metric":
            ms.append(Metric("empty", "", "", Sum([], DELTA, True)))
        if step != "same":
            ms.append(Metric(f"m{i}", "", "", Sum([], DELTA if i % 2 else CUMULATIVE, True)))
        ms[-1].data.data_points.append(NumberDataPoint({}, 1, 2, i))
    if choose("trailing", 2) and rms:
        rms[-1].scope_metrics.append(ScopeMetrics(SS[0], [], ""))
        rms.append(ResourceMetrics(RS[0], [], ""))
    whole = MetricsData(rms)
    e = object.__new__(OTLPMetricExporter)
    e._max_export_batch_size = size
    want = points_of(whole)
    batches = list(e._split_metrics_data(whole))
    got = []
    for b in batches:
        got += points_of(b)
    check(len(got) == len(want) and all(x[4] is y[4] for x, y in zip(got, want)), "each point once, in order")
    check(all(x[0] is y[0] and x[1] is y[1] and x[2] == y[2] and x[3] is y[3] for x, y in zip(got, want)), "under its own metric, scope and resource")
    for i, b in enumerate(batches):
        n = len(points_of(b))
        check(n <= size, "no more than the maximum")
        check(n == size or i == len(batches) - 1, "full, but for the last")
        check(n > 0 and all(m.data.data_points for rm in b.resource_metrics for sm in rm.scope_metrics for m in sm.metrics), "no empty batch, no empty metric")
        check(all(sm.metrics for rm in b.resource_metrics for sm in rm.scope_metrics) and all(rm.scope_metrics for rm in b.resource_metrics), "no empty scope or resource")
    check(points_of(whole) == want, "the data split is as it was")


class Got:
    """What the batches so far held: the numbers of the points below n."""
    n = 0
    last = False


@contract()
def splitting_a_metric_of_any_number_of_points():
    """A metric with any number of points, possibly with one of one point before and after it, and any batch size: the batches hold each point once, in order, under its own metric;
    each but the last is full."""
    size = sym_int("size", 1, big(10 ** 9, 6))
    points = sym_seq("points", lambda i: i)
    n = length(points)
    before, after = choose("before", 2), choose("after", ["nothing", "a metric", "a scope", "a resource"])

    def metric(name, ps):
        return Metric(name, "", "", Sum(ps, DELTA, True))
    whole = MetricsData([ResourceMetrics(RS[0], [ScopeMetrics(SS[0], ([metric("before", [-1])] if before else []) + [metric("this", points)], "")], "")])
    if after == "a metric":
        whole.resource_metrics[0].scope_metrics[0].metrics.append(metric("after", [n]))
    elif after == "a scope":
        whole.resource_metrics[0].scope_metrics.append(ScopeMetrics(SS[1], [metric("after", [n])], ""))
    elif after == "a resource":
        whole.resource_metrics.append(ResourceMetrics(RS[1], [ScopeMetrics(SS[1], [metric("after", [n])], "")], ""))
    got = Got()
    got.n = 0 - before
    made = {}

    def part(what):
        def maker(tag):
            if what == "points":
                l = ghost_list()
                havoc_list(l, lambda t, i: ghost_fn(t, "int")(i))
                ms = ([metric("before", [-1])] if before and choose("still", 2) else []) + [metric("this", l)]
                made["points"], made["metrics"] = l, ms
                made["scopes"] = [ScopeMetrics(SS[0], ms, "")]
                made["resources"] = [ResourceMetrics(RS[0], made["scopes"], "")]
            return made[what]
        return maker

    def clauses(env, i):
        ps, ms, ss, rs = env.split_data_points, env.split_metrics, env.split_scope_metrics, env.split_resource_metrics
        shape = len(rs) == 1 and len(ss) == 1 and rs[0].scope_metrics is ss and ss[0].metrics is ms and ms[-1].data.data_points is ps
        names = [m.name for m in ms]
        mine = shape and rs[0].resource is RS[0] and ss[0].scope is SS[0] and names in (["this"], ["before", "this"])
        if not mine:
            return [mine]
        still = len(ms) - 1
        start = 0 - still
        return [mine, got.n >= start, either(got.n >= 0, still == 1), either(got.n < 0, still == 0), env.batch_size == length(ps) + still, env.batch_size < size, got.n + env.batch_size == i,
                not got.last, forall(0, length(ps), lambda k: item(ps, k) == got.n + still + k)]

    def havoc():
        got.n = sym_int("emitted", -1)
    loop_inv(clauses, over="points", modifies=[havoc], mods=[got],
             locals_={"split_data_points": part("points"), "split_metrics": part("metrics"), "split_scope_metrics": part("scopes"), "split_resource_metrics": part("resources")})
    e = object.__new__(OTLPMetricExporter)
    e._max_export_batch_size = size
    for b in e._split_metrics_data(whole):
        check(not got.last, "nothing after a batch that is not full")
        total = 0
        for rm in b.resource_metrics:
            for sm in rm.scope_metrics:
                for m in sm.metrics:
                    ps = m.data.data_points
                    k = length(ps)
                    total = total + k
                    check(k > 0, "no empty metric")
                    check(m.name in ("before", "this", "after"), "a metric of the data")
                    check((sm.scope is SS[1]) == (m.name == "after" and after != "a metric") and (rm.resource is RS[1]) == (m.name == "after" and after == "a resource"), "in its own scope and resource")
                    lo, hi = {"before": (-1, 0), "this": (0, n), "after": (n, n + 1)}[m.name]
                    check(both(got.n >= lo, got.n + k <= hi), "under its own metric")
                    first = got.n
                    check(forall(0, k, lambda q: item(ps, q) == first + q), "each once, in order")
                    got.n = got.n + k
                check(len(sm.metrics) > 0, "no empty scope")
            check(len(rm.scope_metrics) > 0, "no empty resource")
        check(both(total > 0, total <= size), "no more than the maximum, and no empty batch")
        got.last = not is_true(total == size)
    check(got.n == n + (0 if after == "nothing" else 1), "every point")
