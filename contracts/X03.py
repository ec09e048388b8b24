"""X03: Prometheus exposition: valid names, cumulative buckets, no lost series."""
from contracts.common import *
from contracts.metrics import CUMULATIVE, DELTA
from opentelemetry.exporter import prometheus as prom
from opentelemetry.exporter.prometheus import _CustomCollector, _convert_buckets
from opentelemetry.exporter.prometheus import _mapping
from opentelemetry.sdk.metrics.export import (Buckets, ExponentialHistogram, ExponentialHistogramDataPoint, Gauge, Histogram, HistogramDataPoint, Metric, MetricsData,
                                              NumberDataPoint, ResourceMetrics, ScopeMetrics, Sum)
from opentelemetry.sdk.util.instrumentation import InstrumentationScope

METRIC_NAME = "[a-zA-Z_:][a-zA-Z0-9_:]*"
LABEL_NAME = "[a-zA-Z_][a-zA-Z0-9_]*"
UNIT = "[a-zA-Z0-9_:]*"


# ------------------------------------------------------------------------------------ names
@contract()
def metric_names_are_valid_for_every_text():
    name = sym_str("name", pattern=r"(?s:.+)", pool=["1abc", "a b", "²x", "é", "::", "_", "a__b", "0", "a:b.c\n"])
    out = _mapping.sanitize_full_name(name)
    check(re_full(METRIC_NAME, out), "a metric name Prometheus allows")
    if is_true(re_full("[a-zA-Z:](?:_?[a-zA-Z0-9:])*_?", name)):
        check(out == name, "an acceptable name is kept")


@contract()
def label_names_are_valid_for_every_text():
    key = sym_str("key", pattern=r"(?s:.+)", pool=["1abc", "a b", "²x", "é", "::", "_", "a__b", "0", "a:b.c\n", "a:b"])
    out = _mapping.sanitize_attribute(key)
    check(re_full(LABEL_NAME, out), "a label name Prometheus allows")
    if is_true(re_full("[a-zA-Z](?:_?[a-zA-Z0-9])*_?", key)):
        check(out == key, "an acceptable name is kept")


@contract()
def units_are_valid_for_every_text():
    unit = sym_str("unit", pool=["", "s", "m/s", "{a}", "a b/c d", "1/", "/", "/{x}", "__", "{\n}", "é/s", "By/é", "m/{x}", "-s", "s-", "µs"])
    out = _mapping.map_unit(unit)
    check(re_full(UNIT, out), "only characters a metric name may have")


WORDS = [("d", "days"), ("h", "hours"), ("min", "minutes"), ("s", "seconds"), ("ms", "milliseconds"), ("us", "microseconds"), ("ns", "nanoseconds"), ("By", "bytes"), ("KiBy", "kibibytes"),
         ("MiBy", "mebibytes"), ("GiBy", "gibibytes"), ("TiBy", "tibibytes"), ("KBy", "kilobytes"), ("MBy", "megabytes"), ("GBy", "gigabytes"), ("TBy", "terabytes"), ("m", "meters"),
         ("V", "volts"), ("A", "amperes"), ("J", "joules"), ("W", "watts"), ("g", "grams"), ("Cel", "celsius"), ("Hz", "hertz"), ("1", ""), ("%", "percent"), ("By/s", "bytes_per_second"),
         ("m/s", "meters_per_second"), ("{packet}/s", "per_second"), ("1/min", "per_min"), ("m/h", "meters_per_hour"), ("x/m", "x_per_minute"), ("x/d", "x_per_day"), ("x/w", "x_per_week"),
         ("x/mo", "x_per_month"), ("x/y", "x_per_year"), ("{request}", ""), ("g{dogfood}", "grams"), ("count", "count"), ("-a-", "a")]


@contract()
def units_have_their_documented_words():
    text, word = choose("unit", WORDS)
    check(_mapping.map_unit(text) == word, "the word for a known unit")


# ------------------------------------------------------------------------------------ label values
@contract()
def label_values_are_texts_of_the_values():
    c = _CustomCollector()
    k = choose("kind", ["text", "whole", "flag", "real", "texts", "wholes", "mixed"])
    if k == "text":
        v = sym_str("v")
        check(c._check_value(v) == v, "a text is kept")
    elif k == "whole":
        v = sym_int("v", -big(2**63), big(2**63))
        check(c._check_value(v) == str(v), "a whole number in decimal")
    elif k == "flag":
        v = sym_bool("v")
        check(c._check_value(v) == ("true" if is_true(v) else "false"), "a flag in lower case")
    elif k == "real":
        v = sym_real("v")
        check(c._check_value(v) == repr(v), "a number with all its digits")
    elif k == "texts":
        a, b = sym_str("a", pattern="[ a-z0-9]*"), sym_str("b", pattern="[ a-z0-9]*")
        check(c._check_value((a, b)) == '["' + a + '", "' + b + '"]', "a list of texts as JSON")
    elif k == "wholes":
        a = sym_int("v", -big(2**63), big(2**63))
        check(c._check_value([a, 2]) == "[" + str(a) + ", 2]", "a list of numbers as JSON")
    else:
        check(c._check_value(("é", True, None, 1.5)) == '["\\u00e9", true, null, 1.5]', "any list as JSON")


# ------------------------------------------------------------------------------------ buckets
@contract()
def buckets_are_cumulative_and_end_in_infinity():
    bound, count = sym_fn("bound", "real"), sym_fn("count", "int", 0, big(2**64))
    bounds = sym_seq("bounds", bound)
    counts = sym_seq("counts", count, min_len=1)
    assume(length(counts) == length(bounds) + 1)
    j = sym_int("j", 0, big(10 ** 9))
    if symbolic():
        upto = ghost_fn("upto", "int")
        assume(upto(0) == 0)

        def clauses(env, i):
            if is_true(i > 0):
                assume(upto(i) == upto(i - 1) + count(i - 1))
            assume(upto(j + 1) == upto(j) + count(j))
            text = "+Inf" if is_true(j == length(bounds)) else f"{bound(j)}"
            return [length(env.buckets) == i, env.total_count == upto(i),
                    is_true(neg(j < i)) or is_true(neg(j < length(env.buckets))) or both(item(env.buckets, j)[0] == text, item(env.buckets, j)[1] == upto(j + 1))]

        loop_inv(clauses, key="prometheus:_convert_buckets",
                 locals_={"buckets": any_pairs})
    else:
        def upto(n):
            return sum(count(k) for k in range(n))
    out = _convert_buckets(counts, bounds)
    n = length(bounds)
    check(length(out) == n + 1, "a bucket for every bound and one more")
    if is_true(j <= n):
        check(item(out, j)[0] == ("+Inf" if is_true(j == n) else f"{bound(j)}"), "the bound of each bucket, +Inf for the last")
        check(item(out, j)[1] == upto(j + 1), "each bucket counts all up to its bound, the last one everything")


def any_pairs(tag):
    l = ghost_list()
    havoc_list(l, lambda t, i: (ghost_fn(t + ".a", "str")(i), ghost_fn(t + ".b", "int")(i)))
    return l


# ------------------------------------------------------------------------------------ series
class Family:
    """What the code may rely on about a family of prometheus_client, and must respect (its precondition)."""

    def __init__(self, name, documentation, value=None, labels=None, created=None, unit="", buckets=None, sum_value=None):
        self.metric, self.documentation, self.unit = name, documentation, unit
        check(re_full(METRIC_NAME, name), "a metric name Prometheus allows")
        check(re_full(UNIT, unit), "a unit Prometheus allows in a name")
        self.labels = [x for x in labels] if labels is not None else []
        for k, x in enumerate(self.labels):
            check(re_full(LABEL_NAME, x), "a label name Prometheus allows")
            for y in self.labels[:k]:
                check(x != y, "no label name twice")
        self.samples = []

    def add_metric(self, labels, value=None, buckets=None, sum_value=None, **kw):
        values = [x for x in labels]
        check(len(values) == len(self.labels), "a value for every label")
        self.samples.append((values, value, buckets, sum_value))


class CounterMetricFamily(Family):
    pass


class GaugeMetricFamily(Family):
    pass


class HistogramMetricFamily(Family):
    pass


class InfoMetricFamily(Family):
    pass


def families():
    for c in (CounterMetricFamily, GaugeMetricFamily, HistogramMetricFamily, InfoMetricFamily):
        stub(prom, c.__name__, c)


def collected(metrics, target_info=False, attributes=None):
    families()
    c = _CustomCollector(disable_target_info=not target_info)
    c.add_metrics_data(MetricsData([ResourceMetrics(Resource(attributes or {}), [ScopeMetrics(InstrumentationScope("s"), [m], "") for m in metrics], "")]))
    out = [f for f in c.collect()]
    check(all([isinstance(f, Family) for f in out]), "families only")
    return out


def point(tag, attributes):
    return NumberDataPoint(attributes, 1, 2, sym_int(tag + ".value", -big(2**62), big(2**62)))


def histogram_point(tag, attributes):
    a, b = sym_int(tag + ".a", 0, big(2**62)), sym_int(tag + ".b", 0, big(2**62))
    return HistogramDataPoint(attributes, 1, 2, a + b, sym_real(tag + ".sum"), [a, b], [sym_real(tag + ".bound")], 0.0, 1.0)


def value_is(sample, p):
    """The sample carries what the point holds."""
    if isinstance(p, NumberDataPoint):
        return both(sample[1] == p.value)
    bs = sample[2]
    return both(len(bs) == 2, bs[0][0] == f"{p.explicit_bounds[0]}", bs[0][1] == p.bucket_counts[0], bs[1][0] == "+Inf", bs[1][1] == p.count, sample[3] == p.sum)


def series(fams, kind, labels, p):
    """The series of the point p with these labels, whatever the family."""
    out = []
    for f in fams:
        if type(f) is kind:
            for s in f.samples:
                if len(f.labels) == len(labels) and is_true(both(*[either(*[both(f.labels[k] == n, s[0][k] == v) for k in range(len(f.labels))]) for n, v in labels]) if labels else True):
                    if is_true(value_is(s, p)):
                        out.append((f, s))
    return out


CASES = ["counter", "updown", "gauge", "histogram", "delta counter"]


def data_of(kind, points):
    if kind == "counter":
        return Sum(points, CUMULATIVE, True), CounterMetricFamily
    if kind == "delta counter":
        return Sum(points, DELTA, True), CounterMetricFamily
    if kind == "updown":
        return Sum(points, CUMULATIVE, False), GaugeMetricFamily
    if kind == "gauge":
        return Gauge(points), GaugeMetricFamily
    return Histogram(points, CUMULATIVE), HistogramMetricFamily


def points_of(kind, n):
    mk = histogram_point if kind == "histogram" else point
    return [mk(f"p{k}", {"k": sym_str(f"p{k}.text"), "n": sym_int(f"p{k}.n", 0, 99)}) for k in range(n)]


@contract(bound="one or two points of a metric")
def every_point_becomes_a_series_of_the_right_kind():
    kind = choose("kind", CASES)
    ps = points_of(kind, choose("points", [1, 2]))
    data, want = data_of(kind, ps)
    text = sym_str("description", pool=["", "a|b", "%"])
    fams = collected([Metric("m.x", text, "s", data)])
    for p in ps:
        found = series(fams, want, [("k", p.attributes["k"]), ("n", str(p.attributes["n"]))], p)
        check(len(found) > 0, "every point is there, with its labels and value")
        check(found[0][0].metric == "m_x", "under the name of its metric")
        check(found[0][0].unit == "seconds", "and its unit")
        check(found[0][0].documentation == text, "and its description")
    check(sum([len(f.samples) for f in fams]) == len(ps), "and nothing else")


@contract(bound="two points of a metric")
def points_with_different_labels_do_not_mix():
    kind = choose("kind", ["counter", "histogram"])
    mk = histogram_point if kind == "histogram" else point
    a, b = sym_str("a"), sym_str("b")
    sets = choose("labels", [({}, {"x": a}), ({"x": a}, {}), ({"X": a}, {"x": b}), ({"x": a}, {"y": b}), ({"x": a, "y": b}, {"x": b}), ({"x|y": a}, {"x": b, "y": a}), ({"x": a, "y": b}, {"y": b, "x": a}), ({"a.b": a, "aB": b}, {"a_b": b, "aB": a})])
    ps = [mk("p", sets[0]), mk("q", sets[1])]
    data, want = data_of(kind, ps)
    fams = collected([Metric("m", "", "", data)])
    for p in ps:
        labels = [({"x|y": "x_y", "a.b": "a_b"}.get(k, k), v) for k, v in p.attributes.items()]
        check(len(series(fams, want, labels, p)) > 0, "every point is there, with its labels and value")
    check(sum([len(f.samples) for f in fams]) == 2, "and nothing else")


@contract(bound="two metrics of a point each")
def metrics_keep_their_own_families():
    kinds = choose("kinds", [("counter", "gauge"), ("gauge", "counter"), ("counter", "counter"), ("histogram", "counter")])
    names = choose("names", [("m", "n"), ("m", "m")])
    d1, d2 = sym_str("d1", pool=["a", "b", "a|", "|"]), sym_str("d2", pool=["a", "b", "a|", "|"])
    p = (histogram_point if kinds[0] == "histogram" else point)("p", {"k": sym_str("t1")})
    q = point("q", {"k": sym_str("t2")})
    a, fa = data_of(kinds[0], [p])
    b, fb = data_of(kinds[1], [q])
    fams = collected([Metric(names[0], d1, "", a), Metric(names[1], d2, "", b)])
    for want, x, n, d in ((fa, p, names[0], d1), (fb, q, names[1], d2)):
        found = series(fams, want, [("k", x.attributes["k"])], x)
        check(is_true(either(*[both(f.metric == n, f.documentation == d) for f, _ in found]) if found else False), "each point in a family of its own metric")
    check(sum([len(f.samples) for f in fams]) == 2, "and nothing else")


@contract(bound="two attributes, keys from a list")
def labels_carry_every_attribute():
    k1, k2 = choose("keys", [("a.b", "a_b"), ("a-b", "a.b"), ("k", "l"), ("1a", "2a"), ("2a", "_a"), ("_x", "a"), ("a b", "a.b.c")])
    v1, v2 = sym_str("v1"), sym_str("v2")
    p = point("p", {k2: v2, k1: v1} if choose("order", 2) else {k1: v1, k2: v2})
    info = choose("info", [False, True])
    if info:
        fams = collected([Metric("m", "", "", Gauge([point("p", {})]))], True, {k1: v1, k2: v2})
        info = [f for f in fams if type(f) is InfoMetricFamily]
        check(len(info) == 1 and len(info[0].samples) == 1, "one series about the resource")
        labels = [(n, v) for n, v in info[0].samples[0][1].items()]
    else:
        fams = collected([Metric("m", "", "", Gauge([p]))])
        check(len(fams) == 1 and len(fams[0].samples) == 1, "one series")
        labels = [(n, v) for n, v in zip(fams[0].labels, fams[0].samples[0][0])]
    n1, n2 = _mapping.sanitize_attribute(k1), _mapping.sanitize_attribute(k2)
    if is_true(n1 == n2):
        check(len(labels) == 1, "one label for names that become the same")
        check(labels[0][1] == v1 + ";" + v2, "with both values, in the order of the original names")
    else:
        check(len(labels) == 2, "a label for each attribute")
        check(is_true(either(*[both(n == n1, v == v1) for n, v in labels])) and is_true(either(*[both(n == n2, v == v2) for n, v in labels])), "each with its value")


@contract(bound="two metrics")
def unsupported_metrics_leave_the_others_alone():
    p = point("p", {})
    other = ExponentialHistogram([ExponentialHistogramDataPoint({}, 1, 2, 1, 1.0, 0, 0, Buckets(0, [1]), Buckets(0, []), 0, 1.0, 1.0)], CUMULATIVE)
    good = Metric("good", "", "", Gauge([p]))
    bad = Metric("bad", "", "", other)
    fams = collected([good, bad] if choose("order", 2) else [bad, good])
    check(len(series(fams, GaugeMetricFamily, [], p)) == 1, "the supported series is there")
    check(sum([len(f.samples) for f in fams]) == 1, "and nothing else")


@contract()
def the_resource_is_described_once_unless_disabled():
    text = sym_str("text")
    off = choose("off", [False, True])
    some = choose("some", [True, False])
    fams = collected([Metric("m", "", "", Gauge([point("p", {})]))], not off, {"a.b": text} if some else {})
    info = [f for f in fams if type(f) is InfoMetricFamily]
    check(len(info) == (0 if off else 1), "one description of the target")
    if not off:
        check(info[0].metric == "target" and len(info[0].samples) == 1, "under its documented name")
        check(info[0].samples[0][1]["a_b"] == text if some else info[0].samples[0][1] == {}, "with the resource attributes")


@contract()
def a_later_scrape_reports_what_is_true_then():
    """A metric scraped with one value and label set, then with others or gone: the later scrape has exactly the later points, whatever was scraped before; what was handed out stays."""
    families()
    kind, later = choose("kind", CASES), choose("later", ["same labels", "other labels", "another metric", "nothing"])
    mk = histogram_point if kind == "histogram" else point
    p, q = mk("p", {"k": sym_str("t1")}), mk("q", {"k": sym_str("t2")} if later == "same labels" else {"l": sym_str("t2")})
    c = _CustomCollector(disable_target_info=choose("info", 2) == 0)

    def scrape(metrics):
        c.add_metrics_data(MetricsData([ResourceMetrics(Resource({}), [ScopeMetrics(InstrumentationScope("s"), metrics, "")], "")]))
        return [f for f in c.collect() if not isinstance(f, InfoMetricFamily)]
    data, want = data_of(kind, [p])
    first = scrape([Metric("m", "d", "", data)])
    check(len(first) == 1 and len(first[0].samples) == 1, "one series")
    data, want = data_of(kind, [q])
    second = scrape([Metric("n" if later == "another metric" else "m", "d", "", data)] if later != "nothing" else [])
    if later == "nothing":
        check(second == [], "nothing then")
    else:
        check(len(second) == 1 and len(second[0].samples) == 1, "one series then, too")
        check(len(series(second, want, [(k, v) for k, v in q.attributes.items()], q)) == 1, "with the labels and value of then")
        check(second[0].metric == ("n" if later == "another metric" else "m"), "under its name")
    check(len(first[0].samples) == 1 and is_true(value_is(first[0].samples[0], p)), "what was handed out stays")
    check([f for f in c.collect() if not isinstance(f, InfoMetricFamily)] == [], "and nothing twice")


class Many(Family):
    """A family recording samples of one label, any number of them."""

    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.texts, self.values, self.buckets, self.sums = ghost_list(), ghost_list(), ghost_list(), ghost_list()

    def add_metric(self, labels, value=None, buckets=None, sum_value=None, **kw):
        values = [x for x in labels]
        check(len(values) == len(self.labels) == 1, "a value for every label")
        self.texts.append(values[0])
        if buckets is None:
            self.values.append(value)
        else:
            check(len(buckets) == 2 and buckets[1][0] == "+Inf", "a bucket for the bound and one more")
            self.values.append(buckets[0][1])
            self.buckets.append((buckets[0][0], buckets[1][1]))
            self.sums.append(sum_value)


class ManyCounter(Many):
    pass


class ManyGauge(Many):
    pass


class ManyHistogram(Many):
    pass


MANY = {"CounterMetricFamily": ManyCounter, "GaugeMetricFamily": ManyGauge, "HistogramMetricFamily": ManyHistogram}


@contract()
def points_of_any_number():
    """A metric of any kind with any number of points of the same label name: one family with one series per point, in order, each with its label value and its own value."""
    for n, c in MANY.items():
        stub(prom, n, c)
    kind = choose("kind", CASES)
    text, val, more, real = sym_fn("text", "str"), sym_fn("value", "int", 0, big(2 ** 62)), sym_fn("more", "int", 0, big(2 ** 62)), sym_fn("sum", "real")
    bound = sym_real("bound")

    def point_at(i):
        if kind == "histogram":
            return HistogramDataPoint({"k": text(i)}, 1, 2, val(i) + more(i), real(i), [val(i), more(i)], [bound], 0.0, 1.0)
        return NumberDataPoint({"k": text(i)}, 1, 2, val(i))

    def metrics_data(ps):
        return MetricsData([ResourceMetrics(Resource({}), [ScopeMetrics(InstrumentationScope("s"), [Metric("m.x", "d", "s", data_of(kind, ps)[0])], "")], "")])
    points = sym_seq("points", point_at)
    n = length(points)
    j = sym_int("j", 0, big(10 ** 9))
    fid = "" 
    if symbolic():
        one = {}
        _CustomCollector()._translate_to_prometheus(metrics_data([point_at(0)]), one)
        need(len(one) == 1, "a dictionary of families by their identity")
        [(fid, family)] = one.items()
        made = type(family)
        pid = fid.rpartition("|")[0]

    def value_at(i):
        return {"bucket_counts": [val(i), more(i)], "explicit_bounds": [bound], "sum": real(i)} if kind == "histogram" else val(i)

    def listed(f):
        def maker(tag):
            l = ghost_list()
            havoc_list(l, lambda t, i: f(i))
            return l
        return maker

    def same_value(v, i):
        if kind == "histogram":
            return both(len(v) == 3, v["bucket_counts"][0] == val(i), v["bucket_counts"][1] == more(i), len(v["bucket_counts"]) == 2, len(v["explicit_bounds"]) == 1, v["explicit_bounds"][0] == bound, v["sum"] == real(i))
        return v == val(i)

    def gathered(env, i):
        ids, keys, texts, values = env.per_metric_family_ids, env.label_keys_data_points, env.label_values_data_points, env.values
        cs = [length(x) == i for x in (ids, keys, texts, values)]
        if is_true(j < i):
            if all([is_true(j < length(x)) for x in (ids, keys, texts, values)]):
                cs += [item(ids, j) == pid, len(item(keys, j)) == 1, item(keys, j)[0] == "k", len(item(texts, j)) == 1, item(texts, j)[0] == text(j), same_value(item(values, j), j)]
            else:
                cs.append(False)
        return cs

    def recorded(f, i):
        cs = [length(f.texts) == i, length(f.values) == i]
        if kind == "histogram":
            cs += [length(f.buckets) == i, length(f.sums) == i]
        if is_true(j < i):
            if is_true(both(j < length(f.texts), j < length(f.values))) and (kind != "histogram" or is_true(both(j < length(f.buckets), j < length(f.sums)))):
                cs += [item(f.texts, j) == text(j), item(f.values, j) == val(j)]
                if kind == "histogram":
                    cs += [item(f.buckets, j)[0] == f"{bound}", item(f.buckets, j)[1] == val(j) + more(j), item(f.sums, j) == real(j)]
            else:
                cs.append(False)
        return cs

    def added(env, i):
        fs = env.metric_family_id_metric_family
        if is_true(i == 0):
            return [len(fs) == 0]
        good = len(fs) == 1 and fid in fs and type(fs[fid]) is made
        return [good] + (recorded(fs[fid], i) if good else [])

    def havoc(env):
        fs = env.metric_family_id_metric_family
        fs.clear()
        if choose("some", 2):
            f = fs[fid] = made(name="m_x", documentation="d", labels=["k"], unit="seconds")
            havoc_list(f.texts, lambda t, i: text(i))
            havoc_list(f.values, lambda t, i: val(i))
            havoc_list(f.buckets, lambda t, i: (f"{bound}", val(i) + more(i)))
            havoc_list(f.sums, lambda t, i: real(i))
            return [fs, f.texts, f.values, f.buckets, f.sums]
        return [fs]
    where = "_CustomCollector._translate_to_prometheus"
    if symbolic():
        loop_inv(gathered, over="points", locals_={"per_metric_family_ids": listed(lambda i: pid), "label_keys_data_points": listed(lambda i: ["k"]),
                                                   "label_values_data_points": listed(lambda i: [text(i)]), "values": listed(value_at)})
        loop_inv(added, key=where, ordinal=6, modifies=[havoc])
    c = _CustomCollector(disable_target_info=True)
    c.add_metrics_data(metrics_data(points))
    out = [f for f in c.collect()]
    if is_true(n == 0):
        check(out == [], "nothing for no points")
    else:
        check(len(out) == 1, "one family")
        f = out[0]
        check(type(f) is {"counter": ManyCounter, "delta counter": ManyCounter, "histogram": ManyHistogram}.get(kind, ManyGauge), "of the right kind")
        check(f.metric == "m_x" and f.documentation == "d" and f.unit == "seconds" and f.labels == ["k"], "with the name, description, unit and label name")
        check(both(length(f.texts) == n, length(f.values) == n), "a series for every point")
        if is_true(j < n):
            for ok in recorded(f, n):
                check(ok, "each with its label value and its own value")
