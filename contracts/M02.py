"""M02: explicit histograms place and conserve every measurement."""
import math
from contracts.common import *
from contracts.metrics import *
from opentelemetry.sdk.metrics._internal.aggregation import _ExplicitBucketHistogramAggregation
from opentelemetry.sdk.metrics import Counter, Histogram
from opentelemetry.sdk.metrics.view import DefaultAggregation, ExplicitBucketHistogramAggregation
from opentelemetry.metrics._internal.instrument import _MetricsHistogramAdvisory

INF = math.inf


def boundaries(name="bound", max_len=None):
    """Any number of strictly growing boundaries."""
    if not symbolic():
        n = sym_int(name + ".len", 0, 5)
        return sorted(set(sym_number(f"{name}{i}", -20, 20) for i in range(n)))
    b = sym_fn(name, "real")
    s = sym_seq(name, b)
    assume(forall(0, length(s) - 1, lambda k: item(s, k) < item(s, k + 1)))
    return s


def growing(s, j):
    """What transitivity gives for the boundaries around position j (an induction the solvers do not do)."""
    n = length(s)
    if symbolic():
        assume(forall(0, n, lambda k: both(implies(both(0 < j, k < j - 1), lambda: item(s, k) < item(s, j - 1)), implies(both(j < n, k > j), lambda: item(s, k) > item(s, j)))))


def in_bucket(bounds, j, v):
    """v lies in the j-th half-open range (lower, upper]."""
    n = length(bounds)
    if not symbolic():
        return (j == 0 or bounds[j - 1] < v) and (j == n or v <= bounds[j])
    return both(either(j == 0, lambda: item(bounds, j - 1) < v), either(j == n, lambda: v <= item(bounds, j)))


class Tally:
    """Ghost: what was measured in some interval; `here` counts the measurements inside one arbitrary bucket."""

    def __init__(self):
        self.n, self.here, self.sum, self.min, self.max = 0, 0, 0, INF, -INF

    def add(self, v, inside):
        self.n = self.n + 1
        self.here = self.here + ite(inside, 1, 0)
        self.sum = self.sum + v
        self.min, self.max = min(self.min, v), max(self.max, v)

    def anything(self, some):
        self.n, self.here, self.sum = fresh_int("n"), fresh_int("here"), ghost_number("sum")
        self.min, self.max = (ghost_number("min"), ghost_number("max")) if some else (INF, -INF)


def any_counts(tag, n):
    l = ghost_list()
    havoc_list(l, lambda t, i: ghost_fn(t, "int")(i))
    assume(length(l) == n)
    return l


def check_point(p, t, bounds, j, minmax, start, end, attrs, what):
    """The point reports exactly the tally's measurements."""
    check(p.count == t.n, what + ": the count")
    check(same_sum(p.sum, t.sum), what + ": the sum")
    check(length(p.bucket_counts) == length(bounds) + 1, what + ": one more bucket than boundaries")
    check(item(p.bucket_counts, j) == t.here, what + ": the measurements in each bucket's range")
    check(sum(p.bucket_counts) == p.count, what + ": the buckets add up to the count")
    if minmax:
        check(both(p.min == t.min, p.max == t.max), what + ": minimum and maximum")
    check(same_seq(p.explicit_bounds, bounds), what + ": the boundaries")
    check(both(p.start_time_unix_nano == start, p.time_unix_nano == end), what + ": the interval")
    check(p.attributes is attrs, what + ": the series")


@contract(timeout_ms=10000)
def any_history():
    """Any boundaries, any history of measurements and collections, both temporalities and with or without minimum and maximum."""
    delta, minmax = choose("delta", 2), choose("minmax", 2)
    start = sym_int("start", 0, 2**62)
    bounds = boundaries()
    j = sym_int("j", 0, None if symbolic() else len(bounds))
    assume(j <= length(bounds))
    growing(bounds, j)
    attrs, res = {"a": 1}, FakeReservoir()
    agg = _ExplicitBucketHistogramAggregation(attrs, DELTA, start, res.build, bounds, minmax == 1)
    for f in ("_value", "_sum", "_min", "_max"):
        guarded(agg, f, attr(agg, "_lock"), reads=True)
    cur, old, times = Tally(), Tally(), {"last": start}
    value, at, collects = sym_fn("value", "real"), sym_fn("at", "int", lo=0), sym_fn("collects", "bool")
    ops = sym_seq("ops", lambda i: i, conc_max=10)

    def same(t, counts, sum_, mn, mx):
        out = [sum_ == t.sum, t.n >= 0, t.here >= 0]
        if counts is None:
            return out + [t.n == 0, t.here == 0] + ([t.min == INF, t.max == -INF, mn == INF, mx == -INF] if minmax else [])
        return out + ([t.n >= 1] if t is cur else []) + [length(counts) == length(bounds) + 1, item(counts, j) == t.here, sum(counts) == t.n] + ([mn == t.min, mx == t.max] if minmax else [])

    def inv(env, i):
        out = same(cur, attr(agg, "_value"), attr(agg, "_sum"), attr(agg, "_min"), attr(agg, "_max"))
        if delta:
            return out + [attr(agg, "_previous_collection_start_nano") == times["last"]]
        return out + same(old, attr(agg, "_previous_value"), attr(agg, "_previous_sum"), attr(agg, "_previous_min"), attr(agg, "_previous_max"))

    def anything():
        made = []
        for t, prefix in ((cur, "_"), (old, "_previous_")):
            some = choose("some", 2) if t is cur else 0 if delta else choose("some_previous", 3)     # 0: nothing yet, 1: something, 2: a point without measurements
            set_attr(agg, prefix + "value", any_counts(prefix, length(bounds) + 1) if some else None)
            set_attr(agg, prefix + "sum", ghost_number("sum"))
            set_attr(agg, prefix + "min", ghost_number("min") if some == 1 and minmax else INF)
            set_attr(agg, prefix + "max", ghost_number("max") if some == 1 and minmax else -INF)
            t.anything(some == 1)
            if some:
                made.append(attr(agg, prefix + "value"))
        set_attr(agg, "_previous_collection_start_nano", fresh_int("prev"))
        times["last"] = fresh_int("last")
        return made
    loop_inv(inv, over="ops", modifies=[anything], mods=[agg, cur, old, times, res])
    for i in ops:
        if not is_true(collects(i)):
            agg.aggregate(measurement(value(i)), False)
            cur.add(value(i), in_bucket(bounds, j, value(i)))
            continue
        p = agg.collect(DELTA if delta else CUMULATIVE, at(i))
        if delta:
            if is_true(cur.n == 0):
                check(p is None, "no delta point when nothing was measured")
            else:
                check(p is not None, "a point for what was measured")
                check_point(p, cur, bounds, j, minmax, times["last"], at(i), attrs, "delta")
            times["last"] = at(i)
        else:
            old.n, old.here, old.sum, old.min, old.max = old.n + cur.n, old.here + cur.here, cur.sum + old.sum, min(cur.min, old.min), max(cur.max, old.max)
            check(p is not None, "a cumulative point at every collection")
            check_point(p, old, bounds, j, minmax, start, at(i), attrs, "cumulative")
        cur.n, cur.here, cur.sum, cur.min, cur.max = 0, 0, 0, INF, -INF


def factory(cls):
    return FakeReservoir().build


class Advised(Histogram):
    def __init__(self, bounds):
        self._advisory = _MetricsHistogramAdvisory(explicit_bucket_boundaries=bounds)


class Plain(Counter):
    def __init__(self):
        pass


DEFAULTS = [0.0, 5.0, 10.0, 25.0, 50.0, 75.0, 100.0, 250.0, 500.0, 750.0, 1000.0, 2500.0, 5000.0, 7500.0, 10000.0]


def bounds_of(agg):
    agg.aggregate(measurement(3.0), False)
    return list(agg.collect(DELTA, 9).explicit_bounds)


@contract()
def whose_boundaries():
    """The view's boundaries, else those advised for this very instrument, else the defaults: for each of several instruments a view matches."""
    x, y = sym_real("x"), sym_real("y")
    own = [None, [x, x + 1], []][choose("own", 3)]
    view = ExplicitBucketHistogramAggregation(own)
    instruments = [(Advised([y, y + 2]), [y, y + 2]), (Advised([y + 3]), [y + 3]), (Advised([]), []), (Advised(None), DEFAULTS), (Plain(), DEFAULTS)]
    first, second = choose("first", instruments), choose("second", instruments)
    for ins, want in (first, second):
        agg = view._create_aggregation(ins, {}, factory, 0)
        check(bounds_of(agg) == (want if own is None else own), "the view's boundaries, else the instrument's, else the defaults")
    for ins, want in (first, second):
        if isinstance(ins, Histogram):
            check(bounds_of(DefaultAggregation()._create_aggregation(ins, {}, factory, 0)) == want, "the default aggregation: the instrument's, else the defaults")


@contract()
def default_buckets():
    """Any value in a histogram with the default boundaries: in the one bucket around it."""
    v = sym_number("v", -10, 20000)
    agg = _ExplicitBucketHistogramAggregation({}, DELTA, 0, FakeReservoir().build)
    agg.aggregate(measurement(v), False)
    p = agg.collect(DELTA if choose("delta", 2) else CUMULATIVE, 5)
    check(sum(p.bucket_counts) == 1 and len(p.bucket_counts) == 16, "one of 16 buckets")
    for j in range(16):
        check(p.bucket_counts[j] == ite(in_bucket(DEFAULTS, j, v), 1, 0), "the one whose range contains the value")


@contract()
def values_outside_any_range():
    """Infinite values go to the outermost buckets; whole numbers keep a whole sum."""
    v = choose("v", [INF, -INF, 3])
    agg = _ExplicitBucketHistogramAggregation({}, DELTA, 0, FakeReservoir().build, [sym_int("lo", -10, 0), 5])
    agg.aggregate(measurement(v), False)
    p = agg.collect(DELTA, 5)
    check(p.bucket_counts == ((0, 0, 1) if v == INF else (1, 0, 0) if v == -INF else (0, 1, 0)), "the outermost bucket")
    check(p.sum == v and p.min == v and p.max == v, "sum, minimum and maximum")
    check(isinstance(p.sum, int) == (v == 3), "a whole sum of whole numbers")


@contract()
def concurrent_collection():
    """A collection by another thread at the lock acquisition of a measurement: each measurement is in exactly one delta."""
    agg = _ExplicitBucketHistogramAggregation({}, DELTA, 0, FakeReservoir().build, [0, 10])
    a, b = sym_real("a"), sym_real("b")
    agg.aggregate(measurement(a), False)
    got = []

    def other():
        if not got:
            got.append(None)
            got[0] = agg.collect(DELTA, 50)
    interfere(agg, "_lock", other, at=choose("at", 2), after=choose("after", 2) == 1)
    agg.aggregate(measurement(b), False)
    p = agg.collect(DELTA, 100)
    q = got[0]
    points = [x for x in (p, q) if x is not None]
    check(sum([x.count for x in points]) == 2, "each measurement in exactly one delta")
    check(same_sum(sum([x.sum for x in points]), a + b), "with its value")


@contract()
def exemplars_pass_through():
    """The reservoir is offered exactly the measurements to be sampled and knows the boundaries; the point carries what it returns."""
    res = FakeReservoir()
    agg = _ExplicitBucketHistogramAggregation({"a": 1}, DELTA, 0, res.build, [0, 10])
    m, sample = measurement(sym_real("value"), sym_int("time", 0), {"a": 1, "b": 2}), sym_bool("sample")
    agg.aggregate(m, sample)
    check(list(res.kw["boundaries"]) == [0, 10], "the reservoir gets the boundaries")
    if is_true(sample):
        check(len(res.offers) == 1, "a sampled measurement is offered once")
        o = res.offers[0]
        check(both(o[0] == m.value, o[1] == m.time_unix_nano, o[2] == {"a": 1, "b": 2}, o[3] is m.context), "as it is")
    else:
        check(len(res.offers) == 0, "others are not")
    p = agg.collect(DELTA if choose("delta", 2) else CUMULATIVE, 7)
    check(p.exemplars is res.collected, "the point has the reservoir's exemplars")
