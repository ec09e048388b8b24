"""M03: exponential histograms conserve counts and respect scale bounds."""
import math
import struct
from contracts.common import *
from contracts.metrics import *
from opentelemetry.sdk.metrics._internal.aggregation import _ExponentialBucketHistogramAggregation
from opentelemetry.sdk.metrics._internal.exponential_histogram import buckets as buckets_module
from opentelemetry.sdk.metrics._internal.exponential_histogram.buckets import Buckets
from opentelemetry.sdk.metrics._internal.exponential_histogram.mapping import Mapping
from opentelemetry.sdk.metrics._internal.exponential_histogram.mapping.exponent_mapping import ExponentMapping
from opentelemetry.sdk.metrics._internal.exponential_histogram.mapping.logarithm_mapping import LogarithmMapping

INF = math.inf


class AbstractMapping:
    """Any mapping with perfect subsetting: the i-th value has the index fine[i] at scale 20, halved for every scale below."""

    def __init__(self, scale, values, fine):
        self.scale, self.values, self.fine = scale, values, fine

    def map_to_index(self, v):
        for x, f in zip(self.values, self.fine):
            if v == abs(x):
                return f >> (20 - self.scale)
        fail("only measured values are mapped")


def use_mapping(values, fine):
    """Replaces the real mappings, which have contracts of their own."""
    def new(scale):
        check(-10 <= scale and scale <= 20, "the scale stays within its limits")
        return AbstractMapping(scale, values, fine)
    stub(_ExponentialBucketHistogramAggregation, "_new_mapping", staticmethod(new))


def total_at(points, values, fine, positive, scale, k):
    """How many of the values of that sign belong to bucket k."""
    n = 0
    for x, f in zip(values, fine):
        if (x > 0) == positive and x != 0:
            n = n + ite((f >> (20 - scale)) == k, 1, 0)
    return n


def check_buckets(b, values, fine, positive, scale, max_size, what):
    """Exactly the values of that sign, each in its bucket; never more buckets than configured."""
    counts = b.bucket_counts
    check(len(counts) <= max_size, what + ": at most the configured number of buckets")
    check(sum(counts) == sum([1 for x in values if x != 0 and (x > 0) == positive]), what + ": every value once")
    for i in range(len(counts)):
        check(counts[i] == total_at(None, values, fine, positive, scale, b.offset + i), what + ": each in the bucket of its range")


def check_point(p, values, fine, max_size, what):
    check(p.count == len(values), what + ": the count")
    check(p.zero_count == len([x for x in values if x == 0]), what + ": the zero count")
    check(p.sum == sum(values), what + ": the sum")
    check(p.min == min(values + [INF]) and p.max == max(values + [-INF]), what + ": minimum and maximum")
    check(-10 <= p.scale and p.scale <= 20, what + ": the scale stays within its limits")
    check_buckets(p.positive, values, fine, True, p.scale, max_size, what + ", positive")
    check_buckets(p.negative, values, fine, False, p.scale, max_size, what + ", negative")


VALUES = [1.0, 2.0, 4.0, 8.0, 16.0]


def new_histogram(max_size, start=0, scale=20):
    attrs, res = {"a": 1}, FakeReservoir()
    return attrs, _ExponentialBucketHistogramAggregation(attrs, res.build, DELTA, start, max_size, scale)


@contract(max_paths=40000, seconds=250, bound="at most 3 measurements, 2 or 3 buckets, fine indexes within +-30")
def measured_in_one_interval():
    """Measurements at any bucket index, two to three buckets: each counted once in its bucket."""
    max_size = choose("max_size", [2, 3])
    n = choose("n", 4)
    values = VALUES[:n]
    fine = [sym_int(f"index{i}", -30, 30) for i in range(n)]
    use_mapping(values, fine)
    start = sym_int("start", 0)
    attrs, agg = new_histogram(max_size, start)
    for f in ("_count", "_sum", "_min", "_max", "_zero_count", "_scale"):
        guarded(agg, f, attr(agg, "_lock"), reads=True)
    for v in values:
        agg.aggregate(measurement(v), False)
    delta = choose("delta", 2)
    p = agg.collect(DELTA if delta else CUMULATIVE, start + 5)
    if n == 0 and delta:
        check(p is None, "no delta point when nothing was measured")
        return
    check(both(p.start_time_unix_nano == start, p.time_unix_nano == start + 5), "the interval")
    check(p.attributes is attrs, "the series")
    check_point(p, values, fine, max_size, "interval")


@contract(max_paths=40000, bound="2 measurements of any sign and one zero, 2 buckets, fine indexes within +-12")
def signs_and_zeros():
    """Measurements of both signs and zeros, in any order: each in the zero count or the bucket of its sign."""
    values = [choose("sign0", [1, -1]) * 1.0, choose("sign1", [1, -1, 0]) * 2.0]
    fine = [sym_int(f"index{i}", -12, 12) for i in range(2)]
    at = choose("zero at", 4)
    if at < 3:
        values.insert(at, 0.0)
        fine.insert(at, 0)
    use_mapping(values, fine)
    attrs, agg = new_histogram(2)
    for v in values:
        agg.aggregate(measurement(v), False)
    p = agg.collect(DELTA if choose("delta", 2) else CUMULATIVE, 5)
    check_point(p, values, fine, 2, "interval")


@contract(max_paths=40000, bound="3 measurements in 2 collections, 2 buckets, fine indexes within +-12")
def cumulative_over_collections():
    """Cumulative points cover everything measured so far; delta points partition it; the scale never grows."""
    delta = choose("delta", 2)
    cut = choose("cut", [0, 1, 2])
    values = [1.0 * choose("sign0", [1, 0]), 2.0 * choose("sign1", [1, -1]), 4.0]
    fine = [sym_int(f"index{i}", -12, 12) for i in range(3)]
    use_mapping(values, fine)
    start = sym_int("start", 0)
    attrs, agg = new_histogram(2, start)
    for v in values[:cut]:
        agg.aggregate(measurement(v), False)
    p = agg.collect(DELTA if delta else CUMULATIVE, start + 5)
    if cut or not delta:
        check_point(p, values[:cut], fine[:cut], 2, "first")
    for v in values[cut:]:
        agg.aggregate(measurement(v), False)
    q = agg.collect(DELTA if delta else CUMULATIVE, start + 9)
    if delta:
        check_point(q, values[cut:], fine[cut:], 2, "second")
        check(both(q.start_time_unix_nano == start + 5, q.time_unix_nano == start + 9), "contiguous intervals")
    else:
        check_point(q, values, fine, 2, "second")
        check(both(q.start_time_unix_nano == start, q.time_unix_nano == start + 9), "cumulative since the start")
    if p is not None and p.count != p.zero_count:
        check(q.scale <= p.scale or delta, "the scale never grows")


# ---------------------------------------------------------------------------------------- storage of any size
LIMIT = 16384


class Stored:
    """Buckets with storage of any size in any rotation; count(k) is what bucket start + k holds, total(m) what the first m hold together."""

    def __init__(self, name, limit=LIMIT, conc=9, near=None):
        self.limit = limit if symbolic() else conc
        self.size = sym_int(name + ".size", 1, self.limit)
        self.used = sym_int(name + ".used", 1, None if symbolic() else self.size)
        assume(self.used <= self.size)
        self.bias = sym_int(name + ".bias", 0, None if symbolic() else self.used - 1)
        assume(self.bias < self.used)
        self.start = sym_int(name + ".start", -10**9, 10**9) if near is None else sym_int(name + ".start", None if symbolic() else near[0], None if symbolic() else near[1])
        self.end = self.start + self.used - 1
        self.raw = sym_fn(name + ".count", "int", lo=0, hi=None if symbolic() else 5)
        self.sums = sym_fn(name + ".total", "int") if symbolic() else None
        b = self.b = Buckets()
        attr(b, "_counts")
        set_attr(b, "_counts", list_of(self.size, lambda p: self.count(ite(p + self.bias < self.size, p + self.bias, p + self.bias - self.size))))
        b.index_start, b.index_end, b.index_base = self.start, self.start + self.used - 1, self.start + self.bias

    def count(self, k):
        return ite(both(0 <= k, k < self.used), self.raw(k), 0)

    def total(self, m):
        if symbolic():
            return self.sums(m)
        return sum([self.count(k) for k in range(m)])

    def unfold(self, m):
        """The definition of total at m."""
        assume(self.sums(0) == 0)
        assume(self.sums(m + 1) == self.sums(m) + self.count(m))

    def within(self, lo, hi, m):
        """What buckets lo to hi - 1 of the first m hold together."""
        return self.total(at_most(at_least(hi, 0), m)) - self.total(at_most(at_least(lo, 0), m))


def at_most(x, y):
    return ite(x < y, x, y)


def at_least(x, y):
    return ite(x > y, x, y)


def any_counts(tag, n):
    l = ghost_list()
    havoc_list(l, lambda t, i: ghost_fn(t, "int")(i))
    assume(length(l) == n)
    return l


def list_of(n, f):
    """A list of n elements f(i)."""
    if not symbolic():
        return [f(i) for i in range(n)]
    l = ghost_list()
    havoc_list(l, lambda t, i: f(i))
    assume(length(l) == n)
    return l


@contract(seconds=120)
def downscaling_any_size():
    """Storage of any size, any rotation, position and counts, halved up to 30 times: each new bucket holds what the old ones that fall into it held, and nothing else is left."""
    change = choose("change", list(range(1, 31)))
    s = Stored("b")
    b, each, lo = s.b, 1 << change, s.start >> change

    def merged(k, ip):
        return s.within((lo + k) * each - s.start, (lo + k + 1) * each - s.start, ip)

    def shape(ip, done):
        """Contents after ip buckets were read and `done` new ones written."""
        return lambda k: ite(k >= ip, s.count(k), ite(k < done, merged(k, ip), 0))

    def havoc():
        l = any_counts("counts", s.size)
        set_attr(b, "_counts", l)
        return [l]

    def clauses(inner):
        def f(env, i):
            ip, done = env.inpos, env.outpos + (1 if inner else 0)
            s.unfold(ip)
            counts = attr(b, "_counts")
            out = [0 <= ip, ip <= s.used, env.pos == s.start + ip, length(counts) == s.size, 0 <= env.outpos,
                   forall(0, s.size, lambda k: item(counts, k) == shape(ip, done)(k))]
            if inner:
                base = env.pos - env.index
                return out + [0 <= env.index, env.index <= each, base % each == 0, env.outpos == (base >> change) - lo]
            return out + [either(ip == 0, ip == s.used, env.pos % each == 0), env.outpos == ite(ip == 0, 0, ((env.pos - 1) >> change) - lo + 1)]
        return f

    loop_inv(clauses(False), key="Buckets.downscale", ordinal=1, modifies=[havoc], mods=[b], decreases=lambda env: s.used - env.inpos)
    loop_inv(clauses(True), key="Buckets.downscale", ordinal=2, modifies=[havoc], mods=[b], decreases=lambda env: s.used - env.inpos)
    b.downscale(change)
    check(both(b.index_start == lo, b.index_end == (s.start + s.used - 1) >> change, b.index_base == lo), "the same range at the coarser scale")
    counts = b.counts
    check(length(counts) == s.size, "the storage keeps its size")
    check(forall(0, s.size, lambda k: item(counts, k) == ite(lo + k <= b.index_end, merged(k, s.used), 0)), "each bucket holds what its parts held")


def smallest_power(n):
    """Contract of ceil(log2(n)) for whole numbers up to the limit (shown by powers_of_two)."""
    for c in range(15):
        if is_true(n <= 1 << c):
            return c
    fail("at most the limit")


def exact_log2():
    if symbolic():
        stub(buckets_module, "log2", lambda n: n)
        stub(buckets_module, "ceil", smallest_power)


@contract()
def powers_of_two():
    """ceil(log2(n)) is exact for every possible number of buckets (all of them computed)."""
    check(all([math.ceil(math.log2(n)) == (n - 1).bit_length() for n in range(1, LIMIT + 1)]), "the exponent of the smallest power of two not below")


def placed(s, size):
    """What storage of that size holds at position p."""
    return lambda p: s.count(ite(p + s.bias < size, p + s.bias, p + s.bias - size))


@contract(seconds=120)
def growing_any_size():
    """Storage of any size in any rotation: growing it changes no count and gives room for what is needed, within the maximum."""
    exact_log2()
    s = Stored("b")
    top = LIMIT if symbolic() else choose("up to", [16, 16, LIMIT])
    needed = sym_int("needed", 2, top)
    limit = sym_int("limit", 2, top)
    assume(both(s.size < needed, needed <= limit, limit <= LIMIT))
    b = s.b
    b.grow(needed, limit)
    n = length(b.counts)
    check(both(needed <= n, n <= limit), "room for what is needed, within the maximum")
    check(forall(0, n, lambda p: item(b.counts, p) == placed(s, n)(p)), "every count stays where it is")
    check(both(b.index_start == s.start, b.index_end == s.start + s.used - 1, b.index_base == s.start + s.bias), "the range stays")


@contract()
def reading_any_size():
    """Storage of any size in any rotation: every count is read and reported at its index; a copy is empty, in the same place and independent."""
    s = Stored("b")
    b = s.b
    k = sym_int("k", 0, None if symbolic() else s.used - 1)
    assume(k < s.used)
    check(b[k] == s.count(k), "read at its index")
    out = b.get_offset_counts()
    check(both(b.offset == s.start, length(out) == s.size), "reported from the start of the range")
    check(forall(0, s.size, lambda i: item(out, i) == s.count(i)), "each at its index")
    check(len(b) == ite(both(s.used == 1, s.count(0) == 0), 0, s.used), "the number of buckets in use")
    c = b.copy_empty()
    check(both(c.index_start == s.start, c.index_end == b.index_end, c.index_base == b.index_base, length(c.counts) == s.size), "a copy in the same place")
    check(forall(0, s.size, lambda i: item(c.counts, i) == 0), "which is empty")
    c.increment_bucket(0)
    check(item(b.counts, 0) == placed(s, s.size)(0), "and independent")


@contract()
def halving_keeps_order():
    """The step of the induction behind in_order: one halving keeps order and does not widen distances."""
    x, y = sym_int("x", -10**9, 10**9), sym_int("y", -10**9, 10**9)
    assume(x <= y)
    check(both((x >> 1) <= (y >> 1), (y >> 1) - (x >> 1) <= y - x), "order and distance")


class Index:
    """A mapping that puts the one measured magnitude at `index` at scale `scale`, and there halved at coarser scales (the nesting contracts)."""

    def __init__(self, scale, top, magnitude, index):
        self.scale, self.top, self.magnitude, self.index = scale, top, magnitude, index

    def map_to_index(self, v):
        check(v == self.magnitude, "the measured magnitude is mapped")
        change = self.top - self.scale
        need(is_true(change >= 0), "rescaling is to coarser scales")
        return self.index >> change


class Side:
    """The buckets of one sign with the contracts of downscale and grow (shown by downscaling_any_size and growing_any_size) in their place."""

    def __init__(self, stored, tag):
        self.s, self.b, self.tag, self.change, self.downscaled, self.original = stored, stored.b, tag, 0, False, stored.b.counts
        self.merged = sym_fn(tag + ".merged", "int", lo=0) if symbolic() else None

    def downscale(self, amount):
        s, b = self.s, self.b
        need(b.counts is self.original and is_true(both(b.index_start == s.start, b.index_end == s.end, b.index_base == s.start + s.bias)), "buckets are downscaled before anything else changes them")
        need(is_true(amount >= 1), "downscaling is by at least one")
        halving(s.start, amount)
        halving(s.end, amount)
        in_order(s.start, s.end, amount)
        self.change, self.downscaled = amount, True
        lo, hi = s.start >> amount, s.end >> amount
        assume(implies(s.used == 1, self.merged(0) == s.count(0)))
        set_attr(b, "_counts", list_of(s.size, lambda p: ite(lo + p <= hi, self.merged(p), 0)))
        b.index_start, b.index_end, b.index_base = lo, hi, lo

    def count(self, k, change):
        """What the bucket k after so many halvings is to hold."""
        s = self.s
        if not symbolic():
            return sum([s.count(i) for i in range(s.used) if (s.start + i) >> change == k])
        if not self.downscaled:
            return s.count(k - s.start)
        return ite(both(s.start >> change <= k, k <= s.end >> change), self.merged(k - (s.start >> change)), 0)


def grown(b, needed, limit):
    counts, size = b.counts, length(b.counts)
    bias = b.index_base - b.index_start
    need(is_true(both(size < needed, needed <= limit, 0 <= bias, bias < size)), "buckets grow when more are needed")
    n = fresh_int("new_size")
    assume(both(needed <= n, n <= limit))
    moved = n - size
    # bucket base + p stays at position p, those before the base move to the new end
    used = b.index_end - b.index_start
    set_attr(b, "_counts", list_of(n, lambda p: ite(p < size - bias, item(counts, ite(p < size - bias, p, 0)), ite(p >= n - bias, item(counts, ite(p >= n - bias, p - moved, 0)), 0))))


def use_sides(*sides):
    if not symbolic():
        return

    def downscale(self, amount):
        for side in sides:
            if side.b is self:
                return side.downscale(amount)
        fail("only the buckets of the aggregation are downscaled")
    stub(Buckets, "downscale", downscale)
    stub(Buckets, "grow", grown)


def check_holds(b, lo, hi, count, max_size, what):
    """Exactly these counts, all buckets from lo to hi among them."""
    n = length(b.counts)
    used, bias = b.index_end - b.index_start + 1, b.index_base - b.index_start
    check(both(n <= max_size, 1 <= used, used <= n), what + ": at most the configured number of buckets")
    check(both(b.index_start <= lo, hi <= b.index_end), what + ": none of the buckets is lost")
    check(both(0 <= bias, bias < used), what + ": the base lies inside")
    counts = b.counts

    def at(p):
        k = ite(p + bias < n, p + bias, p + bias - n)
        return item(counts, p) == ite(k < used, count(b.index_start + k), 0)
    check(forall(0, n, at), what + ": each bucket holds exactly its count")


def in_range(x, scale):
    """x is the index of a double at that scale (shown by exponent_indexes, logarithm_indexes and the nesting contracts)."""
    assume(both(-1 <= x >> (scale + 10), x >> (scale + 10) <= 0))


@contract(seconds=200)
def measured_any_size():
    """Any state at any scale with any maximum size, a measurement of any sign and index: exactly its bucket (or the zero count) grows by one, rescaling by what is needed and no more; every other count, the scale's bounds, sum, minimum and maximum are right."""
    symbolic_shifts()
    top = sym_int("scale", -10, 20)
    max_size = sym_int("max_size", 2, LIMIT if symbolic() else 9)
    near = (-(1 << (top + 10)), (1 << (top + 10)) - 1) if not symbolic() else (0, 0)
    if not symbolic() and choose("close", 2):
        near = (max(near[0], -9), min(near[1], 9))
    near = (near[0], at_least(near[0], near[1] - 8)) if not symbolic() else near
    v = sym_real("v")
    magnitude = ite(v < 0, -v, v)
    negative, zero = is_true(v < 0), is_true(v == 0)
    a, o = Side(Stored("b", conc=max_size, near=near), "b"), Side(Stored("other", conc=max_size, near=near), "other")
    s = a.s
    far = None if symbolic() else choose("far", [40, 40, 1 << (top + 10)])
    idx = s.start + sym_int("distance", None if symbolic() else -far, far)
    assume(both(s.size <= max_size, o.s.size <= max_size))
    for x in (idx, s.start, s.end, o.s.start, o.s.end):
        in_range(x, top)
    stub(_ExponentialBucketHistogramAggregation, "_new_mapping", staticmethod(lambda scale: in_limits(scale) and Index(scale, top, magnitude, idx)))
    use_sides(a, o)
    attrs, agg = new_histogram(160, scale=top)
    set_attr(agg, "_max_size", max_size)
    first = choose("first of the interval", 2)
    set_attr(agg, "_value_positive", None if first else o.b if negative else a.b)
    set_attr(agg, "_value_negative", None if first else a.b if negative else o.b)
    n, zeros = sym_int("n", 0), sym_int("zeros", 0)
    total, low, high = sym_real("sum"), sym_real("min"), sym_real("max")
    assume(zeros <= n)
    for f, x in (("_count", n), ("_zero_count", zeros), ("_sum", total), ("_min", low), ("_max", high)):
        set_attr(agg, f, x)
    empty = is_true(both(s.used == 1, s.count(0) == 0))

    def searching(env, i):
        c = env.change
        if not is_true(0 <= c):
            return [False]
        bounds = ((idx, s.end) if is_true(idx < s.start) else (s.start, idx))
        for x in (idx, s.start, s.end):
            halving(x, c)
        in_order(idx, s.start, c)
        in_order(s.end, idx, c)
        in_order(s.start, s.end, c)
        return [0 <= c, c <= top + 10, env.low == bounds[0] >> c, env.high == bounds[1] >> c]
    loop_inv(searching, key="_ExponentialBucketHistogramAggregation._get_scale_change", decreases=lambda env: top + 10 - env.change)
    agg.aggregate(measurement(v), False)
    check(both(attr(agg, "_count") == n + 1, attr(agg, "_zero_count") == zeros + (1 if zero else 0), same_sum(attr(agg, "_sum"), total + v)), "count, zero count and sum")
    check(both(attr(agg, "_min") == ite(v < low, v, low), attr(agg, "_max") == ite(v > high, v, high)), "minimum and maximum")
    scale = attr(agg, "_mapping").scale
    change = top - scale
    check(both(change >= 0, scale >= -10), "the scale never grows, and stays within its limits")
    b2, o2 = (attr(agg, "_value_negative"), attr(agg, "_value_positive")) if negative else (attr(agg, "_value_positive"), attr(agg, "_value_negative"))
    if zero:
        check(scale == top, "a zero does not rescale")
        if not first:
            check_holds(b2, s.start, s.end, lambda k: s.count(k - s.start), max_size, "its sign")
            check_holds(o2, o.s.start, o.s.end, lambda k: o.s.count(k - o.s.start), max_size, "the other sign")
        else:
            check(both(len(b2) == 0, len(o2) == 0), "no bucket is used")
        return
    check(attr(agg, "_scale") == scale, "the scale is that of the buckets")
    at = idx >> change
    one = lambda k: ite(k == at, 1, 0)
    if first:
        check(scale == top, "a first measurement does not rescale")
        check_holds(b2, at, at, one, max_size, "its sign")
        check(len(o2) == 0, "the other sign is empty")
        return
    if symbolic():
        check(both(a.change == change, o.change == change), "both signs are rescaled alike")
    check_holds(b2, at, at, lambda k: a.count(k, change) + one(k), max_size, "its sign")
    if not empty:
        check_holds(b2, s.start >> change, s.end >> change, lambda k: a.count(k, change) + one(k), max_size, "its sign")
    check_holds(o2, o.s.start >> change, o.s.end >> change, lambda k: o.count(k, change), max_size, "the other sign")


def first_count(b):
    """What the first bucket in use holds."""
    bias, n = b.index_base - b.index_start, length(b.counts)
    return item(b.counts, ite(bias == 0, 0, n - bias))


@contract(seconds=120)
def merged_any_size():
    """Any earlier and any current buckets whose ranges fit together at the common scale: after merging, an arbitrary bucket holds what it held plus what the current buckets falling into it hold."""
    symbolic_shifts()
    max_size = sym_int("max_size", 2, LIMIT if symbolic() else 9)
    change = sym_int("change", 0, 30 if symbolic() else 4)
    around = 0 if symbolic() else choose("around", [0, 0, 5000, -5000])
    p = Stored("previous", conc=max_size, near=(0, 0) if symbolic() else (around - 3, around + 3))
    c = Stored("current", conc=max_size, near=(0, 0) if symbolic() else ((around - 3) << change, (around + 3) << change))
    assume(both(p.size <= max_size, c.size <= max_size))
    lowest, highest = sym_int("lowest") if symbolic() else min(p.start, c.start >> change), sym_int("highest") if symbolic() else max(p.end, c.end >> change)
    empty = is_true(both(p.used == 1, p.count(0) == 0))
    in_order(c.start, c.end, change)
    assume(both(highest - lowest < max_size, lowest <= c.start >> change, c.end >> change <= highest))
    assume(either(empty, both(lowest <= p.start, p.end <= highest)))
    b = p.b
    j = p.start + sym_int("j", None if symbolic() else -12, None if symbolic() else 12)
    added = sym_fn("added", "int") if symbolic() else None

    def index(i):
        k = c.start + c.bias + i
        return ite(k > c.end, k - c.size, k)

    def at_j():
        n, base = length(b.counts), b.index_base
        used = both(b.index_start <= j, j <= b.index_end)
        return ite(used, item(b.counts, ite(used, ite(j < base, j - base + n, j - base), 0)), 0)

    def havoc():
        l = any_counts("counts", fresh_int("size"))
        set_attr(b, "_counts", l)
        b.index_start, b.index_end, b.index_base = fresh_int("start"), fresh_int("end"), fresh_int("base")
        return [l]

    def merging(env, i):
        x = index(i)
        in_order(c.start, x, change)
        in_order(x, c.end, change)
        assume(added(0) == 0)
        assume(added(i + 1) == added(i) + ite((x >> change) == j, item(c.b.counts, i), 0))
        n, used, bias = length(b.counts), b.index_end - b.index_start + 1, b.index_base - b.index_start
        if not is_true(both(n <= max_size, 1 <= used, used <= n, 0 <= bias, bias < used)):
            return [False] * 5
        counts = b.counts
        inside = both(lowest <= b.index_start, b.index_end <= highest)
        return [True, at_j() == p.count(j - p.start) + added(i),
                forall(0, n, lambda q: either(ite(q + bias < n, q + bias, q + bias - n) < used, item(counts, q) == 0)),
                either(inside, both(used == 1, first_count(b) == 0)) if empty else inside, True]
    loop_inv(merging, key="_ExponentialBucketHistogramAggregation._merge", modifies=[havoc], mods=[b])
    if symbolic():
        stub(Buckets, "grow", grown)
    attrs, agg = new_histogram(160)
    set_attr(agg, "_max_size", max_size)
    agg._merge(b, c.b, change - 10, -10, CUMULATIVE)
    n, used, bias = length(b.counts), b.index_end - b.index_start + 1, b.index_base - b.index_start
    check(both(n <= max_size, 1 <= used, used <= n, 0 <= bias, bias < used), "at most the configured number of buckets, in a valid state")
    check(at_j() == p.count(j - p.start) + (added(c.size) if symbolic() else sum([c.count(k) for k in range(c.used) if (c.start + k) >> change == j])), "what it held and what falls into it")
    counts = b.counts
    check(forall(0, n, lambda q: either(ite(q + bias < n, q + bias, q + bias - n) < used, lambda: item(counts, q) == 0)), "nothing outside the range")


@contract()
def scale_changes():
    """For any range: the least number of halvings after which it fits into the maximum size."""
    symbolic_shifts()
    max_size = sym_int("max_size", 2, LIMIT)
    low, high = sym_int("low", None if symbolic() else -500, None if symbolic() else 500), sym_int("high", None if symbolic() else -500, None if symbolic() else 500)
    enough = sym_int("enough", 0, 30)
    for x in (low, high):
        halving(x, 0)
    assume(both(low - 1 <= high, (high >> enough) - (low >> enough) < max_size))
    attrs, agg = new_histogram(160)
    set_attr(agg, "_max_size", max_size)

    def searching(env, i):
        c = env.change
        if not is_true(0 <= c):
            return [False]
        halving(low, c)
        halving(high, c)
        return [True, env.low == low >> c, env.high == high >> c, c <= enough]
    loop_inv(searching, key="_ExponentialBucketHistogramAggregation._get_scale_change", decreases=lambda env: enough - env.change)
    c = agg._get_scale_change(low, high)
    check(both(0 <= c, c <= enough), "no more halvings than enough")
    check((high >> c) - (low >> c) < max_size, "the range fits")


@contract()
def shifts_add_up():
    """The step of the induction behind joined: one more halving of both."""
    x = sym_int("x", -10**9, 10**9)
    a = choose("a", list(range(31)))
    check((x >> a) >> 1 == x >> (a + 1), "one more halving")


def joined(x, a, c):
    """x >> a >> c is x >> (a + c) (by induction over c; the step is a contract)."""
    assume(((x >> a) >> c) == (x >> (a + c)))
    assume(implies(c == 0, (x >> (a + c)) == (x >> a)))


@contract()
def spans():
    """The range of earlier and current buckets at a common scale: from the lowest to the highest index of those in use."""
    symbolic_shifts()
    scales = [sym_int("previous_scale", -10, 20), sym_int("scale", -10, 20)]
    if not symbolic():
        scales[1] = max(min(scales[1], scales[0] + 2), scales[0] - 2)
    attrs, agg = new_histogram(160)
    least = at_most(scales[0], scales[1])
    p, c = Stored("previous", near=(-9, 9)), Stored("current", near=(-9, 9))
    ends = []
    for s, scale in ((p, scales[0]), (c, scales[1])):
        in_order(s.start, s.end, scale - least)
        if not is_true(both(s.size == 1, s.count(0) == 0)):
            ends.append((s.start >> (scale - least), s.end >> (scale - least)))
    set_attr(agg, "_previous_scale", scales[0])
    low, high = agg._get_low_high_previous_current(p.b, c.b, scales[1], least)
    if len(ends) == 0:
        check(both(low == 0, high == -1), "no range")
    elif len(ends) == 1:
        check(both(low == ends[0][0], high == ends[0][1]), "the range in use")
    else:
        check(both(low == at_most(ends[0][0], ends[1][0]), high == at_least(ends[0][1], ends[1][1])), "both ranges")


class Collecting:
    """One collection with the contracts of _get_scale_change, downscale and _merge in their place."""

    def __init__(self, agg, max_size, enough, sides, bounds):
        self.agg, self.max_size, self.enough, self.sides, self.bounds = agg, max_size, enough, sides, bounds
        self.merges, self.calls = [], []
        if symbolic():
            stub(agg, "_get_scale_change", self.scale_change)
            stub(agg, "_merge", self.merge)
            stub(agg, "_get_low_high_previous_current", self.span)
            collecting = self
            stub(Buckets, "downscale", lambda b, amount: collecting.downscale(b, amount))

    def side(self, b):
        for s in self.sides:
            if s is not None and s.b is b:
                return s

    def span(self, previous, current, current_scale, min_scale):
        """Contract of _get_low_high_previous_current (shown by spans)."""
        scale = self.pscale if self.pscale is not None else current_scale
        low, high = fresh_int("low"), fresh_int("high")
        none = both(low == 0, high == -1)
        lows, highs = [none], [none]
        for b, sc in ((previous, scale), (current, current_scale)):
            x, y = b.index_start >> (sc - min_scale), b.index_end >> (sc - min_scale)
            zero = both(length(b.counts) == 1, item(b.counts, 0) == 0)
            assume(either(zero, both(low <= x, y <= high)))
            lows, highs = lows + [low == x], highs + [high == y]
        assume(either(*lows))
        assume(either(*highs))
        assume(iff(low > high, none))
        return low, high

    def scale_change(self, low, high):
        c = fresh_int("change")
        assume(0 <= c)
        for x, a in self.bounds:
            y = x >> a
            joined(x, a, c)
            in_order(low, y, c)
            in_order(y, high, c)
            joined(x, a, self.enough)
            in_order(low, y, self.enough)
            in_order(y, high, self.enough)
        joined(0, 0, c)
        assume(implies(low > high, c == 0))
        assume((high >> c) - (low >> c) < self.max_size)
        assume(implies((high >> self.enough) - (low >> self.enough) < self.max_size, c <= self.enough))
        self.calls.append((low, high, c))
        return c

    def downscale(self, b, amount):
        s = self.side(b)
        if s is not None:
            return s.downscale(amount)
        counts = b.counts
        check(forall(0, length(counts), lambda i: item(counts, i) == 0), "other buckets are empty copies")
        b.index_start, b.index_end = b.index_start >> amount, b.index_end >> amount
        b.index_base = b.index_start

    def merge(self, previous, current, current_scale, min_scale, temporality):
        need(temporality is CUMULATIVE, "cumulative buckets are merged")
        d = current_scale - min_scale
        check(d >= 0, "at a common scale, never finer than either")
        s = self.side(current)
        if s is None:
            counts = current.counts
            check(forall(0, length(counts), lambda i: item(counts, i) == 0), "other buckets are empty copies")
            return
        for low, high, c in self.calls:
            e = self.base - c - min_scale
            need(is_true(e >= 0), "the point's scale is the coarsest of the two signs'")
            in_order(low >> c, high >> c, e)
            for x, a in self.bounds:
                joined(x, a + c, e)
                in_order(low >> c, x >> (a + c), e)
                in_order(x >> (a + c), high >> c, e)
        lo, hi = s.s.start >> d, s.s.end >> d
        empty = both(previous.index_start == previous.index_end, first_count(previous) == 0)
        lo, hi = ite(empty, lo, at_most(lo, previous.index_start)), ite(empty, hi, at_least(hi, previous.index_end))
        check(either(s.empty, hi - lo < self.max_size), "both ranges fit at the common scale")
        result = sym_fn("merged", "int", lo=0)
        n, start, end, base = fresh_int("size"), fresh_int("start"), fresh_int("end"), fresh_int("base")
        assume(both(start <= base, base <= end, end - start < n, n <= self.max_size))
        set_attr(previous, "_counts", list_of(n, lambda p: ite(ite(p + base - start < n, p + base - start, p + base - start - n) <= end - start, result(ite(base + p <= end, base + p, base + p - n)), 0)))
        previous.index_start, previous.index_end, previous.index_base = start, end, base
        self.merges.append((previous, current, d, lambda k: ite(both(start <= k, k <= end), result(k), 0)))


@contract(seconds=200)
def collected_any_size():
    """Any earlier and any current buckets of both signs at any scales: a cumulative point holds bucket by bucket what they hold together at its scale, which is never finer than either nor below the limit; a delta point holds the current ones; the totals add up."""
    symbolic_shifts()
    max_size = sym_int("max_size", 2, LIMIT if symbolic() else 9)
    delta, earlier, measured = choose("delta", 2), choose("earlier", 2), choose("measured", 2)
    pscale, cscale = sym_int("previous_scale", -10, 20), sym_int("scale", -10, 20)
    if not symbolic() and choose("close scales", 2):
        cscale = max(min(cscale, pscale + 2), pscale - 2)
    attrs, agg = new_histogram(160, start=3)
    set_attr(agg, "_max_size", max_size)
    base = at_most(pscale, cscale) if earlier and measured else pscale if earlier else cscale

    def side(tag, scale):
        if symbolic():
            near = (0, 0)
        else:
            top = 1 << (scale + 10)
            near = (max(-top, -3 << max(scale - base, 0)), min(top - 9, 3 << max(scale - base, 0)))
            near = (near[0], max(near))
        s = Side(Stored(tag, conc=max_size, near=near), tag)
        assume(s.s.size <= max_size)
        in_range(s.s.start, scale)
        in_range(s.s.end, scale)
        s.empty = both(s.s.used == 1, s.s.count(0) == 0)
        return s
    pp, pn = (side("previous positive", pscale), side("previous negative", pscale)) if earlier else (None, None)
    cp, cn = (side("positive", cscale), side("negative", cscale)) if measured else (None, None)
    bounds = []
    for s, scale in ((pp, pscale), (pn, pscale), (cp, cscale), (cn, cscale)):
        if s is not None:
            bounds = bounds + [(s.s.start, scale - base), (s.s.end, scale - base)]
            in_order(s.s.start, s.s.end, scale - base)
    state = Collecting(agg, max_size, base + 10, (pp, pn, cp, cn), bounds)
    state.base, state.pscale = base, pscale if earlier else None
    ghost = {}
    for prefix, on, x, y, scale in (("_previous_", earlier, pp, pn, pscale), ("_", measured, cp, cn, cscale)):
        set_attr(agg, prefix + "value_positive", x.b if on else None)
        set_attr(agg, prefix + "value_negative", y.b if on else None)
        set_attr(agg, prefix + "scale", scale if on else None)
        n, zero, total, low, high = (sym_int(prefix + "n", 0), sym_int(prefix + "zero", 0), sym_real(prefix + "sum"), -float(earlier), float(measured)) if on else (0, 0, 0, INF, -INF)
        ghost[prefix] = (n, zero, total, low, high)
        for f, v in (("count", n), ("zero_count", zero), ("sum", total), ("min", low), ("max", high)):
            set_attr(agg, prefix + f, v)
    set_attr(agg, "_mapping", Flat(cscale))
    began = sym_int("began", 0)
    set_attr(agg, "_previous_collection_start_nano", began)
    p = agg.collect(DELTA if delta else CUMULATIVE, 9)
    check(attr(agg, "_value_positive") is None and attr(agg, "_value_negative") is None and attr(agg, "_count") == 0 and attr(agg, "_zero_count") == 0 and attr(agg, "_sum") == 0 and attr(agg, "_min") == INF and attr(agg, "_max") == -INF, "a new interval starts with nothing")
    (n0, z0, s0, l0, h0), (n1, z1, s1, l1, h1) = ghost["_previous_"], ghost["_"]
    if delta:
        check((p is None) == (not measured), "a delta point exactly when something was measured")
        if not measured:
            return
        check(p.scale == cscale, "at the scale of the interval")
        check(both(p.count == n1, p.zero_count == z1, p.sum == s1, p.min == l1, p.max == h1), "the totals of the interval")
        check(both(p.start_time_unix_nano == began, p.time_unix_nano == 9, attr(agg, "_previous_collection_start_nano") == 9), "contiguous intervals")
    else:
        if earlier:
            check(p.scale <= pscale, "never finer than before")
        if measured:
            check(p.scale <= cscale, "never finer than measured")
        check(p.scale >= -10, "the scale stays within its limits")
        check(both(p.count == n0 + n1, p.zero_count == z0 + z1, same_sum(p.sum, s0 + s1)), "count, zero count and sum add up")
        check(both(p.min == min(l0, l1), p.max == max(h0, h1)), "minimum and maximum of both")
        check(p.start_time_unix_nano == 3 and p.time_unix_nano == 9, "since the start")
        check(both(attr(agg, "_previous_scale") == p.scale, attr(agg, "_previous_count") == p.count, attr(agg, "_previous_zero_count") == p.zero_count, attr(agg, "_previous_sum") == p.sum, attr(agg, "_previous_min") == p.min, attr(agg, "_previous_max") == p.max), "kept for the next collection")
    for sign, before, now, got, kept in (("positive", None if delta else pp, cp, p.positive, attr(agg, "_previous_value_positive")), ("negative", None if delta else pn, cn, p.negative, attr(agg, "_previous_value_negative"))):
        counts = got.bucket_counts
        check(length(counts) <= max_size, sign + ": at most the configured number of buckets")
        if symbolic():
            merges = [m for m in state.merges if m[0] is kept] if not delta else []
            if not delta and measured:
                check(len(merges) == 1 and merges[0][1] is now.b, sign + ": the current buckets of that sign are added once")
                check(merges[0][2] == cscale - p.scale, sign + ": at the point's scale")
                count = merges[0][3]
            elif delta:
                count = lambda k: now.s.count(k - now.s.start)
            elif before is not None:
                count = lambda k: before.count(k, pscale - p.scale)
            else:
                count = lambda k: 0
            if not delta and before is not None:
                check(kept is before.b, sign + ": the earlier buckets are kept")
                check(either(before.change == pscale - p.scale, before.empty), sign + ": at the point's scale")
        else:
            count = lambda k: (before.count(k, pscale - p.scale) if before is not None else 0) + (now.count(k, cscale - p.scale) if now is not None else 0)
            check(sum(counts) == sum([s.s.count(i) for s in (before, now) if s is not None for i in range(s.s.used)]), sign + ": no count is lost")
        check(forall(0, length(counts), lambda i: item(counts, i) == count(got.offset + i)), sign + ": each bucket holds exactly its count")


def in_limits(scale):
    check(both(-10 <= scale, scale <= 20), "the scale stays within its limits")
    return True


@contract()
def totals():
    """Any values: sum, minimum, maximum and zero count are those of the measurements, over two collections."""
    delta = choose("delta", 2)
    a, b = sym_real("a"), sym_real("b")
    stub(_ExponentialBucketHistogramAggregation, "_new_mapping", staticmethod(lambda scale: Flat(scale)))
    attrs, agg = new_histogram(4)
    agg.aggregate(measurement(a), False)
    p = agg.collect(DELTA if delta else CUMULATIVE, 5)
    check(both(p.sum == a, p.min == a, p.max == a, p.zero_count == ite(a == 0, 1, 0), p.count == 1), "the first measurement's")
    agg.aggregate(measurement(b), False)
    q = agg.collect(DELTA if delta else CUMULATIVE, 9)
    if delta:
        check(both(q.sum == b, q.min == b, q.max == b, q.zero_count == ite(b == 0, 1, 0), q.count == 1), "the second measurement's")
    else:
        check(both(same_sum(q.sum, a + b), q.min == min(a, b), q.max == max(a, b), q.zero_count == ite(a == 0, 1, 0) + ite(b == 0, 1, 0), q.count == 2), "both measurements'")


class Flat:
    def __init__(self, scale):
        self.scale = scale

    def map_to_index(self, v):
        check(v > 0, "magnitudes are mapped")
        return 7


# ------------------------------------------------------------------------------------ from values to indexes
MIN_NORMAL = 1 << 52     # the bits of 2**-1022


def bits_of_power(e):
    """The bits of 2**e; below every positive double for smaller exponents, above for larger ones."""
    return ite(e < -1022, 0, ite(e > 1023, 0x7FF << 52, (e + 1023) << 52))


@contract()
def exponent_indexes():
    """Every positive finite double at every scale from -10 to 0: the bucket's range (2**(i*2**-scale), 2**((i+1)*2**-scale)] contains it (values below the normal range: the lowest bucket)."""
    scale = choose("scale", list(range(-10, 1)))
    m = ExponentMapping(scale)
    check(m.scale == scale, "the scale asked for")
    v, bits = sym_float("v")
    i = m.map_to_index(v)
    width = 1 << -scale
    if is_true(bits < MIN_NORMAL):
        check(both(i * width < -1022, (i + 1) * width >= -1022), "subnormal values: the bucket holding the smallest normal value")
    else:
        check(bits_of_power(i * width) < bits, "above the lower boundary")
        check(bits <= bits_of_power((i + 1) * width), "up to the upper boundary")
    check(both(i * width >= -1022 - width, i * width <= 1023), "the index is within the range of doubles")


@contract()
def exponent_indexes_nest():
    """At any two scales, the coarser index is the finer one halved as often: rescaling moves no value to a wrong bucket; larger values never get smaller indexes."""
    s = choose("scale", list(range(-9, 1)))
    v, bits = sym_float("v")
    w, wbits = sym_float("w")
    assume(bits >= MIN_NORMAL)
    fine, coarse = ExponentMapping(s), ExponentMapping(s - 1)
    check(coarse.map_to_index(v) == fine.map_to_index(v) >> 1, "perfect subsetting")
    assume(bits <= wbits)
    check(fine.map_to_index(v) <= fine.map_to_index(w), "monotonic")


@contract()
def logarithm_indexes():
    """Every positive finite double at every scale from 1 to 20: exact for powers of two and below the normal range, floor(log_base(v)) otherwise, within the range of doubles."""
    scale = choose("scale", list(range(1, 21)))
    m = LogarithmMapping(scale)
    check(m.scale == scale, "the scale asked for")
    v, bits = sym_float("v")
    i = m.map_to_index(v)
    top = (1024 << scale) - 1
    if is_true(bits <= MIN_NORMAL):
        check(i == (-1022 << scale) - 1, "values up to the smallest normal one: the bucket ending there")
    elif is_true(bits % MIN_NORMAL == 0):
        e = bits // MIN_NORMAL - 1023
        check(i == (e << scale) - 1, "a power of two is the upper boundary of its bucket")
    else:
        x = math.log(v) * math.ldexp(1 / math.log(2), scale)
        check(either(i == top, lambda: i <= x), "at or above the lower boundary")
        check(either(i == top, lambda: x < i + 1), "below the upper boundary")
    check(i <= top, "never above the range of doubles")


@contract()
def logarithm_indexes_nest():
    """Between adjacent scales an index is halved (so is every index at every coarser logarithmic scale)."""
    s = choose("scale", list(range(2, 21)))
    v, bits = sym_float("v")
    fine, coarse = LogarithmMapping(s), LogarithmMapping(s - 1)
    f, c = fine.map_to_index(v), coarse.map_to_index(v)
    check(c == f >> 1, "perfect subsetting")


@contract(native_only=True, runs=3000)
def indexes_of_real_doubles():
    """Over seeded doubles at every scale: inside the bucket's range (1e-9 relative tolerance at logarithmic scales), monotonic, and the lower boundary is that of the bucket."""
    scale = choose("scale", list(range(-10, 21)))
    m = ExponentMapping(scale) if scale <= 0 else LogarithmMapping(scale)
    v, bits = sym_float("v")
    w, wbits = sym_float("w")
    i = m.map_to_index(v)
    if bits > wbits:
        v, w = w, v
    check(m.map_to_index(v) <= m.map_to_index(w), "monotonic")
    assume(bits >= MIN_NORMAL * 2 and bits < 0x7FD << 52)
    v = struct.unpack("<d", struct.pack("<Q", bits))[0]
    width = 2.0 ** -scale
    assume(-1020 < i * width and (i + 1) * width < 1023)
    tol = 1e-12 * (1 + abs(math.log2(v)))
    check(i * width - tol <= math.log2(v) <= (i + 1) * width + tol, "inside the bucket's range")
    low = m.get_lower_boundary(i)
    check(math.isclose(low, 2.0 ** (i * width), rel_tol=1e-9), "the lower boundary")


@contract()
def mapping_limits():
    """Scales outside a mapping's limits are refused; equal scales share one mapping."""
    kind = choose("kind", [ExponentMapping, LogarithmMapping])
    scale = choose("scale", [-12, -11, -10, -1, 0, 1, 2, 20, 21, 22])
    ok = scale in (range(-10, 1) if kind is ExponentMapping else range(1, 21))
    try:
        m = kind(scale)
        refused = False
    except Exception:
        refused = True
    check(refused == (not ok), "exactly the scales within the limits")
    if ok:
        check(kind(scale) is m and m.scale == scale, "one mapping per scale")


@contract()
def real_mappings_are_chosen():
    """The aggregation maps with the logarithm above scale 0 and with the exponent otherwise."""
    scale = choose("scale", list(range(-10, 21)))
    m = _ExponentialBucketHistogramAggregation._new_mapping(scale)
    check(isinstance(m, LogarithmMapping if scale > 0 else ExponentMapping) and m.scale == scale, "the mapping of that scale")


@contract()
def sizes():
    """A maximum size outside 2 to 16384 is refused."""
    n = sym_int("n", -10, 20000)
    try:
        new_histogram(n)
        refused = False
    except ValueError:
        refused = True
    check(iff(refused, either(n < 2, n > 16384)), "exactly the sizes within the limits")
