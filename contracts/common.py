"""Building blocks shared by the contracts."""
from pyvc.lib import *
from opentelemetry.trace import SpanContext, TraceFlags, TraceState

TRACE_MAX = 2**128 - 1
SPAN_MAX = 2**64 - 1
IDS = (0, 1, TRACE_MAX, SPAN_MAX)


def any_trace_id(name="trace_id"):
    return sym_int(name, 0, TRACE_MAX)


def valid_trace_id(name="trace_id"):
    return sym_int(name, 1, TRACE_MAX)


def valid_span_id(name="span_id"):
    return sym_int(name, 1, SPAN_MAX)


def any_flags(name="flags"):
    return TraceFlags(sym_int(name, 0, 255))


def small_trace_state(name="ts"):
    n = choose(name + ".n", 3)
    if n == 0:
        return TraceState()
    if n == 1:
        return TraceState([("vendor", "v1"), ("b@sys", "x/y z")])
    return TraceState([("k" * 256, " " * 255 + "v"), ("a@b", "w" * 256), *((f"k{i}", "v") for i in range(30))])  # the largest one


def valid_context(name="ctx", remote=None, state=None):
    r = sym_bool(name + ".remote") if remote is None else remote
    return SpanContext(valid_trace_id(name + ".trace_id"), valid_span_id(name + ".span_id"), r, any_flags(name + ".flags"),
                       small_trace_state(name + ".ts") if state is None else state)


def any_context(name="ctx"):
    """Any span context, valid or not."""
    return SpanContext(sym_int(name + ".trace_id", 0, 2**130), sym_int(name + ".span_id", 0, 2**66), sym_bool(name + ".remote"), any_flags(name + ".flags"),
                       small_trace_state(name + ".ts"))


# ------------------------------------------------------------------------------------ spans
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.trace import Span, SpanLimits, SpanProcessor, TracerProvider, SynchronousMultiSpanProcessor, ConcurrentMultiSpanProcessor
from opentelemetry.sdk.trace.id_generator import IdGenerator
from opentelemetry.sdk.trace.sampling import ALWAYS_OFF, ALWAYS_ON, Decision, Sampler, SamplingResult
from opentelemetry.trace import Link, Status, StatusCode, SpanKind, NonRecordingSpan, set_span_in_context, get_current_span, use_span
from opentelemetry import context as context_api


class Recorder(SpanProcessor):
    """A span processor that writes down what it is told."""

    def __init__(self, name="p", log=None):
        self.name = name
        self.started = []
        self.ended = []
        self.end_seen = []
        self.contexts = []
        self.shutdowns = 0
        self.flushes = []
        self.log = log if log is not None else []
        self.flush_result = True

    def on_start(self, span, parent_context=None):
        self.started.append(span)
        self.contexts.append(parent_context)
        self.log.append((self.name, "start", span, parent_context))

    def on_end(self, span):
        self.ended.append(span)
        self.end_seen.append(span.end_time)
        self.log.append((self.name, "end", span, None))

    def shutdown(self):
        self.shutdowns += 1
        self.log.append((self.name, "shutdown", None, None))

    def force_flush(self, timeout_millis=30000):
        self.flushes.append(timeout_millis)
        self.log.append((self.name, "flush", None, timeout_millis))
        return self.flush_result


class FixedIds(IdGenerator):
    def __init__(self, trace_id=0x0AF7651916CD43DD8448EB211C80319C, span_id=0x00F067AA0BA902B7):
        self.trace_id, self.span_id = trace_id, span_id
        self.n_trace = self.n_span = 0

    def generate_trace_id(self):
        self.n_trace += 1
        return self.trace_id

    def generate_span_id(self):
        self.n_span += 1
        return self.span_id


def make_provider(processor=None, sampler=None, limits=None, ids=None):
    p = TracerProvider(sampler=sampler if sampler is not None else ALWAYS_ON, resource=Resource({"r": 1}), shutdown_on_exit=False,
                       id_generator=ids if ids is not None else FixedIds(), span_limits=limits if limits is not None else SpanLimits())
    if processor is not None:
        p.add_span_processor(processor)
    return p


def make_tracer(processor=None, sampler=None, limits=None, ids=None):
    return make_provider(processor, sampler, limits, ids).get_tracer("lib", "1.0")


def attrs_of(a):
    return list(a.items()) if a is not None else []


def reported(span):
    """Everything a span reports."""
    return (span.name, attrs_of(span.attributes), [(e.name, e.timestamp, attrs_of(e.attributes), e.dropped_attributes) for e in span.events],
            [(l.context, attrs_of(l.attributes), l.dropped_attributes) for l in span.links], span.status.status_code, span.status.description,
            span.start_time, span.end_time, span.get_span_context(), span.parent, span.kind,
            span.dropped_attributes, span.dropped_events, span.dropped_links)


REPORTED = ("name", "attributes", "events", "links", "status", "status description", "start time", "end time", "context", "parent", "kind",
            "dropped attributes", "dropped events", "dropped links")


def check_same_report(before, after, what):
    for i in range(len(REPORTED)):
        check(before[i] == after[i], f"{what}: {REPORTED[i]}")


class XLock:
    """A lock at whose at-th acquisition (or after whose at-th release) another thread gets its turn: one allowed interleaving."""

    def __init__(self, inner, action, at=0, after=False):
        self.inner, self.action, self.at, self.after, self.n, self.released = inner, action, at, after, 0, 0

    def acquire(self, *a, **k):
        self.n += 1
        if self.n == self.at + 1 and not self.after:
            self.action()
        return self.inner.acquire(*a, **k)

    def release(self):
        self.inner.release()
        self.released += 1
        if self.released == self.at + 1 and self.after:
            self.action()

    def locked(self):
        return self.inner.locked()

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def interfere(obj, field, action, at=0, after=False):
    """Let `action` run (as another thread would) right before the at-th acquisition, or right after the at-th release, of the lock obj.field."""
    lock = attr(obj, field)
    need(hasattr(lock, "acquire"), f"{field} is a lock")
    set_attr(obj, field, XLock(lock, action, at, after))


# ------------------------------------------------------------------------------------ trace state
TS_KEY = r"[a-z][_0-9a-z\-\*\/]{0,255}|[a-z0-9][_0-9a-z\-\*\/]{0,240}@[a-z][_0-9a-z\-\*\/]{0,13}"
TS_VALUE = r"[\x20-\x2b\x2d-\x3c\x3e-\x7e]{0,255}[\x21-\x2b\x2d-\x3c\x3e-\x7e]"
TS_POOL_K = ["a", "b", "vendor", "t@v", "0@a", "A", "", "a b", "a=", "1", "k" * 256, "k" * 257, "x,y", "@a"]
TS_POOL_V = ["1", "", " ", " x", "x ", "a,b", "a=b", "v" * 256, "v" * 257, "é", "\x1f", "~", "x\n"]


def ts_entry_valid(k, v):
    return both(re_full(TS_KEY, k), re_full(TS_VALUE, v))


def trace_state_loops(j):
    """Invariants of the loops of TraceState: everything taken over so far is valid (entry j standing for all), never more than was read."""
    def ok(d):
        n = length(d)
        return [n >= 0, implies(both(0 <= j, j < n), lambda: ts_entry_valid(*item(d.items(), j)))]
    loop_inv(lambda env, i: ok(env.pairs), over="split", locals_={"pairs": any_odict(TS_KEY, TS_VALUE)})
    loop_inv(lambda env, i: ok(env.self._dict) + [length(env.self._dict) <= i], key="span:TraceState.__init__",
             modifies=[havoc_field("self", "_dict", any_odict(TS_KEY, TS_VALUE))])


def any_trace_state(name="state"):
    """A trace state holding any valid entries (at most 32 of them)."""
    s = TraceState()
    if not symbolic():
        for i in range(choose(name + ".n", [0, 1, 2, 3, 4, 31, 32])):
            if i > 3:
                s._dict["key" + str(i)] = "v" + str(i)
                continue
            k, v = sym_str(f"{name}.k{i}", pattern=TS_KEY, pool=["a", "b", "vendor", "t@v"]), sym_str(f"{name}.v{i}", pattern=TS_VALUE, pool=["1", " x", "~"])
            s._dict[k] = v
        return s
    d = any_odict(TS_KEY, TS_VALUE)(name)
    assume(length(d) <= 32)
    set_attr(s, "_dict", d)
    return s


def used_propagator(make, put, states=True):
    """A propagator used for one context is used for another, of the same trace or not, from here or remote: what it writes and reads is that of the other."""
    kept = [None, TraceState([("k", "1")]), TraceState([("k", "2"), ("l", "3")])]
    a = valid_context("a", state=choose("a.ts", kept) if states else TraceState())
    tid = a.trace_id if choose("same trace", 2) else valid_trace_id("b.trace_id")
    sid = a.span_id if choose("same span", 2) else valid_span_id("b.span_id")
    b = SpanContext(tid, sid, False, TraceFlags(choose("b.flags", 2)), choose("b.ts", kept) if states else None)
    used = make()
    ca, cb, cw = {}, {}, {}
    used.inject(ca, put(a))
    used.inject(cb, put(b))
    make().inject(cw, put(b))
    check(set(cb) == set(cw) and all([is_true(cb[k] == cw[k]) for k in cw]), "written as by a new one")
    base = context_api.Context({"k": "v"})
    used.extract(ca, base)
    nothing = used.extract({}, base)
    check(not get_current_span(nothing).get_span_context().is_valid, "nothing from nothing")
    d = get_current_span(used.extract(cb, base)).get_span_context()
    check(both(d.trace_id == b.trace_id, d.span_id == b.span_id, d.trace_flags == b.trace_flags, d.is_remote), "read as written")
    check(list(d.trace_state.items()) == list(b.trace_state.items()), "with its own trace state")
