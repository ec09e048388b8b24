"""T05: identity, parentage and sampling outcome of new spans."""
import random
from contracts.common import *
from opentelemetry.sdk.trace.id_generator import RandomIdGenerator

DECISIONS = (Decision.DROP, Decision.RECORD_ONLY, Decision.RECORD_AND_SAMPLE)
KINDS = tuple(SpanKind)


class AnySampler(Sampler):
    """Decides anything and writes down what it was asked."""

    def __init__(self, decision, attributes, trace_state):
        self.decision, self.attributes, self.trace_state = decision, attributes, trace_state
        self.asked = []

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        self.asked.append((parent_context, trace_id, name, kind, attributes, links))
        return SamplingResult(self.decision, self.attributes, self.trace_state)

    def get_description(self):
        return "any"


def any_parent():
    """(kind, span context of the parent or None, span)"""
    k = choose("parent", ["none", "valid", "invalid"])
    if k == "none":
        return None
    if k == "valid":
        return valid_context("parent")
    c = SpanContext(sym_int("p.trace_id", 0, 2**130), sym_int("p.span_id", 0, 2**66), sym_bool("p.remote"), any_flags("p.flags"), small_trace_state("p.ts"))
    assume(neg(c.is_valid))
    return c


@contract()
def identity_and_sampling():
    """start_span for any parent, any sampler decision, attributes and trace state, any generated ids."""
    parent = any_parent()
    decision = choose("decision", DECISIONS)
    extra = {"s": sym_int("sampler attribute")} if choose("extra", 2) else None
    ts = choose("state", [None, TraceState([("v", "1")])])
    sampler = AnySampler(decision, extra, ts)
    ids = FixedIds(valid_trace_id("new trace_id"), valid_span_id("new span_id"))
    rec = Recorder()
    tracer = make_tracer(rec, sampler, ids=ids)
    pspan = None if parent is None else NonRecordingSpan(parent)
    how = choose("how", ["explicit", "current"])
    ctx, token = None, None
    if how == "explicit":
        ctx = context_api.Context() if pspan is None else set_span_in_context(pspan, context_api.Context())
        decoy = set_span_in_context(NonRecordingSpan(SpanContext(0xABC, 0xDEF, False)), context_api.Context())
        token = context_api.attach(decoy)
    else:
        token = context_api.attach(context_api.Context() if pspan is None else set_span_in_context(pspan, context_api.Context()))
    kind = choose("kind", KINDS[:2])
    given = {"g": sym_int("given attribute")}
    link = Link(SpanContext(7, 8, True))
    name = sym_str("name")
    start = sym_int("start", 0)
    span = tracer.start_span(name, context=ctx, kind=kind, attributes=given, links=[link], start_time=start)
    context_api.detach(token)
    sc = span.get_span_context()
    valid_parent = parent is not None and is_true(parent.is_valid)
    if valid_parent:
        check(sc.trace_id == parent.trace_id, "same trace as the valid parent")
        check(ids.n_trace == 0, "no new trace id with a valid parent")
    else:
        check(sc.trace_id == ids.trace_id, "a new trace without a valid parent")
        check(ids.n_trace == 1, "one new trace id")
    check(sc.span_id == ids.span_id, "the span id is the generated one")
    check(ids.n_span == 1, "one new span id")
    check(sc.is_valid, "the context is valid")
    check(neg(sc.is_remote), "a started span is local")
    check(sc.trace_flags == (1 if decision is Decision.RECORD_AND_SAMPLE else 0), "the sampled flag is the decision")
    check(len(sc.trace_state) == (0 if ts is None else 1), "trace state of the sampler")
    if ts is not None:
        check(sc.trace_state.get("v") == "1", "trace state entries of the sampler")
    check(len(sampler.asked) == 1, "the sampler is asked once")
    a = sampler.asked[0]
    check(a[1] == sc.trace_id, "the sampler decides on the span's trace id")
    check(both(a[2] == name, a[3] is kind), "the sampler sees name and kind")
    check(both(a[4]["g"] == given["g"], len(a[5]) == 1), "the sampler sees attributes and links")
    check(get_current_span(a[0]).get_span_context().span_id == (0 if parent is None else parent.span_id) if how == "explicit" else True, "the sampler sees the parent context")
    recording = decision is not Decision.DROP
    check(span.is_recording() == recording, "records exactly as decided")
    check(len(rec.started) == (1 if recording else 0), "processors see the start of exactly the recording spans")
    if not recording:
        span.set_attribute("x", 1)
        span.end()
        check(len(rec.ended) == 0, "nothing ends at the processors for a dropped span")
        return
    check(rec.started[0] is span, "the started span is the one returned")
    if how == "explicit":
        check(rec.contexts[0] is ctx, "processors see the parent context")
    if valid_parent:
        p = span.parent
        check(p is not None, "the parent is recorded")
        check(both(p.trace_id == parent.trace_id, p.span_id == parent.span_id, p.is_remote == parent.is_remote, p.trace_flags == parent.trace_flags), "the recorded parent is the parent's context")
    else:
        check(span.parent is None, "no parent recorded for a root span")
    check(both(span.name == name, span.kind is kind, span.start_time == start), "name, kind and start time as given")
    check(len(span.links) == 1, "links as given")
    if extra is None:
        check(len(span.attributes) == 0, "attributes are those of the sampling result")
    else:
        check(len(span.attributes) == 1, "attributes are those of the sampling result")
        check(span.attributes["s"] == extra["s"], "sampler attribute on the span")
    span.end()
    check(both(len(rec.ended) == 1, rec.ended[0].context.span_id == ids.span_id), "the end is seen once")


@contract()
def resource_and_scope():
    """Spans carry the provider's resource and the tracer's instrumentation scope."""
    rec = Recorder()
    prov = make_provider(rec)
    n, v, u = sym_str("name"), sym_str("version"), sym_str("url")
    span = prov.get_tracer(n, v, u, {"a": 1}).start_span("s")
    check(span.resource is prov.resource, "resource of the provider")
    sc = span.instrumentation_scope
    check(both(sc.name == n, sc.version == v, sc.schema_url == u), "scope as requested")
    check(sc.attributes["a"] == 1, "scope attributes as requested")


@contract()
def child_of_started_span():
    """Spans started under a recording span, by context or as current span, are its children, to any of several levels."""
    decision = choose("decision", DECISIONS)
    rec = Recorder()

    class Seq(IdGenerator):
        n = 0

        def generate_trace_id(self):
            return t0

        def generate_span_id(self):
            self.n += 1
            return ids[self.n - 1]
    t0 = valid_trace_id("t0")
    ids = [valid_span_id("s" + str(i)) for i in range(3)]
    tracer = make_tracer(rec, AnySampler(decision, None, None), ids=Seq())
    with tracer.start_as_current_span("a", context=context_api.Context()) as a:
        with tracer.start_as_current_span("b") as b:
            c = tracer.start_span("c")
        d = context_api.get_current()
    for i, s in enumerate((a, b, c)):
        check(s.get_span_context().trace_id == t0, "one trace")
        check(s.get_span_context().span_id == ids[i], "own span id")
    if decision is not Decision.DROP:
        check(a.parent is None, "root")
        check(b.parent.span_id == ids[0], "parent of the second level")
        check(c.parent.span_id == ids[1], "parent of the third level")


@contract(assumes=["random.getrandbits(k) returns an integer in [0, 2**k); termination of the retry loop is not claimed"])
def random_ids():
    """Generated ids are valid whatever the random source returns (loop invariant, partial correctness)."""
    which = choose("which", ["trace", "span"])
    draws = ghost_list()

    def bits(k):
        v = sym_int("rand", 0, 2**k - 1)
        return v
    stub(random, "getrandbits", bits)
    loop_inv(lambda env, i: [env.trace_id >= 0, env.trace_id <= TRACE_MAX], key="generate_trace_id", is_while=True)
    loop_inv(lambda env, i: [env.span_id >= 0, env.span_id <= SPAN_MAX], key="generate_span_id", is_while=True)
    g = RandomIdGenerator()
    if which == "trace":
        t = g.generate_trace_id()
        check(both(t >= 1, t <= TRACE_MAX), "trace id valid")
    else:
        s = g.generate_span_id()
        check(both(s >= 1, s <= SPAN_MAX), "span id valid")


@contract()
def random_ids_pass_on():
    """An id drawn from the random source is used as drawn (all bits)."""
    which = choose("which", ["trace", "span"])
    width = 128 if which == "trace" else 64
    r = sym_int("rand", 1, 2**width - 1)
    asked = []

    def bits(k):
        asked.append(k)
        return r if k == width else 0
    stub(random, "getrandbits", bits)
    g = RandomIdGenerator()
    check((g.generate_trace_id() if which == "trace" else g.generate_span_id()) == r, "every drawn id can come out")


class ByName(Sampler):
    """Decides by the name of the span."""

    def __init__(self, by):
        self.by = by

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        return SamplingResult(*self.by[name])

    def get_description(self):
        return "by name"


@contract()
def decided_one_by_one():
    """Spans of one trace, from one tracer: each has the outcome the sampler decided for it, with its own attributes and trace state, and its own new span id."""
    rec = Recorder()
    decisions = [choose(f"decision{i}", DECISIONS if i == 1 else DECISIONS[::2]) for i in range(3)]
    values = [sym_int(f"v{i}") for i in range(3)]
    states = choose("states", [[None, TraceState([("k", "1")]), None], [TraceState([("k", "0")]), None, TraceState([("k", "2")])]])

    class Seq(IdGenerator):
        n = 0

        def generate_trace_id(self):
            return t0

        def generate_span_id(self):
            Seq.n += 1
            return Seq.n
    t0 = valid_trace_id("t0")
    Seq.n = 0
    names = ["a", "b", "c"]
    tracer = make_tracer(rec, ByName({n: (decisions[i], {"v": values[i], n: 1}, states[i]) for i, n in enumerate(names)}), ids=Seq())
    shape = choose("shape", ["chain", "siblings", "roots"])
    root = context_api.Context()
    spans = []
    for i, n in enumerate(names):
        ctx = root if shape == "roots" or not spans else set_span_in_context(spans[-1 if shape == "chain" else 0], root)
        spans.append(tracer.start_span(n, context=ctx))
    for i, s in enumerate(spans):
        c = s.get_span_context()
        check(c.trace_flags == (1 if decisions[i] is Decision.RECORD_AND_SAMPLE else 0), "the sampled flag is the decision")
        check(s.is_recording() == (decisions[i] is not Decision.DROP), "records exactly as decided")
        check(list(c.trace_state.items()) == ([] if states[i] is None else [("k", str(i))]), "its own trace state")
        if s.is_recording():
            check([k for k in s.attributes] == ["v", names[i]] and is_true(s.attributes["v"] == values[i]), "its own attributes")
            s.set_attribute("later", i)
    check([s.name for s in rec.started] == [n for n, d in zip(names, decisions) if d is not Decision.DROP], "processors see the recording ones")
    check(all("later" not in s.attributes or s.attributes["later"] == i for i, s in enumerate(spans) if s.is_recording()), "each its own attributes")
