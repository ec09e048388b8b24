"""T06: samplers decide by their published rule."""
from contracts.common import *
from opentelemetry.sdk.trace.sampling import ParentBased, ParentBasedTraceIdRatio, TraceIdRatioBased, DEFAULT_OFF, DEFAULT_ON, StaticSampler

FLOAT = "float arithmetic treated as real arithmetic; scaling by 2**64 is exact for doubles"


class Delegate(Sampler):
    def __init__(self, name):
        self.name = name
        self.calls = []
        self.result = SamplingResult(Decision.RECORD_ONLY)

    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        self.calls.append((parent_context, trace_id, name, kind, attributes, links))
        return self.result

    def get_description(self):
        return self.name


def ctx_of(parent):
    return context_api.Context() if parent is None else set_span_in_context(NonRecordingSpan(parent), context_api.Context())


def any_parent(name="parent"):
    k = choose(name + ".shape", ["none", "valid", "any"])
    if k == "none":
        return None
    return valid_context(name) if k == "valid" else any_context(name)


def sampled(s, tid, parent=None, attrs=None):
    r = s.should_sample(ctx_of(parent), tid, "n", SpanKind.INTERNAL, attrs, ())
    return r.decision is Decision.RECORD_AND_SAMPLE


@contract(assumes=[FLOAT])
def ratio_extremes_and_monotone():
    """Everything at 1, nothing at 0, and sampling is monotone in the ratio, for every 128-bit trace id."""
    t = sym_int("trace_id", 0, TRACE_MAX)
    check(sampled(TraceIdRatioBased(1.0), t), "ratio 1 samples everything")
    check(sampled(TraceIdRatioBased(1), t), "ratio 1 samples everything")
    check(not sampled(TraceIdRatioBased(0.0), t), "ratio 0 samples nothing")
    check(not sampled(TraceIdRatioBased(0), t), "ratio 0 samples nothing")
    lo, hi = sym_real("lo", 0, 1), sym_real("hi", 0, 1)
    assume(lo <= hi)
    if sampled(TraceIdRatioBased(lo), t):
        check(sampled(TraceIdRatioBased(hi), t), "sampled at every higher ratio")


@contract(assumes=[FLOAT])
def ratio_uses_low_bits_only():
    """The decision is the same for ids with the same low 64 bits, whatever the other inputs."""
    low, h1, h2 = sym_int("low", 0, SPAN_MAX), sym_int("h1", 0, SPAN_MAX), sym_int("h2", 0, SPAN_MAX)
    r = sym_real("ratio", 0, 1)
    s = TraceIdRatioBased(r)
    p = any_parent()
    a = s.should_sample(ctx_of(p), h1 * 2**64 + low, sym_str("name1"), choose("kind", [SpanKind.INTERNAL, SpanKind.SERVER]), {"a": 1}, None)
    b = TraceIdRatioBased(r).should_sample(None, h2 * 2**64 + low, sym_str("name2"), None, None, ())
    check(a.decision is b.decision, "same low bits and ratio, same decision")
    check(a.decision in (Decision.DROP, Decision.RECORD_AND_SAMPLE), "sample or drop")
    check(s.rate == r, "the ratio is kept")


@contract(assumes=[FLOAT])
def ratio_is_the_fraction():
    """The ids sampled are those below ratio * 2**64 (up to rounding of the bound)."""
    low = sym_int("low", 0, SPAN_MAX)
    r = sym_real("ratio", 0, 1)
    got = sampled(TraceIdRatioBased(r), low)
    if got:
        check(low <= r * 2**64, "sampled only below the bound")
    else:
        check(low + 1 >= r * 2**64, "dropped only above the bound")


@contract()
def ratio_range():
    """A ratio outside [0, 1] is refused, one inside is accepted."""
    r = sym_real("ratio")
    raised = False
    try:
        choose("cls", [TraceIdRatioBased, ParentBasedTraceIdRatio])(r)
    except ValueError:
        raised = True
    check(iff(raised, either(r < 0, r > 1)), "refused exactly outside [0, 1]")


@contract()
def parent_based_delegation():
    """ParentBased asks exactly the delegate the parent's validity, remote and sampled flags select, with the caller's arguments."""
    ds = {n: Delegate(n) for n in ("root", "rs", "rn", "ls", "ln")}
    s = ParentBased(ds["root"], ds["rs"], ds["rn"], ds["ls"], ds["ln"])
    p = any_parent()
    c = ctx_of(p)
    attrs, links = {"a": sym_int("a")}, [Link(SpanContext(1, 2, True))]
    t, name, kind = sym_int("trace_id", 0, TRACE_MAX), sym_str("name"), choose("kind", [SpanKind.INTERNAL, SpanKind.SERVER])
    how = choose("how", ["explicit", "current"])
    if how == "explicit":
        got = s.should_sample(c, t, name, kind, attrs, links)
    else:
        token = context_api.attach(c)
        got = s.should_sample(None, t, name, kind, attrs, links)
        context_api.detach(token)
    if p is None or is_true(neg(both(p.trace_id > 0, p.trace_id <= TRACE_MAX, p.span_id > 0, p.span_id <= SPAN_MAX))):
        want = "root"
    elif is_true(p.is_remote):
        want = "rs" if is_true(p.trace_flags % 2 == 1) else "rn"
    else:
        want = "ls" if is_true(p.trace_flags % 2 == 1) else "ln"
    for n in ds:
        check(len(ds[n].calls) == (1 if n == want else 0), "exactly the selected delegate is asked")
    k = ds[want].calls[0]
    check(both(k[1] == t, k[2] == name, k[3] is kind, k[4]["a"] == attrs["a"], len(k[5]) == 1), "the delegate gets the caller's arguments")
    if how == "explicit":
        check(k[0] is c, "the delegate gets the parent context")
    check(got is ds[want].result, "the delegate's result is returned")


@contract()
def defaults_of_parent_based():
    """Without delegates: sampled parents are sampled, others not; root as configured; DEFAULT_ON, DEFAULT_OFF and the ratio variant."""
    p = any_parent()
    t = sym_int("trace_id", 0, TRACE_MAX)
    which = choose("which", ["on", "off", "ratio1", "ratio0"])
    s = {"on": DEFAULT_ON, "off": DEFAULT_OFF, "ratio1": ParentBasedTraceIdRatio(1.0), "ratio0": ParentBasedTraceIdRatio(0.0)}[which]
    got = sampled(s, t, p)
    if p is None or is_true(neg(p.is_valid)):
        check(got == (which in ("on", "ratio1")), "root decision")
    else:
        check(iff(got, p.trace_flags % 2 == 1), "follows the parent's sampled flag")


@contract()
def built_in_results():
    """Built-in samplers pass on the valid parent's trace state and attach the given attributes only when sampling."""
    which = choose("which", ["on", "off", "ratio", "record"])
    s = {"on": ALWAYS_ON, "off": ALWAYS_OFF, "record": StaticSampler(Decision.RECORD_ONLY)}.get(which)
    if s is None:
        s = TraceIdRatioBased(sym_real("ratio", 0, 1))
    p = any_parent()
    t = sym_int("trace_id", 0, TRACE_MAX)
    v = sym_int("a")
    r = s.should_sample(ctx_of(p), t, sym_str("name"), SpanKind.CLIENT, {"a": v}, None)
    if which == "on":
        check(r.decision is Decision.RECORD_AND_SAMPLE, "always on samples")
    if which == "off":
        check(r.decision is Decision.DROP, "always off drops")
    if r.decision is Decision.DROP:
        check(len(r.attributes) == 0, "no attributes on a dropped span")
    else:
        check(len(r.attributes) == 1, "given attributes")
        check(r.attributes["a"] == v, "given attributes")
    ts = r.trace_state
    if p is None or is_true(neg(p.is_valid)):
        check(ts is None or len(ts) == 0, "no trace state without a valid parent")
    else:
        check(list(ts.items()) == list(p.trace_state.items()), "trace state of the parent")


@contract()
def chosen_by_environment():
    """OTEL_TRACES_SAMPLER selects the sampler (unknown names: the default), OTEL_TRACES_SAMPLER_ARG the ratio."""
    name = choose("name", [None, "always_on", "ALWAYS_OFF", "parentbased_always_on", "parentbased_always_off", "traceidratio", "ParentBased_TraceIdRatio", "nonsense", ""])
    arg = choose("arg", [None, "0.25", "0", "1", "x", ""])
    set_env(OTEL_TRACES_SAMPLER=name, OTEL_TRACES_SAMPLER_ARG=arg, OTEL_SDK_DISABLED=None)
    s = TracerProvider(resource=Resource({}), shutdown_on_exit=False).sampler
    low = (name or "").lower()
    rate = {"0.25": 0.25, "0": 0.0, "1": 1.0}.get(arg, 1.0)
    p = any_parent()
    t = sym_int("trace_id", 0, TRACE_MAX)
    got = sampled(s, t, p)
    valid = p is not None and is_true(p.is_valid)
    if low == "traceidratio" or low == "parentbased_traceidratio" and not valid:
        check(iff(got, t % 2**64 < round(rate * 2**64)), "ratio of the argument, 1 when it is unusable")
    elif low == "always_on":
        check(got, "always on")
    elif low == "always_off":
        check(not got, "always off")
    elif valid:
        check(iff(got, p.trace_flags % 2 == 1), "follows the parent")
    else:
        check(got == (low != "parentbased_always_off"), "root decision")
