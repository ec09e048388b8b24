"""P05: Jaeger propagation of span contexts and baggage."""
from contracts.common import *
from opentelemetry import baggage
from opentelemetry.propagators.jaeger import JaegerPropagator

PROP = JaegerPropagator()
TEXTS = ["1", "", " x ", "a,b", "é", "%41", "+", "a/b", "\n"]


def put(ctx):
    return set_span_in_context(NonRecordingSpan(ctx), context_api.Context({"k": "other"}))


def hexs(r):
    n = r.choice([1, 8, 16, 32, 33, 40])
    t = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n))
    k = r.randrange(10)
    return "0" * n if k == 0 else "-" + t if k == 1 else "0x" + t if k == 2 else "1_0" if k == 3 else "" if k == 4 else "zz" if k == 5 else t


def headers(r):
    h = ":".join([hexs(r), hexs(r), hexs(r), r.choice(["0", "1", "01", "3", "ff", "", "x", "-1", hexs(r)])])
    return r.choice([h, h, h, h + ":", h[1:], "", ":::", "::", "x"])


@contract()
def round_trip():
    """inject then extract, any valid context: same ids and sampled decision, remote."""
    c = valid_context()
    carrier = {"unrelated": "1"}
    PROP.inject(carrier, put(c))
    check(set(carrier) == PROP.fields | {"unrelated"}, "exactly the reported field is written")
    base = context_api.Context({"k": "other"})
    out = PROP.extract(carrier, base)
    d = get_current_span(out).get_span_context()
    check(d.is_valid and d.is_remote, "a valid remote span context")
    check(d.trace_id == c.trace_id and d.span_id == c.span_id, "the same ids")
    check(d.trace_flags.sampled == c.trace_flags.sampled, "the sampled decision")
    check(out["k"] == "other" and len(out) == 2 and len(base) == 1, "nothing else changes")


@contract()
def recording_span_round_trip():
    """The same for a recording span with a parent, or without."""
    parent = valid_context("parent", state=TraceState())
    span = make_tracer().start_span("s", context=put(parent) if choose("child", 2) else context_api.Context())
    carrier = {}
    PROP.inject(carrier, set_span_in_context(span, context_api.Context()))
    d = get_current_span(PROP.extract(carrier)).get_span_context()
    c = span.get_span_context()
    check(d.trace_id == c.trace_id and d.span_id == c.span_id, "the same ids")
    check(d.trace_flags.sampled == c.trace_flags.sampled, "the sampled decision")


@contract()
def baggage_round_trip():
    """Up to two baggage entries with any names and texts come back exactly; the existing baggage stays."""
    n = choose("n", 3)
    c, es = put(valid_context(state=TraceState())), []
    for i in range(n):
        k = sym_str(f"name{i}", pool=["a", "b", "uberctx-", "uberctx-a", "a b", ""])
        v = sym_str(f"value{i}", pool=TEXTS)
        for x, _ in es:
            assume(neg(x == k))
        c = baggage.set_baggage(k, v, c)
        es.append((k, v))
    carrier = {}
    PROP.inject(carrier, c)
    check(len(carrier) == 1 + n, "one header per entry")
    out = PROP.extract(carrier, context_api.Context({"k": "other"}))
    check(list(baggage.get_all(out).items()) == es, "the same baggage")
    check(out["k"] == "other", "nothing else changes")
    check(get_current_span(out).get_span_context().is_valid, "with the span context")


@contract()
def nothing_is_injected():
    carrier = {}
    case = choose("case", 3)
    if case == 0:
        c = any_context()
        assume(neg(c.is_valid))
        PROP.inject(carrier, put(c))
        check(len(carrier) == 0, "nothing for an invalid context")
    elif case == 1:
        token = context_api.attach(baggage.set_baggage("b", "1", put(valid_context(state=TraceState()))))
        PROP.inject(carrier, choose("given", [context_api.Context(), baggage.set_baggage("a", "1", context_api.Context())]))
        context_api.detach(token)
        check(len(carrier) == 0, "nothing without a span")
    else:
        c, explicit = valid_context(state=TraceState()), {}
        token = context_api.attach(put(c))
        PROP.inject(carrier)
        context_api.detach(token)
        PROP.inject(explicit, put(c))
        check(carrier == explicit, "the current span by default")


@contract()
def header_fields():
    """A header of four hexadecimal fields: its ids, whatever the number of digits and the parent; sampled exactly when the lowest flag bit is set."""
    digits = "[0-9a-f]{1,40}"
    t, s = sym_str("trace", pattern=digits), sym_str("span", pattern=digits)
    parent = sym_str("parent", pattern="[^:]*", pool=["0", "", "x", "b" * 16])
    flags = choose("flags", ["0", "1", "01", "2", "3", "fe", "ff"])
    base = context_api.Context({"k": "other"})
    out = PROP.extract({"uber-trace-id": [t + ":" + s + ":" + parent + ":" + flags]}, base)
    ti, si = int(t, 16), int(s, 16)
    if is_true(both(ti > 0, ti < 2**128, si > 0, si < 2**64)):
        d = get_current_span(out).get_span_context()
        check(d.trace_id == ti and d.span_id == si, "the ids of the header")
        check(d.is_remote, "remote")
        check(d.trace_flags == int(flags, 16) % 2, "the sampled decision")
    else:
        check(out is base, "ids out of range are refused")


@contract()
def any_header():
    """Any text in the trace header: never raises, never an invalid span context."""
    h = sym_str("header", pool=[headers])
    base = context_api.Context({"k": "other"})
    out = PROP.extract({"uber-trace-id": h if choose("list", 2) else [h]}, base)
    if out is base:
        return
    d = get_current_span(out).get_span_context()
    check(d.is_valid and d.is_remote, "a valid remote span context")
    check(out["k"] == "other" and len(out) == 2 and len(base) == 1, "nothing else changes")


@contract()
def four_fields_of_any_text():
    """Four fields of any text: never raises, never an invalid span context, nothing from a field that is no hexadecimal number."""
    fs = [sym_str(f"f{i}", pattern="[^:]*", pool=[hexs, "1", "x"]) for i in range(4)]
    base = context_api.Context({"k": "other"})
    out = PROP.extract({"uber-trace-id": [fs[0] + ":" + fs[1] + ":" + fs[2] + ":" + fs[3]]}, base)
    if out is base:
        return
    d = get_current_span(out).get_span_context()
    check(d.is_valid and d.is_remote, "a valid remote span context")


@contract()
def any_baggage_headers():
    """Whatever the baggage headers hold (any text, empty lists), extraction never raises; a header without a value is skipped."""
    v = sym_str("value", pool=TEXTS + ["%zz", "%"])
    carrier = {"uber-trace-id": [choose("id", ["1:2:0:1", "x", "", "0:0:0:0"])], "uberctx-a": choose("shape", [[], [v], v]), "other": "1"}
    out = PROP.extract(carrier, baggage.set_baggage("old", "1", context_api.Context()))
    check(baggage.get_baggage("old", out) == "1", "the existing baggage stays")
    check(baggage.get_baggage("other", out) is None, "only prefixed headers are baggage")


@contract()
def absent_header():
    carrier = choose("carrier", [{}, {"uber-trace-id": []}, {"uber-trace-id": [""]}, {"uber-trace-id": ""}])
    base = context_api.Context({"k": "other"})
    check(PROP.extract(carrier, base) is base, "the context is returned unchanged")
    check(len(PROP.extract(carrier)) == 0, "an empty context by default")


@contract()
def used_before():
    """What a propagator was used for before does not matter."""
    used_propagator(JaegerPropagator, put, False)
