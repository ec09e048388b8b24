"""P04: B3 propagation, single and multiple headers."""
from contracts.common import *
from opentelemetry.propagators.b3 import B3Format, B3MultiFormat, B3SingleFormat

SINGLE = B3SingleFormat()
MULTI = B3MultiFormat()
TRACE = "[0-9a-fA-F]{16}|[0-9a-fA-F]{32}"
SPAN = "[0-9a-fA-F]{16}"


def put(ctx):
    return set_span_in_context(NonRecordingSpan(ctx), context_api.Context({"k": "other"}))


def ids(r):
    n = r.choice([16, 32, 16, 32, 15, 17, 33, 0])
    if r.random() < .15:
        return "0" * n
    t = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(n))
    k = r.randrange(8)
    return t + "\n" if k == 0 else t[:-1] + r.choice(["g", "٣", " ", "-", "_"]) if k == 1 else t


def single(r):
    t = ids(r) + "-" + ids(r)[:16]
    return r.choice([t, t, t + "-1", t + "-0", t + "-d", t + "-1-" + "b" * 16, t + "-1-a-b", "0", "1", "d", "", "-", "--", "---", "----", t + "-", "x"])


def untouched(out, base):
    check(out is base, "otherwise the context is unchanged")


def extracted(out, base, trace_id, span_id):
    d = get_current_span(out).get_span_context()
    check(d.is_valid and d.is_remote, "a valid remote span context")
    check(d.trace_id == trace_id, "the trace id of the header")
    check(d.span_id == span_id, "the span id of the header")
    check(out["k"] == "other" and len(out) == 2 and len(base) == 1, "nothing else changes")
    check(len(d.trace_state) == 0, "no trace state")
    return d


@contract()
def round_trip():
    """inject then extract, any valid context, both formats: same ids and sampled decision, remote."""
    p = choose("format", [SINGLE, MULTI])
    c = valid_context()
    carrier = {"unrelated": "1"}
    p.inject(carrier, put(c))
    base = context_api.Context({"k": "other"})
    q = choose("reader", [SINGLE, MULTI])
    d = extracted(q.extract(carrier, base), base, c.trace_id, c.span_id)
    check(d.trace_flags.sampled == c.trace_flags.sampled, "the sampled decision")
    check(set(carrier) == p.fields | {"unrelated"}, "exactly the reported fields are written")


@contract()
def text_written():
    """The headers written have the layout of the format."""
    c = valid_context(state=TraceState())
    carrier = {}
    SINGLE.inject(carrier, put(c))
    check(re_full("[0-9a-f]{32}-[0-9a-f]{16}-[01]", carrier["b3"]), "the single header")
    carrier = {}
    MULTI.inject(carrier, put(c))
    check(re_full("[0-9a-f]{32}", carrier["x-b3-traceid"]), "the trace id header")
    check(re_full("[0-9a-f]{16}", carrier["x-b3-spanid"]), "the span id header")
    check(re_full("[01]", carrier["x-b3-sampled"]), "the sampled header")


@contract()
def nothing_is_injected():
    """Nothing for an invalid context; nothing without a span; the current context is the default."""
    p = choose("format", [SINGLE, MULTI])
    carrier = {}
    case = choose("case", 3)
    if case == 0:
        c = any_context()
        assume(neg(c.is_valid))
        p.inject(carrier, put(c))
        check(len(carrier) == 0, "nothing for an invalid context")
    elif case == 1:
        token = context_api.attach(put(valid_context(state=TraceState())))  # an explicitly given context, even an empty one, is used as it is
        p.inject(carrier, context_api.Context())
        context_api.detach(token)
        check(len(carrier) == 0, "nothing without a span")
    else:
        c, explicit = valid_context(state=TraceState()), {}
        token = context_api.attach(put(c))
        p.inject(carrier)
        context_api.detach(token)
        p.inject(explicit, put(c))
        check(carrier == explicit, "the current span by default")


@contract()
def single_header_fields():
    """A well-formed single header: its ids; sampled unless it says not."""
    t, s = sym_str("trace", pattern=TRACE), sym_str("span", pattern=SPAN)
    assume(neg(re_full("0*", t)))
    assume(neg(re_full("0*", s)))
    state = choose("state", [None, "1", "0", "d", "True", "true", "x", ""])
    h = t + "-" + s
    if state is not None:
        h = h + "-" + state
        if choose("parent", 2):
            h = h + "-" + sym_str("parentid", pattern="[^-]*", pool=["", "a" * 16, "zz"])
    base = context_api.Context({"k": "other"})
    p = choose("reader", [SINGLE, MULTI])
    d = extracted(p.extract({"b3": [h]}, base), base, int(t, 16), int(s, 16))
    check(d.trace_flags == (1 if state in (None, "1", "d", "True", "true") else 0), "the sampled decision")


@contract()
def single_header_unusable():
    """A single header with ids that are zero, or not 16 or 32 (16) hexadecimal digits, or with another number of fields: nothing is extracted."""
    case = choose("case", ["bad trace", "bad span", "zero trace", "zero span", "one field", "five fields"])
    t, s = sym_str("trace", pattern=TRACE), sym_str("span", pattern=SPAN)
    if case == "bad trace":
        t = sym_str("badtrace", pattern="[^-]*", pool=[ids])
        assume(neg(re_full(TRACE, t)))
    elif case == "bad span":
        s = sym_str("badspan", pattern="[^-]*", pool=[ids])
        assume(neg(re_full(SPAN, s)))
    elif case == "zero trace":
        t = choose("zeros", ["0" * 16, "0" * 32])
    elif case == "zero span":
        s = "0" * 16
    h = t + "-" + s + choose("state", ["", "-1", "-0-" + "b" * 16])
    if case == "one field":
        h = sym_str("field", pattern="[^-]*", pool=["0", "1", "d", "", "a" * 32])
    elif case == "five fields":
        h = t + "-" + s + "-1-x-" + sym_str("rest", pool=["", "y", "-"])
    base = context_api.Context({"k": "other"})
    untouched(choose("reader", [SINGLE, MULTI]).extract({"b3": [h]}, base), base)


@contract()
def multiple_headers():
    """Any texts in the x-b3 headers: a span is extracted exactly for well-formed non-zero ids, with those ids; sampled when either header says so."""
    t, s = sym_str("trace", pool=[ids, "a" * 32]), sym_str("span", pool=[ids, "b" * 16])
    sampled = choose("sampled", [None, "1", "0", "d", "True", "true", "", "x"])
    flags = choose("flags", [None, "1", "0"])
    carrier = {"x-b3-traceid": [t], "x-b3-spanid": [s]}
    if sampled is not None:
        carrier["x-b3-sampled"] = [sampled]
    if flags is not None:
        carrier["x-b3-flags"] = [flags]
    base = context_api.Context({"k": "other"})
    out = choose("reader", [SINGLE, MULTI]).extract(carrier, base)
    good = both(re_full(TRACE, t), re_full(SPAN, s), neg(re_full("0*", t)), neg(re_full("0*", s)))
    if is_true(good):
        d = extracted(out, base, int(t, 16), int(s, 16))
        check(d.trace_flags == (1 if sampled in ("1", "d", "True", "true") or flags == "1" else 0), "the sampled decision")
    else:
        untouched(out, base)


@contract()
def any_headers():
    """Any texts in every header: never raises; a valid remote span context or an unchanged context."""
    carrier = {}
    if choose("which", 2):
        carrier["b3"] = [sym_str("b3", pool=[single])]
    else:
        carrier = {"x-b3-traceid": [sym_str("trace", pool=[ids])], "x-b3-spanid": sym_str("span", pool=[ids]),
                   "x-b3-sampled": [sym_str("sampled", pool=["1", "", "d", "x"])], "x-b3-flags": [sym_str("flags", pool=["1", "0", ""])]}
    base = context_api.Context({"k": "other"})
    out = choose("reader", [SINGLE, MULTI]).extract(carrier, base)
    if out is base:
        return
    d = get_current_span(out).get_span_context()
    check(d.is_valid and d.is_remote, "a valid remote span context")
    check(out["k"] == "other" and len(out) == 2, "nothing else changes")


@contract()
def absent_headers():
    """Absent headers and empty lists: the context (or an empty one) is returned."""
    full = {"x-b3-traceid": ["a" * 32], "x-b3-spanid": ["b" * 16]}
    carrier = choose("carrier", [{}, {"b3": []}, {"b3": [""]}, {"x-b3-traceid": ["a" * 32]}, {"x-b3-spanid": ["a" * 16]}, {**full, "x-b3-traceid": []}, {**full, "x-b3-spanid": [""]}])
    p = choose("reader", [SINGLE, MULTI])
    base = context_api.Context({"k": "other"})
    untouched(p.extract(carrier, base), base)
    check(len(p.extract(carrier)) == 0, "an empty context by default")


@contract()
def used_before():
    """What a propagator was used for before does not matter."""
    used_propagator(choose("format", [B3MultiFormat, B3SingleFormat]), put, False)
