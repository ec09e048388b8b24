"""P01: W3C trace context - lossless round trip, strict parsing."""
from contracts import common
from contracts.common import *
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator

PROP = TraceContextTextMapPropagator()
WELL_FORMED = r"[ \t]*[0-9a-f]{2}-[0-9a-f]{32}-[0-9a-f]{16}-[0-9a-f]{2}(-.*)?[ \t]*"


def headers(r):
    """Random headers of the native runs: well formed ones and near misses."""
    def hexs(n):
        return "".join(r.choice("0123456789abcdef") for _ in range(n))
    v, t, s, f = r.choice(["00", "01", "ff", "cc", hexs(2)]), r.choice([hexs(32), "0" * 32]) if r.random() < .3 else hexs(32), hexs(16) if r.random() < .9 else "0" * 16, hexs(2)
    x = f"{v}-{t}-{s}-{f}"
    k = r.randrange(10)
    if k == 0:
        return x.upper()
    if k == 1:
        return x + r.choice(["-", "-x", "-x ", "x", "\n", "-x\n", " \n", "--", " x"])
    if k == 2:
        return r.choice([" ", "\t", "\n", "x", "  "]) + x
    if k == 3:
        i = r.randrange(len(x))
        return x[:i] + r.choice(["g", "", "-", "A", " ", "٣"]) + x[i + 1:]
    return x


def put(name, ctx):
    return set_span_in_context(NonRecordingSpan(ctx), context_api.Context({"other": name}))


@contract()
def round_trip():
    """inject then extract, any valid context: ids, flags and trace state entries come back, marked remote; the rest of the context stays."""
    c = valid_context()
    carrier = {}
    PROP.inject(carrier, put("x", c))
    check("traceparent" in carrier, "a traceparent is written")
    check(iff("tracestate" in carrier, len(c.trace_state) > 0), "a tracestate is written exactly when there is one")
    base = context_api.Context({"k": "v"})
    out = PROP.extract(carrier, base)
    d = get_current_span(out).get_span_context()
    check(d.trace_id == c.trace_id, "trace id")
    check(d.span_id == c.span_id, "span id")
    check(d.trace_flags == c.trace_flags, "trace flags")
    check(d.is_valid, "valid")
    check(d.is_remote, "remote")
    check(list(d.trace_state.items()) == list(c.trace_state.items()), "trace state entries")
    check(out["k"] == "v", "other values stay")
    check(len(base) == 1, "the given context is not changed")


@contract()
def format_written():
    """The traceparent written has the version 00 layout of the specification."""
    c = valid_context(state=TraceState())
    carrier = {}
    PROP.inject(carrier, put("x", c))
    h = carrier["traceparent"]
    check(length(h) == 55, "55 characters")
    check(re_full("00-[0-9a-f]{32}-[0-9a-f]{16}-[0-9a-f]{2}", h), "version 00, lower-case hexadecimal")
    check(list(carrier) == ["traceparent"], "nothing else")


@contract()
def invalid_context_injects_nothing():
    c = any_context()
    assume(neg(c.is_valid))
    carrier = {}
    PROP.inject(carrier, put("x", c))
    check(len(carrier) == 0, "nothing is written for an invalid context")


@contract()
def no_span_injects_nothing():
    carrier = {}
    explicit = choose("explicit", 2)  # an explicitly given context without a span, even an empty one, is used as it is
    token = context_api.attach(put("x", valid_context()) if explicit else context_api.Context())
    try:
        PROP.inject(carrier, context_api.Context() if explicit else None)
    finally:
        context_api.detach(token)
    check(len(carrier) == 0, "nothing without a span")


@contract()
def current_context_is_the_default():
    """inject without a context uses the current one."""
    c = valid_context(state=TraceState())
    token = context_api.attach(put("x", c))
    carrier, explicit = {}, {}
    try:
        PROP.inject(carrier)
    finally:
        context_api.detach(token)
    PROP.inject(explicit, put("x", c))
    check(carrier["traceparent"] == explicit["traceparent"], "the current span is written")


@contract()
def strict_parsing():
    """extract, any header text: a span is extracted exactly from a well-formed header of a supported version with non-zero ids; otherwise the context is unchanged."""
    h = sym_str("traceparent", pool=[headers])
    carrier = {"traceparent": h if choose("list", 2) == 0 else [h]}
    base = context_api.Context({"k": "v"})
    out = PROP.extract(carrier, base)
    if out is base:
        check(either(neg(re_full(WELL_FORMED, h)),
                     re_full(r"[ \t]*ff-.*", h),
                     re_full(r"[ \t]*00-[0-9a-f]{32}-[0-9a-f]{16}-[0-9a-f]{2}-.*", h),
                     re_full(r"[ \t]*[0-9a-f]{2}-0{32}-.*", h),
                     re_full(r"[ \t]*[0-9a-f]{2}-[0-9a-f]{32}-0{16}-.*", h)), "only unusable headers are refused")
        return
    check(re_full(WELL_FORMED, h), "an accepted header is well formed")
    check(neg(re_full(r"[ \t]*ff-.*", h)), "version ff is refused")
    check(neg(re_full(r"[ \t]*00-[0-9a-f]{32}-[0-9a-f]{16}-[0-9a-f]{2}-.*", h)), "version 00 has nothing after the flags")
    check(neg(re_full(r"[ \t]*[0-9a-f]{2}-0{32}-.*", h)), "a zero trace id is refused")
    check(neg(re_full(r"[ \t]*[0-9a-f]{2}-[0-9a-f]{32}-0{16}-.*", h)), "a zero span id is refused")
    d = get_current_span(out).get_span_context()
    check(d.is_valid, "what is extracted is valid")
    check(d.is_remote, "and remote")
    check(out["k"] == "v" and len(out) == 2, "other values stay")


@contract()
def fields_are_the_headers_fields():
    """The ids and flags extracted are those written in the header, for every version but ff and any (non-version-00) tail."""
    v = sym_str("version", pattern="[0-9a-f]{2}")
    t = sym_str("trace", pattern="[0-9a-f]{32}")
    s = sym_str("span", pattern="[0-9a-f]{16}")
    f = sym_str("flags", pattern="[0-9a-f]{2}")
    assume(neg(v == "ff"))
    assume(neg(t == "0" * 32))
    assume(neg(s == "0" * 16))
    tail = ""
    if choose("tail", 2):
        tail = sym_str("tailtext", pattern="-[ -~]{0,9}")
        assume(neg(v == "00"))
    lead, trail = choose("lead", ["", " \t"]), choose("trail", ["", "\t "])
    out = PROP.extract({"traceparent": [lead + v + "-" + t + "-" + s + "-" + f + tail + trail]})
    d = get_current_span(out).get_span_context()
    check(d.is_valid, "a span is extracted")
    check(d.trace_id == int(t, 16), "its trace id")
    check(d.span_id == int(s, 16), "its span id")
    check(d.trace_flags == int(f, 16), "its flags")
    check(len(d.trace_state) == 0, "no trace state")


@contract()
def absent_or_empty_header():
    """Without a traceparent (absent, empty or an empty list) nothing changes, whatever the tracestate; the default is an empty context."""
    carrier = choose("carrier", [{}, {"traceparent": []}, {"traceparent": ""}, {"traceparent": [""]}, {"tracestate": ["a=1"]}])
    base = context_api.Context({"k": "v"})
    check(PROP.extract(carrier, base) is base, "the context is returned unchanged")
    check(len(PROP.extract(carrier)) == 0, "the default is an empty context")


@contract()
def any_tracestate_header():
    """Any tracestate text next to a usable traceparent: never an exception, the ids are extracted all the same, the entries are valid and at most 32."""
    n = choose("headers", 3)
    hs = [sym_str(f"tracestate{i}", pool=["a=1", "a=1,b=2", "a=1, a=2", "A=1", ",", " a=1 , b = 2", "a", "=", "a=1,,b=2,", "a==", "x@y=z", "a= b"]) for i in range(n)]
    trace_state_loops(sym_int("j", 0))
    out = PROP.extract({"traceparent": ["00-" + "1" * 32 + "-" + "2" * 16 + "-01"], "tracestate": hs})
    d = get_current_span(out).get_span_context()
    check(d.trace_id == int("1" * 32, 16) and d.span_id == int("2" * 16, 16) and d.trace_flags == 1, "ids and flags")
    check(d.is_valid and d.is_remote, "valid and remote")
    check(length(d.trace_state) <= 32, "at most 32 entries")


@contract()
def several_tracestate_headers():
    """The entries of several tracestate headers are extracted together, in order."""
    v = sym_str("v", pattern=TS_VALUE, pool=["1", " x"])
    hs = choose("headers", 4)
    lines, es = [(["a=" + v], ["a"]), (["a=" + v, "b=" + v], ["a", "b"]), (["a=" + v + ",c=" + v, "", "b=" + v], ["a", "c", "b"]), (["", "a=" + v], ["a"])][hs]
    out = PROP.extract({"traceparent": ["00-" + "1" * 32 + "-" + "2" * 16 + "-01"], "tracestate": lines})
    check(list(get_current_span(out).get_span_context().trace_state.items()) == [(k, v) for k in es], "all entries, in order")


@contract()
def fields():
    """The fields reported are exactly the headers inject can write."""
    c = valid_context()
    carrier = {}
    PROP.inject(carrier, put("x", c))
    check(all(k in PROP.fields for k in carrier), "every header written is reported")
    check(PROP.fields == {"traceparent", "tracestate"}, "the two headers of the specification")


@contract()
def used_before():
    """What a propagator was used for before does not matter."""
    stub(common, "valid_context", lambda name, state: SpanContext(0xabc, 0xdef, True, TraceFlags(1), state))
    stub(common, "valid_trace_id", lambda name: 0xabd)
    stub(common, "valid_span_id", lambda name: 0xdea)
    used_propagator(TraceContextTextMapPropagator, lambda c: put("x", c))
