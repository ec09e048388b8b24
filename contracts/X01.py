"""X01: OTLP encoding of spans and log records is complete and faithful."""
import collections

from contracts.common import *
from opentelemetry._logs import SeverityNumber
from opentelemetry.exporter.otlp.proto.common import _internal as enc
from opentelemetry.exporter.otlp.proto.common._internal import _log_encoder as logenc
from opentelemetry.exporter.otlp.proto.common._internal import trace_encoder as trenc
from opentelemetry.proto.common.v1.common_pb2 import AnyValue, KeyValue
from opentelemetry.proto.logs.v1.logs_pb2 import LogRecord as PBLog
from opentelemetry.proto.trace.v1.trace_pb2 import Span as PBSpan
from opentelemetry.sdk._logs import LogData, LogLimits, LogRecord
from opentelemetry.sdk.trace import Event, ReadableSpan
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.trace import Link

U64 = 2 ** 64 - 1
WHOLE = (-(2 ** 63), 2 ** 63 - 1)
M = "opentelemetry.exporter.otlp.proto.common._internal"


def id_bytes(n, size):
    return n.to_bytes(size, "big")


def is_int(m, n):
    return both(m.WhichOneof("value") == "int_value", m.int_value == n)


def is_text(m, s):
    return both(m.WhichOneof("value") == "string_value", m.string_value == s)


# ---------------------------------------------------------------------------------------------------------- values
@contract()
def scalar_values():
    """A boolean, text, integer, float or bytes value keeps its type and content; an integer the protocol has no room for is refused."""
    kind = choose("kind", ["bool", "str", "int", "float", "bytes", "none"])
    null = choose("allow_null", [False, True])
    if kind == "bool":
        v = sym_bool("b")
        m = enc._encode_value(v, null)
        check(both(m.WhichOneof("value") == "bool_value", m.bool_value == v), "the boolean")
    elif kind == "str":
        v = sym_str("s")
        check(is_text(enc._encode_value(v, null), v), "the text")
    elif kind == "int":
        v = sym_int("n")
        try:
            m = enc._encode_value(v, null)
        except ValueError:
            check(either(v < WHOLE[0], v > WHOLE[1]), "only an integer beyond 64 bits is refused")
        else:
            check(is_int(m, v), "the integer")
    elif kind == "float":
        v = sym_real("x")
        m = enc._encode_value(v, null)
        check(both(m.WhichOneof("value") == "double_value", m.double_value == v), "the float")
    elif kind == "bytes":
        v = choose("bytes", [b"", b"\x00\xff", b"text"])
        m = enc._encode_value(v, null)
        check(both(m.WhichOneof("value") == "bytes_value", m.bytes_value == v), "the bytes")
    elif null:
        check(enc._encode_value(None, null) is None, "no value")
    else:
        try:
            enc._encode_value(None, null)
            fail("None is not encodable here")
        except Exception:
            pass


def any_element(tag):
    """An element of each of two kinds, by position, and what says that a message is its encoding."""
    ints, texts, isint = sym_fn(tag + ".int", "int", *WHOLE), sym_fn(tag + ".text", "str"), sym_fn(tag + ".isint", "bool")
    return (lambda i: ints(i) if is_true(isint(i)) else texts(i)), (lambda i, m: is_int(m, ints(i)) if is_true(isint(i)) else is_text(m, texts(i)))


@contract()
def sequences_of_any_length():
    """Each element, in order, with its own type."""
    elt, same = any_element("e")
    seq = sym_seq("seq", elt, pytype=choose("type", [list, tuple]))
    m = enc._encode_value(seq, choose("allow_null", [False, True]))
    check(m.WhichOneof("value") == "array_value", "an array")
    out = m.array_value.values
    check(length(out) == length(seq), "as many elements")
    i = sym_int("i", 0, big(10 ** 9))
    if is_true(i < length(seq)):
        check(same(i, item(out, i)), "each element in its place")


@contract()
def mappings_of_any_size():
    """Each key with its value, in order."""
    vals = sym_fn("v", "int", *WHOLE)
    d = sym_odict("map", vals)
    m = enc._encode_value(d, choose("allow_null", [False, True]))
    check(m.WhichOneof("value") == "kvlist_value", "a key-value list")
    out = m.kvlist_value.values
    check(length(out) == length(d), "as many entries")
    i = sym_int("i", 0, big(10 ** 9))
    if is_true(i < length(d)):
        k, v = item(list(d.items()) if not symbolic() else d.items(), i)
        check(item(out, i).key == k, "the key")
        check(is_int(item(out, i).value, v), "the value")


ENCODE_VALUE = enc._encode_value


@contract()
def nested_values():
    """Structural induction: whatever the encodings of its elements are, a sequence or mapping holds exactly those, in order; None where it is allowed is an empty value."""
    null = choose("allow_null", [False, True])
    name = sym_fn("encoding", "str", arg="int")
    asked = []

    def encoded(value, allow_null=False):
        asked.append(allow_null)
        return AnyValue(string_value=name(value))

    stub(enc, "_encode_value", encoded)
    n = choose("n", 4)
    nones = [null and choose("none", 2) == 1 for _ in range(n)]
    vs = [None if nones[i] else sym_int("element") for i in range(n)]
    form = choose("form", ["list", "tuple", "dict", "odd keys"])
    if form in ("dict", "odd keys"):
        if any(nones):
            stub(enc, "_encode_value", lambda value, allow_null=False: None if value is None else encoded(value, allow_null))
        keys = [f"k{i}" if form == "dict" else i for i in range(n)]
        m = ENCODE_VALUE({k: v for k, v in zip(keys, vs)}, null)
        check(m.WhichOneof("value") == "kvlist_value", "a key-value list")
        out = [kv.value for kv in m.kvlist_value.values]
        check([kv.key for kv in m.kvlist_value.values] == [str(k) for k in keys], "the keys in order")
        check([not kv.HasField("value") for kv in m.kvlist_value.values] == nones, "a value unless it is None")
    else:
        m = ENCODE_VALUE(vs if form == "list" else tuple(vs), null)
        check(m.WhichOneof("value") == "array_value", "an array")
        out = list(m.array_value.values)
    check(len(out) == n, "as many")
    for i in range(n):
        if nones[i]:
            check(out[i].WhichOneof("value") is None, "no value")
        else:
            check(is_text(out[i], name(vs[i])), "the element's encoding")
    check(all(a == null for a in asked), "nested None is treated alike")


class Odd:
    """A value the protocol has no type for."""


@contract()
def other_types_are_refused():
    v = choose("v", [Odd(), {1}, 1 + 2j, object()])
    null = choose("allow_null", [False, True])
    nest = choose("nest", ["plain", "list", "dict", "deep"])
    x = {"plain": v, "list": [1, v], "dict": {"a": v}, "deep": {"a": [{"b": (v,)}]}}[nest]
    refused = False
    try:
        enc._encode_value(x, null)
    except Exception:
        refused = True
    check(refused, "an exception, for the caller to skip the value")


# ------------------------------------------------------------------------------------------------------ attributes
def pb_attribute(key, value):
    return KeyValue(key=key, value=AnyValue(int_value=value))


def any_attributes(tag):
    """For loop_inv(locals_=...): a local list of any number of encoded attributes."""
    l = ghost_list()

    def make(t, i):
        v = ghost_fn(t + ".v", "int")(i)
        assume(both(WHOLE[0] <= v, v <= WHOLE[1]))
        return pb_attribute(ghost_fn(t + ".k", "str")(i), v)

    havoc_list(l, make)
    return l


@contract()
def attributes_of_any_number():
    """Every encodable attribute, in order, with its key; one that is not is skipped and nothing else is."""
    vals = sym_fn("v", "int")
    d = sym_odict("attrs", vals, conc_max=5)
    ok = lambda i: both(WHOLE[0] <= vals(i), vals(i) <= WHOLE[1])
    j = sym_int("j", 0, big(10 ** 9))
    if symbolic():
        cnt = ghost_fn("kept", "int")
        assume(cnt(0) == 0)

        def clauses(env, i):
            if is_true(i > 0):
                assume(cnt(i) == cnt(i - 1) + ite(ok(i - 1), 1, 0))
            out = env.pb2_attributes
            return [length(out) == cnt(i), cnt(i) >= 0, is_true(neg(both(j < i, ok(j)))) or item_is(out, cnt(j), d, j, vals)]

        loop_inv(clauses, key="common._internal:_encode_attributes", locals_={"pb2_attributes": any_attributes})
    out = enc._encode_attributes(d)
    if is_true(length(d) == 0):
        check(out is None or length(out) == 0, "no attributes")
        return
    if symbolic():
        if is_true(both(j < length(d), ok(j))):
            check(is_true(item_is(out, cnt(j), d, j, vals)), "the attribute, after those before it")
        check(length(out) == cnt(length(d)), "no other")
    else:
        items = [(k, v) for k, v in d.items() if WHOLE[0] <= v <= WHOLE[1]]
        check([(m.key, m.value.int_value) for m in out] == items, "exactly the encodable ones, in order")


def item_is(out, at, d, j, vals):
    if not is_true(both(0 <= at, at < length(out))):
        return False
    m = item(out, at)
    return both(m.key == item(d.keys() if symbolic() else list(d), j), is_int(m.value, vals(j)))


@contract()
def one_bad_attribute_loses_nothing_else():
    bad = choose("bad", [Odd(), 2 ** 63, -(2 ** 63) - 1, [1, None], [Odd()], {"k": Odd()}, None])
    at = choose("at", 3)
    a, b = sym_str("a"), sym_bool("b")
    attrs = {}
    if at == 0:
        attrs["bad"] = bad
    attrs["a"] = a
    if at == 1:
        attrs["bad"] = bad
    attrs["b"] = [b, False]
    if at == 2:
        attrs["bad"] = bad
    out = enc._encode_attributes(attrs)
    check(len(out) == 2 and [m.key for m in out] == ["a", "b"], "the others, in order")
    check(is_text(out[0].value, a), "unchanged")
    vs = out[1].value.array_value.values
    check(both(len(vs) == 2, vs[0].bool_value == b, vs[0].WhichOneof("value") == "bool_value"), "booleans stay booleans")


# ----------------------------------------------------------------------------------------------------------- spans
def any_time(name):
    return sym_int(name, 0, U64)


def any_count(name):
    return sym_int(name, 0, 2 ** 32 - 1)


def any_span_context(tag):
    ctx = SpanContext(valid_trace_id(tag + ".trace"), valid_span_id(tag + ".span"), choose(tag + ".remote", [False, True]))
    return ctx


def a_span(name="s", **kw):
    args = dict(context=SpanContext(1, 2, False), resource=Resource({}), start_time=1, end_time=2)
    args.update(kw)
    return ReadableSpan(name, **args)


class Counts(ReadableSpan):
    """A span whose dropped counts are the given ones."""

    def __init__(self, counts, *a, **kw):
        super().__init__(*a, **kw)
        self._counts = counts

    dropped_attributes = property(lambda self: self._counts[0])
    dropped_events = property(lambda self: self._counts[1])
    dropped_links = property(lambda self: self._counts[2])


KINDS = [("INTERNAL", 1), ("SERVER", 2), ("CLIENT", 3), ("PRODUCER", 4), ("CONSUMER", 5)]


@contract()
def span_fields():
    """Ids, parent, name, kind, times, status, dropped counts, parent flag: each arrives unchanged."""
    t, s = valid_trace_id(), valid_span_id()
    ctx = SpanContext(t, s, choose("own remote", [False, True]), TraceFlags(any_flags()), small_trace_state())
    parent = any_span_context("parent") if choose("has parent", 2) else None
    kname, kvalue = choose("kind", KINDS)
    code = choose("code", list(StatusCode))
    text = sym_str("description") if code is StatusCode.ERROR and choose("described", 2) else None
    counts = (any_count("attributes"), any_count("events"), any_count("links"))
    name, start, end = sym_str("name"), any_time("start"), any_time("end")
    span = Counts(counts, name, context=ctx, parent=parent, resource=Resource({}), kind=SpanKind[kname], status=Status(code, text), start_time=start, end_time=end)
    m = trenc._encode_span(span)
    check(m.trace_id == id_bytes(t, 16), "trace id")
    check(m.span_id == id_bytes(s, 8), "span id")
    check(m.parent_span_id == (b"" if parent is None else id_bytes(parent.span_id, 8)), "parent span id, none without a parent")
    check(m.trace_state == ctx.trace_state.to_header(), "trace state")
    check(m.name == name, "name")
    check(m.kind == kvalue, "kind")
    check(both(m.start_time_unix_nano == start, m.end_time_unix_nano == end), "times")
    check(m.status.code == {StatusCode.UNSET: 0, StatusCode.OK: 1, StatusCode.ERROR: 2}[code], "status code")
    check(m.status.message == ("" if text is None else text), "status description")
    check(both(m.dropped_attributes_count == counts[0], m.dropped_events_count == counts[1], m.dropped_links_count == counts[2]), "dropped counts")
    check(m.flags == 256 + (512 if parent is not None and parent.is_remote else 0), "whether the parent is remote")
    check(len(m.attributes) == 0 and len(m.events) == 0 and len(m.links) == 0, "nothing else")


@contract()
def unfinished_or_minimal_span():
    """Values a span may lack: times, status, attributes, events and links."""
    span = a_span(start_time=None, end_time=None, status=None, attributes=choose("attributes", [None, {}]))
    m = trenc._encode_span(span)
    check(m.start_time_unix_nano == 0 and m.end_time_unix_nano == 0, "no times")
    check(len(m.attributes) == 0 and len(m.events) == 0 and len(m.links) == 0, "nothing")


@contract()
def span_attributes():
    k, v = sym_str("key"), sym_str("value")
    assume(neg(k == ""))
    assume(neg(k == "n"))
    n = sym_int("n", *WHOLE)
    m = trenc._encode_span(a_span(attributes={k: v, "n": n}))
    check(len(m.attributes) == 2, "both attributes")
    check(both(m.attributes[0].key == k, is_text(m.attributes[0].value, v)), "the first")
    check(both(m.attributes[1].key == "n", is_int(m.attributes[1].value, n)), "the second")


class AnEvent(Event):
    """An event whose dropped count is any number."""

    def __init__(self, name, attributes, timestamp, dropped):
        super().__init__(name, attributes, timestamp)
        self._dropped = dropped

    dropped_attributes = property(lambda self: self._dropped)


class ALink(Link):
    def __init__(self, context, attributes, dropped):
        super().__init__(context, attributes)
        self._dropped = dropped

    dropped_attributes = property(lambda self: self._dropped)


@contract()
def events_of_any_number():
    """Every event, in order, with its name, time, attributes and dropped count."""
    names, times, counts, vals = sym_fn("name", "str"), sym_fn("time", "int", 0, U64), sym_fn("dropped", "int", 0, 2 ** 32 - 1), sym_fn("v", "str")
    bare = sym_fn("bare", "bool")
    events = sym_seq("events", lambda i: AnEvent(names(i), {} if is_true(bare(i)) else {"k": vals(i)}, times(i), counts(i)), min_len=1)
    j = sym_int("j", 0, big(10 ** 9))

    def same(m, i):
        if not is_true(length(m.attributes) == (0 if is_true(bare(i)) else 1)):
            return False
        return both(m.name == names(i), m.time_unix_nano == times(i), m.dropped_attributes_count == counts(i)) if is_true(bare(i)) else both(
                    m.name == names(i), m.time_unix_nano == times(i), m.dropped_attributes_count == counts(i), m.attributes[0].key == "k", is_text(m.attributes[0].value, vals(i)))

    if symbolic():
        def clauses(env, i):
            out = env.pb2_events
            return [length(out) == i, is_true(neg(j < i)) or (is_true(j < length(out)) and same(item(out, j), j))]

        def any_events(tag):
            l = ghost_list()
            havoc_list(l, lambda t, i: PBSpan.Event(
                name=ghost_fn(t + ".n", "str")(i), time_unix_nano=in_range(ghost_fn(t + ".t", "int")(i), 0, U64),
                attributes=[] if is_true(bare(i)) else [KeyValue(key=ghost_fn(t + ".k", "str")(i), value=AnyValue(string_value=ghost_fn(t + ".v", "str")(i)))],
                dropped_attributes_count=in_range(ghost_fn(t + ".d", "int")(i), 0, 2 ** 32 - 1)))
            return l

        loop_inv(clauses, over="events", locals_={"pb2_events": any_events})
    out = trenc._encode_events(events)
    check(length(out) == length(events), "as many")
    if is_true(j < length(events)):
        check(same(item(out, j), j), "each in its place")


def in_range(x, lo, hi):
    assume(both(lo <= x, x <= hi))
    return x


@contract()
def links_of_any_number():
    """Every link, in order, with its ids, attributes, dropped count and whether it is remote."""
    tids, sids = sym_fn("trace", "int", 1, 2 ** 128 - 1), sym_fn("span", "int", 1, U64)
    counts, vals, remote = sym_fn("dropped", "int", 0, 2 ** 32 - 1), sym_fn("v", "str"), sym_fn("remote", "bool")
    bare = sym_fn("bare", "bool")
    links = sym_seq("links", lambda i: ALink(SpanContext(tids(i), sids(i), remote(i)), {} if is_true(bare(i)) else {"k": vals(i)}, counts(i)), min_len=1)
    j = sym_int("j", 0, big(10 ** 9))

    def same(m, i):
        if not is_true(length(m.attributes) == (0 if is_true(bare(i)) else 1)):
            return False
        base = both(m.trace_id == id_bytes(tids(i), 16), m.span_id == id_bytes(sids(i), 8), m.dropped_attributes_count == counts(i), m.flags == ite(remote(i), 768, 256))
        return base if is_true(bare(i)) else both(base, m.attributes[0].key == "k", is_text(m.attributes[0].value, vals(i)))

    if symbolic():
        def clauses(env, i):
            out = env.pb2_links
            return [length(out) == i, is_true(neg(j < i)) or (is_true(j < length(out)) and same(item(out, j), j))]

        def any_links(tag):
            l = ghost_list()
            havoc_list(l, lambda t, i: PBSpan.Link(
                trace_id=in_range(ghost_fn(t + ".t", "int")(i), 0, 2 ** 128 - 1).to_bytes(16, "big"), span_id=in_range(ghost_fn(t + ".s", "int")(i), 0, U64).to_bytes(8, "big"),
                attributes=[] if is_true(bare(i)) else [KeyValue(key=ghost_fn(t + ".k", "str")(i), value=AnyValue(string_value=ghost_fn(t + ".v", "str")(i)))],
                dropped_attributes_count=in_range(ghost_fn(t + ".d", "int")(i), 0, 2 ** 32 - 1), flags=in_range(ghost_fn(t + ".f", "int")(i), 0, 2 ** 32 - 1)))
            return l

        loop_inv(clauses, over="links", locals_={"pb2_links": any_links})
    out = trenc._encode_links(links)
    check(length(out) == length(links), "as many")
    if is_true(j < length(links)):
        check(same(item(out, j), j), "each in its place")


@contract()
def span_carries_its_events_and_links():
    n = choose("n", 3)
    es = [Event(sym_str(f"e{i}"), {}, any_time(f"t{i}")) for i in range(n)]
    ls = [Link(SpanContext(valid_trace_id(f"lt{i}"), valid_span_id(f"ls{i}"), False)) for i in range(choose("links", 3))]
    m = trenc._encode_span(a_span(events=es, links=ls))
    check(len(m.events) == n and len(m.links) == len(ls), "as many")
    for i in range(n):
        check(both(m.events[i].name == es[i].name, m.events[i].time_unix_nano == es[i].timestamp), "each event")
    for i, l in enumerate(ls):
        check(both(m.links[i].trace_id == id_bytes(l.context.trace_id, 16), m.links[i].span_id == id_bytes(l.context.span_id, 8)), "each link")


# -------------------------------------------------------------------------------------------------------- grouping
SCOPES = [InstrumentationScope("a", "1", "url"), InstrumentationScope("a", "1", "url", {"k": "v"}), InstrumentationScope("a"), None]
RESOURCES = [Resource({"r": 1}), Resource({"r": 2}), Resource({"r": 1}, "https://s")]


def expected_groups(items):
    """Resources in order of first appearance, scopes in order of first appearance within each, items in order."""
    out = []
    for r, s, x in items:
        for gr, scopes in out:
            if gr == r:
                break
        else:
            scopes = []
            out.append((r, scopes))
        for gs, xs in scopes:
            if gs == s:
                break
        else:
            xs = []
            scopes.append((s, xs))
        xs.append(x)
    return out


def check_resource(m, r):
    check(m.schema_url == r.schema_url, "the resource's schema URL")
    check([(a.key, a.value.int_value) for a in m.resource.attributes] == list(r.attributes.items()), "the resource's attributes")


def check_scope(m, s):
    check(m.schema_url == (s.schema_url if s else ""), "the scope's schema URL")
    check(m.scope.name == (s.name if s else "") and m.scope.version == ((s.version or "") if s else ""), "the scope's name and version")
    check([(a.key, a.value.string_value) for a in m.scope.attributes] == (list(s.attributes.items()) if s else []), "the scope's attributes")


@contract()
def scope_fields():
    """Name, version and attributes of a scope, whichever of them it has."""
    name, v = sym_str("name"), sym_str("v")
    version = choose("version", [None, "", "given"])
    version = sym_str("version") if version == "given" else version
    attributes = choose("attributes", [None, {}, {"k": v}])
    m = enc._encode_instrumentation_scope(InstrumentationScope(name, version, choose("url", [None, "url"]), attributes))
    check(both(m.name == name, m.version == ("" if version is None else version)), "name and version")
    check(length(m.attributes) == (1 if attributes else 0), "as many attributes")
    if attributes:
        check(both(m.attributes[0].key == "k", is_text(m.attributes[0].value, v)), "the attribute")


@contract(bound="up to three spans")
def every_span_once_under_its_own_group():
    n = choose("n", 4)
    items = []
    for i in range(n):
        r = RESOURCES[choose(f"resource{i}", 3)]
        s = SCOPES[choose(f"scope{i}", 4)]
        items.append((r, s, sym_str(f"name{i}")))
    spans = [a_span(name, resource=Resource(r.attributes, r.schema_url), instrumentation_scope=s) for r, s, name in items]
    req = trenc.encode_spans(spans)
    want = expected_groups(items)
    check(len(req.resource_spans) == len(want), "one entry per resource")
    for m, (r, scopes) in zip(req.resource_spans, want):
        check_resource(m, r)
        check(len(m.scope_spans) == len(scopes), "one entry per scope")
        for sm, (s, names) in zip(m.scope_spans, scopes):
            check_scope(sm, s)
            check(len(sm.spans) == len(names), "as many spans")
            for x, name in zip(sm.spans, names):
                check(x.name == name, "each in order")


# ------------------------------------------------------------------------------------------------------------ logs
def a_record(**kw):
    args = dict(timestamp=1, observed_timestamp=2, trace_id=0, span_id=0, trace_flags=TraceFlags(0), severity_text=None, severity_number=SeverityNumber.INFO,
                body="b", resource=Resource({}), attributes=None)
    args.update(kw)
    return LogRecord(**args)


@contract()
def log_fields():
    """Times, ids, flags, severity, body, dropped count: each arrives unchanged; what a record may lack is left out."""
    set_env(OTEL_ATTRIBUTE_COUNT_LIMIT=None, OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT=None, OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT=None, OTEL_LOGRECORD_ATTRIBUTE_COUNT_LIMIT=None)
    t = choose("trace", ["given", "zero", None])
    t = sym_int("trace_id", 1, 2 ** 128 - 1) if t == "given" else 0 if t == "zero" else None
    s = choose("span", ["given", "zero", None])
    s = sym_int("span_id", 1, U64) if s == "given" else 0 if s == "zero" else None
    flags = choose("flagged", [True, False])
    flags = TraceFlags(any_flags()) if flags else None
    sev = choose("severity", [None, SeverityNumber.UNSPECIFIED, SeverityNumber.TRACE, SeverityNumber.ERROR3, SeverityNumber.FATAL4])
    at, seen = any_time("time"), any_time("observed")
    sevtext = sym_str("severity text")
    body = sym_str("body")
    r = a_record(timestamp=at, observed_timestamp=seen, trace_id=t, span_id=s, trace_flags=flags, severity_number=sev, severity_text=sevtext, body=body)
    m = logenc._encode_log(LogData(r, SCOPES[0]))
    check(both(m.time_unix_nano == at, m.observed_time_unix_nano == seen), "times")
    check(m.trace_id == (b"" if t is None or is_true(t == 0) else id_bytes(t, 16)), "trace id, none if there is none")
    check(m.span_id == (b"" if s is None or is_true(s == 0) else id_bytes(s, 8)), "span id, none if there is none")
    check(m.flags == (0 if flags is None else flags), "flags")
    check(m.severity_number == (0 if sev is None else sev.value) and is_true(m.severity_text == sevtext), "severity")
    check(is_text(m.body, body), "body")
    check(len(m.attributes) == 0 and m.dropped_attributes_count == 0, "nothing else")


@contract()
def log_body_and_attributes():
    """A structured body keeps its structure; a body that cannot be encoded is left out, and nothing else is."""
    n = sym_int("n", *WHOLE)
    body = choose("body", ["none", "dict", "empty", "odd", "too big", "nested odd", "bool"])
    b = {"none": None, "dict": {"a": [n, None, "x"], "b": None}, "empty": "", "odd": Odd(), "too big": 2 ** 64, "nested odd": {"a": [Odd()]}, "bool": False}[body]
    v = sym_str("v")
    m = logenc._encode_log(LogData(a_record(body=b, attributes={"k": v}), SCOPES[0]))
    if body in ("none", "odd", "too big", "nested odd"):
        check(not m.HasField("body"), "no body")
    elif body == "dict":
        check([kv.key for kv in m.body.kvlist_value.values] == ["a", "b"], "the keys")
        xs = m.body.kvlist_value.values[0].value.array_value.values
        check(both(len(xs) == 3, is_int(xs[0], n), xs[1].WhichOneof("value") is None, is_text(xs[2], "x")), "the elements")
        check(not m.body.kvlist_value.values[1].HasField("value"), "None within it")
    elif body == "empty":
        check(is_text(m.body, ""), "the empty text")
    else:
        check(both(m.body.WhichOneof("value") == "bool_value", m.body.bool_value == False), "false")
    check(len(m.attributes) == 1 and m.attributes[0].key == "k" and is_true(is_text(m.attributes[0].value, v)), "the attributes")


@contract()
def log_dropped_count():
    n = choose("limit", 4)
    r = a_record(attributes={"a": 1, "b": 2, "c": 3}, limits=LogLimits(max_attributes=n))
    m = logenc._encode_log(LogData(r, SCOPES[0]))
    check(len(m.attributes) == min(n, 3) and m.dropped_attributes_count == 3 - min(n, 3), "kept and dropped")


@contract(bound="up to three records")
def every_record_once_under_its_own_group():
    n = choose("n", 4)
    items = []
    for i in range(n):
        r = RESOURCES[choose(f"resource{i}", 3)]
        s = SCOPES[choose(f"scope{i}", 4)]
        items.append((r, s, sym_str(f"body{i}")))
    req = logenc.encode_logs([LogData(a_record(body=b, resource=Resource(r.attributes, r.schema_url)), s) for r, s, b in items])
    want = expected_groups(items)
    check(len(req.resource_logs) == len(want), "one entry per resource")
    for m, (r, scopes) in zip(req.resource_logs, want):
        check_resource(m, r)
        check(len(m.scope_logs) == len(scopes), "one entry per scope")
        for sm, (s, bodies) in zip(m.scope_logs, scopes):
            check_scope(sm, s)
            check(len(sm.log_records) == len(bodies), "as many records")
            for x, b in zip(sm.log_records, bodies):
                check(is_text(x.body, b), "each in order")


# three groups: two scopes of one resource, and one of these scopes of another resource
GROUPS = [(RESOURCES[0], SCOPES[0]), (RESOURCES[0], SCOPES[1]), (RESOURCES[2], SCOPES[0])]


def any_number_in_groups(make, local, encoding, text_of):
    """A batch of any number of items, each in one of the three groups, with the invariant of the loop that groups them.  It follows one
    arbitrary item: every group holds as many items as the batch had of it so far, and the item followed is in its place.
    make(resource, scope, text) is an item, encoding(text) its encoding, text_of the text of an encoding, local the variable with the groups."""
    grp, text = sym_fn("group", "int", 0, 2), sym_fn("text", "str")

    def at(i):
        r, s = GROUPS[0 if is_true(grp(i) == 0) else 1 if is_true(grp(i) == 1) else 2]
        return make(Resource(r.attributes, r.schema_url), s, text(i))

    batch = sym_seq("batch", at)
    j = sym_int("j", 0, big(10 ** 9))
    if not symbolic():
        cnt = [lambda i, g=g: len([k for k in range(i) if grp(k) == g]) for g in range(3)]
        return batch, j, grp, text, cnt
    cnt = [ghost_fn(f"count{g}", "int") for g in range(3)]
    for c in cnt:
        assume(c(0) == 0)
    factory, made = [], []

    def clauses(env, i):
        d = getattr(env, local)
        need(isinstance(d, dict) and all(isinstance(x, dict) for x in d.values()), "the groups are dictionaries of dictionaries")
        if not factory:
            factory.append(attr(d, "default_factory") if isinstance(d, collections.defaultdict) else None)
        if is_true(i > 0):
            for g, c in enumerate(cnt):
                assume(c(i) == c(i - 1) + ite(grp(i - 1) == g, 1, 0))
        out = [all([len(x) > 0 and all([any([r == q and s == t for q, t in GROUPS]) for s in x]) for r, x in d.items()])]
        for g, c in enumerate(cnt):
            xs = d.get(GROUPS[g][0], {}).get(GROUPS[g][1])
            out += [c(i) >= 0, c(i) <= i, c(i) == 0 if xs is None else both(length(xs) == c(i), c(i) > 0)]
            if is_true(both(j < i, grp(j) == g)):
                out += [c(j) >= 0, xs is not None and is_true(c(j) < length(xs)) and text_of(item(xs, c(j))) == text(j)]
        return out

    def groups(tag):
        made.clear()
        f = factory[0]
        d = {} if f is None else collections.defaultdict(f)
        for g, (r, s) in enumerate(GROUPS):
            if choose(f"{tag} has {g}", [True, False]):
                if r not in d:
                    d[r] = {} if f is None else f()
                    made.append(d[r])
                xs = ghost_list()
                havoc_list(xs, lambda t, i: encoding(ghost_fn(t, "str")(i)))
                d[r][s] = xs
                made.append(xs)
        made.append(d)
        return d

    loop_inv(clauses, over="batch", locals_={local: groups}, modifies=[lambda: list(made)])
    return batch, j, grp, text, cnt


def check_groups(out, inner, elements, text_of, batch, j, grp, text, cnt):
    n = length(batch)
    for g, (r, s) in enumerate(GROUPS):
        ms = [m for m in out if resource_is(m, r)]
        scopes = [x for m in ms for x in getattr(m, inner) if scope_is(x, s)]
        check(len(ms) <= 1 and len(scopes) <= 1, "one entry for a resource, and one for a scope of it")
        found = getattr(scopes[0], elements) if scopes else []
        check(length(found) == cnt[g](n), "as many under a resource and scope as the batch has of them")
        if is_true(both(j < n, grp(j) == g)):
            check(is_true(cnt[g](j) < length(found)) and is_true(text_of(item(found, cnt[g](j))) == text(j)), "each under its own, in order")
    check(all([any([resource_is(m, r) for r, _ in GROUPS]) for m in out]), "no other resource")
    check(len([x for m in out for x in getattr(m, inner)]) <= 3, "no other scope")


def resource_is(m, r):
    return m.schema_url == r.schema_url and [(a.key, a.value.int_value) for a in m.resource.attributes] == list(r.attributes.items())


def scope_is(m, s):
    return m.scope.name == s.name and m.scope.version == (s.version or "") and m.schema_url == s.schema_url and \
        [(a.key, a.value.string_value) for a in m.scope.attributes] == list(s.attributes.items())


@contract()
def spans_of_any_number_in_their_groups():
    """Any number of spans, of two resources and two scopes in any order: each appears once under its own, after the earlier ones of it."""
    batch, *rest = any_number_in_groups(lambda r, s, t: a_span(t, resource=r, instrumentation_scope=s), "sdk_resource_spans", lambda t: PBSpan(name=t), lambda m: m.name)
    req = trenc.encode_spans(batch)
    check_groups(req.resource_spans, "scope_spans", "spans", lambda m: m.name, batch, *rest)


@contract()
def records_of_any_number_in_their_groups():
    """Any number of log records, of two resources and two scopes in any order: each appears once under its own, after the earlier ones of it."""
    batch, *rest = any_number_in_groups(lambda r, s, t: LogData(a_record(severity_text=t, resource=r), s), "sdk_resource_logs", lambda t: PBLog(severity_text=t),
                                        lambda m: m.severity_text)
    req = logenc.encode_logs(batch)
    check_groups(req.resource_logs, "scope_logs", "log_records", lambda m: m.severity_text, batch, *rest)
