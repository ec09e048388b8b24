"""X04: Zipkin encoding keeps identity, timing and tags within limits."""
import json

from contracts.common import *
from opentelemetry.attributes import BoundedAttributes
from opentelemetry.exporter.zipkin import encoder as zenc
from opentelemetry.exporter.zipkin.json.v1 import JsonV1Encoder
from opentelemetry.exporter.zipkin.json.v2 import JsonV2Encoder
from opentelemetry.exporter.zipkin.node_endpoint import NodeEndpoint
from opentelemetry.sdk.trace import Event, ReadableSpan
from opentelemetry.sdk.util.instrumentation import InstrumentationScope

VERSIONS = [JsonV2Encoder, JsonV1Encoder]
ENDPOINT = {"serviceName": "svc"}
U64 = 2**64 - 1


class Counts(ReadableSpan):
    """A span whose dropped counts are the given ones."""

    def __init__(self, counts, *a, **kw):
        super().__init__(*a, **kw)
        self._counts = counts

    dropped_attributes = property(lambda self: self._counts[0])
    dropped_events = property(lambda self: self._counts[1])
    dropped_links = property(lambda self: self._counts[2])


def a_span(name="s", counts=(0, 0, 0), **kw):
    args = dict(context=SpanContext(1, 2, False), resource=Resource({}), start_time=1, end_time=2)
    args.update(kw)
    return Counts(counts, name, **args)


def tags_of(encoded):
    """Tags, whichever version."""
    if "binaryAnnotations" in encoded:
        check(all([b["endpoint"] is ENDPOINT for b in encoded["binaryAnnotations"]]), "annotations name the endpoint")
        return {b["key"]: b["value"] for b in encoded["binaryAnnotations"]}
    return encoded.get("tags", {})


def cut(text, limit):
    """The text within the limit."""
    if limit is None or is_true(limit <= 0):
        return text
    return text[:limit]


def some_limit():
    return choose("limit.kind", [None, 0, 1, 2, 128]) if choose("limit.fixed", [True, False]) else sym_int("limit", 3, 2**31)


# ------------------------------------------------------------------------------------ identity and timing
@contract()
def identity_of_a_span():
    enc = choose("version", VERSIONS)()
    flags = choose("sampled", [0, 1])
    ctx = SpanContext(valid_trace_id("trace"), valid_span_id("span"), False, TraceFlags(flags))
    parent = SpanContext(ctx.trace_id, valid_span_id("parent"), choose("remote", [False, True])) if choose("child", [False, True]) else None
    name = sym_str("name")
    kind = choose("kind", [SpanKind.INTERNAL, SpanKind.SERVER, SpanKind.CLIENT, SpanKind.PRODUCER, SpanKind.CONSUMER])
    e = enc._encode_span(a_span(name, context=ctx, parent=parent, kind=kind), ENDPOINT)
    for key, length_, number in (("traceId", 32, ctx.trace_id), ("id", 16, ctx.span_id)):
        check(both(length(e[key]) == length_, re_full("[0-9a-f]*", e[key])), "an id of full width")
        check(int(e[key], 16) == number, "the id of the span")
    check(e["name"] == name, "its name")
    if parent is None:
        check("parentId" not in e, "no parent")
    else:
        check(both(length(e["parentId"]) == 16, int(e["parentId"], 16) == parent.span_id), "the id of the parent")
    check(e.get("debug", False) == (flags == 1), "the debug flag")


@contract()
def timing_of_a_span():
    enc = choose("version", VERSIONS)()
    start = sym_int("start", 0, U64)
    end = sym_int("end", 0, U64)
    assume(start <= end)
    e = enc._encode_span(a_span(start_time=start, end_time=end), ENDPOINT)
    check(both(-500 <= start - e["timestamp"] * 1000, start - e["timestamp"] * 1000 <= 500), "the start, to the nearest microsecond")
    d = end - start
    check(both(-500 <= d - e["duration"] * 1000, d - e["duration"] * 1000 <= 500), "the duration, to the nearest microsecond")


@contract()
def kind_and_endpoint_of_a_span():
    kind, want = choose("kind", [(SpanKind.INTERNAL, None), (SpanKind.SERVER, "SERVER"), (SpanKind.CLIENT, "CLIENT"), (SpanKind.PRODUCER, "PRODUCER"), (SpanKind.CONSUMER, "CONSUMER")])
    e = JsonV2Encoder()._encode_span(a_span(kind=kind), ENDPOINT)
    check(e["kind"] == want, "the kind of the span")
    check(e["localEndpoint"] is ENDPOINT, "the local endpoint")


@contract()
def every_span_once_in_order():
    cls = choose("version", VERSIONS)
    enc = cls()
    g = sym_fn("span", "int")
    spans = sym_seq("spans", lambda i: Token(g(i)))
    stub(cls, "_encode_span", lambda self, span, endpoint: (span.n, endpoint["serviceName"]))
    seen = []
    stub_fn(json.dumps, lambda x, **kw: seen.append(x) or "text")
    j = sym_int("j", 0, big(10**9))
    if symbolic():
        loop_inv(lambda env, i: [length(env.encoded_spans) == i, is_true(neg(j < i)) or is_true(neg(j < length(env.encoded_spans))) or item(env.encoded_spans, j)[0] == g(j)], over="spans",
                 locals_={"encoded_spans": any_tokens})
    node = Node()
    check(enc.serialize(spans, node) == "text" and len(seen) == 1, "one document")
    out = seen[0]
    check(length(out) == length(spans), "as many spans")
    if is_true(j < length(spans)):
        check(item(out, j)[0] == g(j), "each in its place")


class Token:
    def __init__(self, n):
        self.n = n


class Node:
    service_name, ipv4, ipv6, port = "svc", None, None, None


def any_tokens(tag):
    l = ghost_list()
    havoc_list(l, lambda t, i: (ghost_fn(t, "int")(i), "svc"))
    return l


# ------------------------------------------------------------------------------------ tags
@contract()
def tag_of_an_attribute():
    """Every kind of value, any limit."""
    limit = some_limit()
    enc = choose("version", VERSIONS)(limit)
    kind = choose("kind", ["text", "whole", "flag", "real"])
    if kind == "text":
        v = text = sym_str("v")
    elif kind == "whole":
        v = sym_int("v", -big(2**63), big(2**63))
        text = str(v)
    elif kind == "flag":
        v = sym_bool("v")
        text = "true" if is_true(v) else "false"
    else:
        v = sym_real("v")
        text = str(v)
    where = choose("where", ["span", "resource"])
    key = sym_str("key", pattern="(?s:.+)")
    assume(both(key != "otel.status_code", key != "error"))
    s = a_span(attributes={key: v}) if where == "span" else a_span(resource=Resource({key: v}))
    tags = tags_of(enc._encode_span(s, ENDPOINT))
    check(len(tags) == 1, "one tag")
    for k, got in tags.items():
        check(k == key, "under the name of the attribute")
        check(got == cut(text, limit), "with its value, within the limit")


@contract()
def tags_of_any_number_of_attributes():
    limit = sym_int("limit", 1, 2**31) if choose("limited", [True, False]) else None
    enc = JsonV2Encoder(limit)
    text = sym_fn("text", "str")
    attrs = sym_odict("attrs", lambda i: text(i))
    keys = list(attrs)

    def kept(tags, i):
        ks = list(tags)
        return [length(tags) == i, forall(0, i, lambda j: both(item(ks, j) == item(keys, j), item(list(tags.values()), j) == (text(j) if limit is None else text(j)[:limit])))]

    if symbolic():
        loop_inv(lambda env, i: kept(env.tags, i), key="_extract_tags_from_dict", locals_={"tags": any_odict()})
    tags = enc._extract_tags_from_dict(attrs)
    for c in kept(tags, length(attrs)):
        check(c, "a tag for every attribute")


@contract(bound="up to three elements")
def sequences_as_json():
    n = choose("n", 4)
    kind = choose("kind", ["texts", "wholes", "flags", "gaps"])
    if kind == "gaps":
        vs = [choose(f"v{k}", [None, "x", ""]) for k in range(n)]
        ws = ["null" if v is None else '"' + v + '"' for v in vs]
    elif kind == "texts":
        vs = [sym_str(f"v{k}", pattern="[ a-z0-9]*") for k in range(n)]
        ws = ['"' + v + '"' for v in vs]
    elif kind == "wholes":
        vs = [sym_int(f"v{k}", -10**6, 10**6) for k in range(n)]
        ws = ['"' + str(v) + '"' for v in vs]
    else:
        vs = [choose(f"v{k}", [True, False]) for k in range(n)]
        ws = ['"true"' if v else '"false"' for v in vs]
    limited = choose("limited", [False, True])
    limit = sym_int("limit", 2, 60) if limited else choose("none", [None, 0])
    tags = JsonV2Encoder(limit)._encode_span(a_span(attributes={"k": tuple(vs)}), ENDPOINT)["tags"]
    if not limited:
        check(tags["k"] == "[" + joined(ws) + "]", "all elements")
        return
    check(length(tags["k"]) <= limit, "within the limit")
    best = "[]"
    for k in range(1, n + 1):
        t = "[" + joined(ws[:k]) + "]"
        if is_true(length(t) <= limit):
            best = t
    check(tags["k"] == best, "as many elements as fit")


def joined(ws):
    out = ""
    for k, w in enumerate(ws):
        out = out + ("," if k else "") + w
    return out


class Odd:
    pass


@contract()
def an_unrepresentable_attribute_loses_nothing_else():
    bad = choose("bad", [Odd(), {"k": 1}, {1, 2}, (1, 2)])
    at = choose("at", 3)
    a, b = sym_str("a"), sym_int("b", 0, 9)
    attrs = {}
    if at == 0:
        attrs["bad"] = bad
    attrs["a"] = a
    if at == 1:
        attrs["bad"] = bad
    attrs["b"] = b
    if at == 2:
        attrs["bad"] = bad
    limit = 1 if bad == (1, 2) else choose("limit", [None, 1, 128])
    tags = choose("version", VERSIONS)(limit)._extract_tags_from_dict(attrs)
    check(len(tags) == 2 and both(tags["a"] == cut(a, limit), tags["b"] == str(b)), "the others are there")


@contract()
def tags_of_scope_and_status():
    limit = some_limit()
    enc = choose("version", VERSIONS)(limit)
    name = sym_str("name")
    version = sym_str("version") if choose("versioned", [True, False]) else None
    scope = InstrumentationScope(name, version)
    code = choose("code", [StatusCode.UNSET, StatusCode.OK, StatusCode.ERROR])
    text = sym_str("text") if code is StatusCode.ERROR and choose("described", [True, False]) else None
    counts = choose("counted", [(0, 0, 0), (sym_int("a", 0, 2**40), sym_int("e", 0, 2**40), sym_int("l", 0, 2**40))])
    tags = tags_of(enc._encode_span(a_span(counts=counts, instrumentation_scope=scope, status=Status(code, text)), ENDPOINT))
    want = {"otel.library.name": name, "otel.scope.name": name}
    if version is not None:
        want.update({"otel.library.version": version, "otel.scope.version": version})
    if code is not StatusCode.UNSET:
        want["otel.status_code"] = code.name
    if code is StatusCode.ERROR:
        want["error"] = "" if text is None else text
    for k, n in (("attributes", counts[0]), ("events", counts[1]), ("links", counts[2])):
        if is_true(n > 0):
            want[f"otel.dropped_{k}_count"] = str(n)
    check({k for k in tags} == {k for k in want}, "scope, status and dropped counts, and nothing else")
    for k in want:
        check(tags[k] == cut(want[k], limit), "each with its value, within the limit")


@contract()
def spans_encoded_earlier_do_not_matter():
    """An encoder used for a span of another resource, scope, status and attributes before: the next span is encoded as by a new one, and what was encoded before stays as it is."""
    cls = choose("version", VERSIONS)
    k1, k2 = choose("keys", [("a", "a"), ("a", "b")])
    values = [sym_str(f"v{i}") for i in range(6)]
    first = a_span("first", (1, 2, 3), resource=Resource({k1: values[0], "only": "first"}), attributes={"x": values[1]}, instrumentation_scope=InstrumentationScope("one", "1"),
                   status=Status(StatusCode.ERROR, values[2]), events=[Event("e", {"x": "y"}, 5)])
    second = a_span("second", (0, 0, 0), resource=Resource({k2: values[3]}), attributes=choose("attributes", [None, {"x": values[4]}, {"y": values[4]}]),
                    instrumentation_scope=choose("scope", [None, InstrumentationScope("two")]), status=Status(StatusCode.UNSET))
    used, new = cls(), cls()
    a = used._encode_span(first, ENDPOINT)
    before = {k: v for k, v in tags_of(a).items()}
    b, want = used._encode_span(second, ENDPOINT), new._encode_span(second, ENDPOINT)
    got, tags = tags_of(b), tags_of(want)
    check({k for k in got} == {k for k in tags} == ({k2} | set(second.attributes or {}) | ({"otel.library.name", "otel.scope.name"} if second.instrumentation_scope else set())), "its own tags")
    check(is_true(got[k2] == cut(values[3], 128)) and all([is_true(got[k] == tags[k]) for k in tags]), "with its own values")
    check("annotations" not in b or not b["annotations"], "its own annotations")
    now = tags_of(a)
    check({k for k in now} == {k for k in before} and all([is_true(now[k] == before[k]) for k in before]), "what was encoded before stays")


# ------------------------------------------------------------------------------------ events
@contract()
def events_become_annotations_in_order():
    cls = choose("version", VERSIONS)
    name, at = sym_fn("event", "str", pattern="[a-z]*"), sym_fn("at", "int", 0, U64)
    events = sym_seq("events", lambda i: Event(name(i), {}, at(i)))
    j = sym_int("j", 0, big(10**9))

    def good(a, i):
        return both(a["value"] == '{"' + name(i) + '": {}}', -500 <= at(i) - a["timestamp"] * 1000, at(i) - a["timestamp"] * 1000 <= 500)

    if symbolic():
        loop_inv(lambda env, i: [length(env.annotations) == i, is_true(neg(j < i)) or is_true(neg(j < length(env.annotations))) or good(item(env.annotations, j), j)], over="events",
                 locals_={"annotations": any_annotations})
    out = cls()._extract_annotations_from_events(events)
    if out is None:
        check(length(events) == 0, "annotations for events")
        return
    check(length(out) == length(events), "as many annotations")
    if is_true(j < length(events)):
        check(good(item(out, j), j), "each in its place, with name and time")


def any_annotations(tag):
    l = ghost_list()
    havoc_list(l, lambda t, i: {"timestamp": ghost_fn(t + ".t", "int")(i), "value": ghost_fn(t + ".v", "str")(i)})
    return l


@contract()
def annotation_of_an_event():
    limit = some_limit()
    enc = choose("version", VERSIONS)(limit)
    text = sym_str("text", pattern="[ a-z]*")
    n = sym_int("n", 0, 99)
    at = sym_int("at", 0, U64)
    spare = [{}, {"t": text}, {"n": n}, {"t": text, "n": n, "b": True}]
    attrs = choose("attrs", spare)
    e = enc._encode_span(a_span(events=[Event("first", {}, 5), Event("name", attrs, at)]), ENDPOINT)
    out = e["annotations"]
    check(len(out) == 2, "an annotation for each event")
    check(out[0]["value"] == '{"first": {}}', "in order")
    parts = []
    if "b" in attrs:
        parts.append('"b": true')
    if "n" in attrs:
        parts.append('"n": ' + str(n))
    if "t" in attrs:
        parts.append('"t": "' + cut(text, limit) + '"')
    text = ""
    for k, p in enumerate(parts):
        text = text + (", " if k else "") + p
    check(out[1]["value"] == '{"name": {' + text + "}}", "the name and the attributes of the event")
    check(both(-500 <= at - out[1]["timestamp"] * 1000, at - out[1]["timestamp"] * 1000 <= 500), "the time of the event")
    if isinstance(enc, JsonV1Encoder):
        check(out[0]["endpoint"] is ENDPOINT and out[1]["endpoint"] is ENDPOINT, "the endpoint of the annotations")


@contract()
def the_local_endpoint():
    class Local:
        service_name = sym_str("service")
        ipv4 = choose("v4", [None, "192.168.0.1"])
        ipv6 = choose("v6", [None, "2001:db8::c001"])
        port = sym_int("port", 0, 65535) if choose("ported", [True, False]) else None
    e = choose("version", VERSIONS)()._encode_local_endpoint(Local())
    want = {"serviceName": Local.service_name}
    for k in ("ipv4", "ipv6", "port"):
        if getattr(Local, k) is not None:
            want[k] = getattr(Local, k)
    check({k for k in e} == {k for k in want}, "only what is known")
    for k in want:
        check(e[k] == want[k], "the endpoint as configured")
