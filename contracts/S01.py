"""S01: the OpenTracing shim keeps the meaning of tracing."""
from contracts.common import *
from opentelemetry import baggage as otel_baggage
from opentelemetry.shim import opentracing_shim as shim
from opentelemetry.shim.opentracing_shim import ScopeShim, SpanContextShim, SpanShim, TracerShim, util
from opentelemetry.trace import INVALID_SPAN_CONTEXT
from opentracing import Format, UnsupportedFormatException, child_of as child_of_reference, follows_from


def close_ns(ns, seconds):
    """ns nanoseconds are `seconds` seconds, up to the resolution of the clock."""
    d = ns - seconds * 10**9
    return both(d < 1, d > -1) if symbolic() else abs(ns - seconds * 1e9) < max(1, abs(seconds) * 1e-6)


def make_shim(rec, ids=None):
    return shim.create_tracer(make_provider(rec, ids=ids))


def shim_span(tracer, name, span_id):
    """A recording span started through the shim with a chosen id."""
    gen = tracer.unwrap().id_generator
    old = gen.span_id
    gen.span_id = span_id
    s = tracer.start_span(name, ignore_active_span=True)
    gen.span_id = old
    return s


def same_context(a, b):
    return both(a.trace_id == b.trace_id, a.span_id == b.span_id)


def references(shape):
    """(references argument, contexts of the usable ones in order)"""
    if shape is None:
        return None, []
    refs, usable = [], []
    for i, kind in enumerate(shape):
        c = INVALID_SPAN_CONTEXT if kind == "-" else valid_context("ref" + str(i), state=TraceState())
        refs.append((child_of_reference if kind == "c" else follows_from)(SpanContextShim(c)))
        if kind != "-":
            usable.append(c)
    return refs, usable


def parentage(shapes, starters):
    rec = Recorder()
    ids = FixedIds(valid_trace_id("new trace"), valid_span_id("new span"))
    tracer = make_shim(rec, ids)
    context_api.attach(context_api.Context())
    active = choose("active", ["nothing", "an OpenTelemetry span", "a shim scope", "a remote span"])
    current = None
    if active == "an OpenTelemetry span":
        s = shim_span(tracer, "outer", valid_span_id("active span")).unwrap()
        context_api.attach(set_span_in_context(s))
        current = s.get_span_context()
    elif active == "a shim scope":
        s = shim_span(tracer, "outer", valid_span_id("active span"))
        tracer.scope_manager.activate(s, False)
        current = s.unwrap().get_span_context()
    elif active == "a remote span":
        current = valid_context("active", state=TraceState())
        context_api.attach(set_span_in_context(NonRecordingSpan(current)))
    kind = choose("child_of", ["none", "span", "context"])
    given = None
    if kind == "span":
        given = shim_span(tracer, "parent", valid_span_id("parent span"))
        parent = given.unwrap().get_span_context()
    elif kind == "context":
        parent = valid_context("parent", state=TraceState())
        given = SpanContextShim(parent)
    refs, usable = references(choose("references", shapes))
    ignore = choose("ignore_active_span", [False, True])
    expected = parent if given is not None else usable[0] if usable else None if ignore else current
    name = sym_str("name")
    tag = sym_int("tag")
    started, traces = len(rec.started), ids.n_trace
    how = choose("how", starters)
    if how == "start_span":
        out = tracer.start_span(name, child_of=given, references=refs, tags={"t": tag}, ignore_active_span=ignore)
    else:
        scope = tracer.start_active_span(name, child_of=given, references=refs, tags={"t": tag}, ignore_active_span=ignore)
        check(isinstance(scope, ScopeShim), "a scope is returned")
        out = scope.span
    check(isinstance(out, SpanShim), "a shim span is returned")
    check(len(rec.started) == started + 1, "one span is started")
    span = rec.started[-1]
    check(out.unwrap() is span, "the shim wraps the span started")
    sc = span.get_span_context()
    check(out.context.unwrap() == sc, "its context is that of the span started")
    check(sc.span_id == ids.span_id, "it has an identity of its own")
    if expected is None:
        check(span.parent is None, "a root span has no parent")
        check(both(ids.n_trace == traces + 1, sc.trace_id == ids.trace_id), "a root span starts a trace")
    else:
        check(span.parent is not None, "the span has a parent")
        check(same_context(span.parent, expected), "the parent is the one asked for")
        check(sc.trace_id == expected.trace_id, "the span is in its parent's trace")
        check(ids.n_trace == traces, "no trace is started")
    check(span.name == name, "the operation name")
    check(len(span.attributes) == 1, "the tags")
    check(span.attributes["t"] == tag, "the tags")
    check(len(span.links) == len(usable), "a link for each usable reference")
    for i in range(len(usable)):
        check(same_context(span.links[i].context, usable[i]), "links in the order of the references")
    if how == "start_span":
        got = get_current_span().get_span_context()
        check(True if current is None and not got.is_valid else same_context(got, current) if current is not None else False, "starting does not activate")
        check(span.end_time is None, "the span is running")
    else:
        check(get_current_span() is span, "the span started is current")
        check(tracer.scope_manager.active is scope, "its scope is the active one")
        check(tracer.active_span is out, "its shim is the active span")
        scope.close()
        got = get_current_span().get_span_context()
        check(True if current is None and not got.is_valid else same_context(got, current) if current is not None else False, "closing restores the previous span")
        check(span.end_time is not None, "closing ends the span started")
        check(len(rec.ended) == 1, "it ends once")


@contract()
def parent_of_started_span():
    """start_span over every combination of child_of, references, active span and ignore_active_span."""
    parentage([None, "", "c", "-", "-f"], ["start_span"])


@contract()
def parent_of_started_span_many_references():
    parentage(["cf", "c-f", "f--c"], ["start_span"])


@contract()
def parent_of_active_span():
    """start_active_span over the same combinations; it activates, and closing restores and ends."""
    parentage([None, "", "c", "-f"], ["start_active_span"])


@contract()
def start_times():
    """Start times given in seconds are kept in nanoseconds; without one the clock's time is used."""
    t = sym_real("start", 0, 2**40) if choose("given", 2) else None
    now = sym_int("clock", 0, big(2**62))
    set_clock(lambda: now)
    rec = Recorder()
    tracer = make_shim(rec)
    if choose("how", 2):
        tracer.start_active_span("x", start_time=t).close()
    else:
        tracer.start_span("x", start_time=t)
    start = rec.started[0].start_time
    if t is None:
        check(start == now, "the clock's time")
    else:
        check(close_ns(start, t), "the time given, in nanoseconds")


@contract()
def seconds_and_nanoseconds():
    """time_seconds_to_ns and back, for all times."""
    t = sym_real("seconds", 0, 2**40)
    check(close_ns(util.time_seconds_to_ns(t), t), "nanoseconds of seconds")
    n = sym_int("nanoseconds", 0, 2**62)
    s = util.time_seconds_from_ns(n)
    check(s * 10**9 == n if symbolic() else abs(s * 1e9 - n) <= n * 1e-12, "seconds of nanoseconds")


@contract()
def event_names():
    """event_name_from_kv: the value of "event" for any dictionary having one, else "log"."""
    if choose("none", 2):
        check(util.event_name_from_kv(None) == "log", "no fields")
        return
    kv = sym_odict("fields", sym_str)
    if is_true(choose("has event", 2)):
        name = sym_str("event")
        kv["event"] = name
        check(util.event_name_from_kv(kv) == name, "the event field names the event")
    else:
        assume("event" not in kv)
        check(util.event_name_from_kv(kv) == "log", "the default name")


@contract()
def operations_act_on_the_span():
    """set_operation_name, set_tag, log_kv and finish do to the underlying span what they say, and allow chaining."""
    rec = Recorder()
    tracer = make_shim(rec)
    s = tracer.start_span("first")
    span = s.unwrap()
    other = tracer.start_span("other")
    now = sym_int("clock", 0, big(2**62))
    set_clock(lambda: now)
    op = choose("op", ["name", "tag", "log", "finish"])
    if op == "name":
        n = sym_str("name")
        check(s.set_operation_name(n) is s, "chaining")
        check(span.name == n, "the operation name is the span's")
    elif op == "tag":
        k, v = sym_str("key", pool=["a", "b", "x.y"]), choose("value", [True, 1, 2.5, "s"])
        assume(length(k) > 0)
        v = sym_int("tag") if v == 1 else sym_str("tag") if v == "s" else v
        check(s.set_tag(k, v) is s, "chaining")
        check(len(span.attributes) == 1, "one attribute")
        check(span.attributes[k] == v, "the tag is an attribute of the span")
    elif op == "log":
        fields = {"k": sym_int("field")}
        named = choose("named", 2)
        if named:
            fields["event"] = sym_str("event")
        t = sym_real("at", 0, 2**40) if choose("timed", 2) else None
        check(s.log_kv(fields, t) is s, "chaining")
        check(len(span.events) == 1, "one event")
        e = span.events[0]
        check(e.name == (fields["event"] if named else "log"), "the event's name")
        check(len(e.attributes) == len(fields), "the event's fields")
        check(e.attributes["k"] == fields["k"], "the event's fields")
        check(e.timestamp == now if t is None else close_ns(e.timestamp, t), "the event's time")
    else:
        t = sym_real("at", 0, 2**40) if choose("timed", 2) else None
        s.finish(t)
        check(span.end_time is not None, "the span has ended")
        check(span.end_time == now if t is None else close_ns(span.end_time, t), "the end time")
        check(len(rec.ended) == 1, "one span ended")
        check(both(rec.ended[0].name == "first", other.unwrap().end_time is None), "the right span ended")
    if op != "name":
        check(span.name == "first", "the name is untouched")
    if op != "tag":
        check(len(span.attributes) == 0, "the attributes are untouched")
    if op != "log":
        check(len(span.events) == 0, "the events are untouched")
    if op != "finish":
        check(span.end_time is None, "the span is running")
    o = other.unwrap()
    check(both(o.name == "other", both(len(o.attributes) == 0, len(o.events) == 0)), "no other span is touched")


@contract()
def scopes_nest():
    """Any history of up to three nested activations, each with its own finish_on_close, closed in order, by close() or by leaving a with block, possibly by an exception."""
    rec = Recorder()
    tracer = make_shim(rec)
    outer = choose("outer", ["nothing", "an OpenTelemetry span"])
    context_api.attach(context_api.Context())
    base = None
    if outer != "nothing":
        base = shim_span(tracer, "outer", 77).unwrap()
        context_api.attach(set_span_in_context(base))
    depth = choose("depth", [1, 2, 3])
    spans, finish, scopes = [], [], []
    for i in range(depth):
        s = shim_span(tracer, "s" + str(i), 100 + i)
        f = choose("finish" + str(i), [False, True])
        scope = tracer.scope_manager.activate(s, f)
        check(get_current_span() is s.unwrap(), "the activated span is current")
        check(tracer.scope_manager.active is scope, "the activated scope is active")
        check(scope.span.unwrap() is s.unwrap(), "the scope is the span's")
        spans.append(s.unwrap())
        finish.append(f)
        scopes.append(scope)
    order = []
    for i in reversed(range(depth)):
        how = choose("how" + str(i), ["close", "with", "raise"])
        check(spans[i].end_time is None, "it runs until closed")
        if how == "close":
            scopes[i].close()
        elif how == "with":
            with scopes[i]:
                pass
        else:
            raised = False
            err = ValueError("x")
            try:
                with scopes[i]:
                    raise err
            except ValueError as e:
                raised = e is err
            check(raised, "the exception passes through")
        check((spans[i].end_time is not None) == finish[i], "ended exactly when asked to")
        if finish[i]:
            order.append(spans[i])
        if how == "raise":
            check(len(spans[i].events) == 1, "the exception is recorded")
            check(spans[i].status.status_code is StatusCode.ERROR, "the failure is the span's status")
        else:
            check(len(spans[i].events) == 0, "nothing recorded without an exception")
            check(spans[i].status.status_code is StatusCode.UNSET, "no status without an exception")
        if i > 0:
            check(get_current_span() is spans[i - 1], "the previous span is current again")
            check(tracer.scope_manager.active is scopes[i - 1], "the previous scope is active again")
        elif base is None:
            check(neg(get_current_span().get_span_context().is_valid), "no span is current again")
            check(tracer.scope_manager.active is None, "no scope is active again")
        else:
            check(get_current_span() is base, "the previous span is current again")
    check(len(rec.ended) == len(order), "each ends once")
    check(base is None or base.end_time is None, "the outer span is left alone")


@contract()
def span_as_context_manager():
    """`with tracer.start_span()` ends the span; active_span follows the scope."""
    rec = Recorder()
    tracer = make_shim(rec)
    context_api.attach(context_api.Context())
    check(tracer.active_span is None, "no active span")
    finish = choose("finish_on_close", [False, True])
    with tracer.start_active_span("a", finish_on_close=finish) as scope:
        check(tracer.active_span is scope.span, "the active span is the scope's")
        with tracer.start_span("b") as b:
            check(same_context(b.unwrap().parent, scope.span.unwrap().get_span_context()), "child of the active span")
            check(tracer.active_span is scope.span, "starting does not activate")
        check(b.unwrap().end_time is not None, "leaving the block ends the span")
    check((scope.span.unwrap().end_time is not None) == finish, "ended when asked to")
    check(tracer.active_span is None, "no active span")


@contract()
def baggage_is_the_spans_own():
    """Baggage set on a span shim is read back from it, for any keys and values, and is seen nowhere else."""
    rec = Recorder()
    tracer = make_shim(rec)
    a = tracer.start_span("a")
    b = tracer.start_span("b", child_of=a)
    k1, v1 = sym_str("k1"), sym_str("v1")
    k2, v2 = sym_str("k2"), sym_str("v2")
    before = a.context.baggage
    other_before = b.context.baggage
    a.set_baggage_item(k1, v1)
    mid = a.context.baggage
    check(a.get_baggage_item(k1) == v1, "the item set is read back")
    check(otel_baggage.get_baggage(k1, context=before) is None, "a context captured earlier is not changed")
    a.set_baggage_item(k2, v2)
    check(a.get_baggage_item(k2) == v2, "the item set last is read back")
    same = is_true(k1 == k2)
    check(a.get_baggage_item(k1) == (v2 if same else v1), "earlier items stay")
    check(otel_baggage.get_baggage(k1, context=mid) == v1, "a context captured between shows what was set by then")
    if not same:
        check(otel_baggage.get_baggage(k2, context=mid) is None, "a context captured between shows nothing later")
    check(otel_baggage.get_baggage(k2, context=before) is None, "a context captured earlier is not changed")
    check(b.get_baggage_item(k1) is None, "other spans do not see it")
    check(b.get_baggage_item(k2) is None, "other spans do not see it")
    check(len(other_before) == 0, "other spans' contexts do not see it")
    check(otel_baggage.get_baggage(k1) is None, "the current context does not see it")
    c = tracer.start_span("c")
    check(c.get_baggage_item(k1) is None, "spans started later do not see it")


@contract()
def inject_and_extract():
    """inject hands the wrapped span's context to the configured propagator and extract takes the propagator's span context, for both text formats; others are refused."""
    rec = Recorder()
    tracer = make_shim(rec, FixedIds(valid_trace_id("t"), valid_span_id("s")))
    context_api.attach(context_api.Context())
    seen = []
    found = valid_context("found") if choose("found", 2) else None

    class Prop:
        def inject(self, carrier, context=None, setter=None):
            seen.append((carrier, get_current_span(context).get_span_context()))

        def extract(self, carrier, context=None, getter=None):
            seen.append((carrier, None))
            return context_api.Context() if found is None else set_span_in_context(NonRecordingSpan(found), context_api.Context())
    prop = Prop()
    stub_fn(shim.get_global_textmap, lambda: prop)
    fmt = choose("format", [Format.TEXT_MAP, Format.HTTP_HEADERS, Format.BINARY])
    carrier = {}
    what = choose("what", ["span", "context", "extract"])
    refused = False
    try:
        if what == "extract":
            out = tracer.extract(fmt, carrier)
        else:
            s = tracer.start_span("x")
            ctx = s.unwrap().get_span_context() if what == "span" else valid_context("given")
            tracer.inject(s if what == "span" else SpanContextShim(ctx), fmt, carrier)
    except UnsupportedFormatException:
        refused = True
    check(refused == (fmt == Format.BINARY), "exactly the text formats are supported")
    if refused:
        check(len(seen) == 0, "nothing is done for an unsupported format")
        return
    check(len(seen) == 1, "the propagator is asked once")
    check(seen[0][0] is carrier, "with the carrier given")
    if what == "extract":
        sc = out.unwrap()
        if found is None:
            check(neg(sc.is_valid), "no span context found")
        else:
            check(sc is found, "the span context found")
    else:
        check(same_context(seen[0][1], ctx), "the context of the span given is injected")
        check(seen[0][1].trace_flags == ctx.trace_flags, "with its flags")
