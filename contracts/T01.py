"""T01: an ended span never changes and ends exactly once."""
from contracts.common import *

OPS = ("set_attribute", "set_attributes", "add_event", "add_link", "set_status", "set_status_obj", "update_name", "end", "end_none",
       "record_exception", "exit_exc", "exit", "start")


def operate(span, op, tag=""):
    """One public operation with arbitrary arguments."""
    if op == "set_attribute":
        span.set_attribute(choose("key" + tag, ["a", "new"]), sym_int("value" + tag))
    elif op == "set_attributes":
        span.set_attributes({"a": sym_str("sv" + tag), "new": sym_int("value" + tag)})
    elif op == "add_event":
        span.add_event(sym_str("event" + tag), {"k": sym_int("value" + tag)}, sym_int("ts" + tag, 0))
    elif op == "add_link":
        span.add_link(SpanContext(valid_trace_id("l.t" + tag), valid_span_id("l.s" + tag), False), {"k": sym_int("value" + tag)})
    elif op == "set_status":
        span.set_status(choose("code" + tag, [StatusCode.OK, StatusCode.ERROR, StatusCode.UNSET]), sym_str("desc" + tag))
    elif op == "set_status_obj":
        span.set_status(Status(choose("code" + tag, [StatusCode.OK, StatusCode.ERROR, StatusCode.UNSET])))
    elif op == "update_name":
        span.update_name(sym_str("newname" + tag))
    elif op == "end":
        span.end(sym_int("end2" + tag, 0))
    elif op == "end_none":
        span.end()
    elif op == "record_exception":
        span.record_exception(ValueError("boom"), {"k": 1})
    elif op == "exit_exc":
        span.__exit__(ValueError, ValueError("boom"), None)
    elif op == "exit":
        span.__exit__(None, None, None)
    elif op == "start":
        span.start(sym_int("start2" + tag, 0))


def fresh(processor):
    """A recording span with some attributes, events and links."""
    tracer = make_tracer(processor)
    link = Link(SpanContext(valid_trace_id("link.t"), valid_span_id("link.s"), True), {"lk": sym_int("lv")})
    span = tracer.start_span(sym_str("name"), attributes={"a": sym_int("a"), "b": sym_str("b")}, links=[link], start_time=sym_int("start", 0))
    span.add_event("e", {"x": sym_int("x")}, sym_int("ets", 0))
    return span


@contract()
def frozen_after_end():
    """Every operation on an ended span leaves everything it reports as it was, and raises nothing."""
    p = Recorder()
    span = fresh(p)
    span.end(sym_int("end", 0))
    before = reported(span)
    exported = p.ended[0]
    before2 = reported(exported)
    check(not span.is_recording(), "an ended span is not recording")
    operate(span, choose("op", OPS))
    check_same_report(before, reported(span), "unchanged after end")
    check_same_report(before2, reported(exported), "exported data unchanged")
    check(not span.is_recording(), "stays not recording")
    check(len(p.ended) == 1, "end reported to the processor exactly once")


@contract()
def frozen_under_interference():
    """An operation that another thread's end() overtakes does not change the ended span."""
    p = Recorder()
    span = fresh(p)
    seen = []

    def other():
        span.end(sym_int("end", 0))
        seen.append(reported(span))

    interfere(span, "_lock", other, choose("at", 2), after=choose("after", 2) == 1)
    operate(span, choose("op", OPS))
    if seen:
        check_same_report(seen[0], reported(span), "unchanged after a concurrent end")
        check(len(p.ended) == 1, "end reported to the processor exactly once")


class Watched:
    """Wraps a collection of a span; where it is changed without the span's lock, another thread may end the span just before."""

    def __init__(self, inner, lock, other):
        self.inner, self.lock, self.other = inner, lock, other

    def _turn(self):
        if not self.lock.locked():
            self.other()

    def append(self, x):
        self._turn()
        self.inner.append(x)

    def extend(self, x):
        self._turn()
        self.inner.extend(x)

    def __setitem__(self, k, v):
        self._turn()
        self.inner[k] = v

    def __getitem__(self, k):
        return self.inner[k]

    def __iter__(self):
        return iter(self.inner)

    def __len__(self):
        return len(self.inner)

    def items(self):
        return self.inner.items()

    @property
    def dropped(self):
        return self.inner.dropped


@contract()
def no_change_between_check_and_write():
    """Every change happens in the same critical section as the check that the span has not ended: another thread's end cannot come in between."""
    p = Recorder()
    span = fresh(p)
    lock = attr(span, "_lock")
    need(hasattr(lock, "locked"), "a lock that tells whether it is held")
    seen = []

    def other():
        if not seen:
            seen.append(None)
            span.end(7)
            seen[0] = reported(span)
    for f in ("_attributes", "_events", "_links"):
        set_attr(span, f, Watched(attr(span, f), lock, other))
    for f in ("_name", "_status", "_start_time", "_end_time"):
        guarded(span, f, lock)
    operate(span, choose("op", OPS))
    check_same_report(seen[0] if seen else reported(span), reported(span), "unchanged after a concurrent end")


@contract()
def end_time_and_processor():
    """end: the end time is the argument or the clock, it is fixed before on_end, which is called once with that span."""
    p = Recorder()
    span = fresh(p)
    now = sym_int("now", 0)
    set_clock(lambda: now)
    check(span.is_recording(), "recording until it ends")
    check(span.end_time is None, "no end time before the end")
    check(len(p.ended) == 0, "no end reported early")
    if choose("explicit", 2):
        t = sym_int("end", 0)
        span.end(end_time=t)
    else:
        t = now
        span.end()
    check(span.end_time == t, "end time is the argument, or the clock's when none is given")
    check(len(p.ended) == 1, "on_end called once")
    check(p.end_seen[0] == t, "end time is fixed when the processor is told")
    got = p.ended[0]
    check(both(got.name == span.name, got.end_time == t, got.start_time == span.start_time, got.get_span_context() == span.get_span_context()), "the processor gets this span")
    check(got.attributes == span.attributes, "the processor gets its attributes")
    check(both(len(got.events) == 1, len(got.links) == 1), "the processor gets its events and links")
    check(got.resource is span.resource, "the processor gets its resource")


@contract()
def two_ends():
    """Any number of further ends (here an arbitrary one after the first) changes nothing: representation invariant of end()."""
    p = Recorder()
    span = fresh(p)
    a, b = sym_int("end", 0), sym_int("end2", 0)
    span.end(a)
    span.end(b)
    span.end()
    check(span.end_time == a, "first end time kept")
    check(len(p.ended) == 1, "one end reported")


@contract()
def start_time():
    """start: the start time is the argument or the clock, on_start is called once with the span, a second start changes nothing."""
    p = Recorder()
    now = sym_int("now", 0)
    set_clock(lambda: now)
    tracer = make_tracer(p)
    if choose("explicit", 2):
        t = sym_int("start", 0)
        span = tracer.start_span("s", start_time=t)
    else:
        t = now
        span = tracer.start_span("s")
    check(span.start_time == t, "start time is the argument, or the clock's when none is given")
    check(len(p.started) == 1, "on_start called once")
    span.start(sym_int("again", 0))
    check(span.start_time == t, "a second start changes nothing")
    check(len(p.started) == 1, "on_start not called again")


@contract()
def exported_view_is_read_only():
    """What a processor received cannot be altered through what it hands out."""
    p = Recorder()
    span = fresh(p)
    span.end(sym_int("end", 0))
    got = p.ended[0]
    before = reported(got)
    act = choose("act", 4)
    try:
        if act == 0:
            got.attributes["a"] = 1
        elif act == 1:
            del got.attributes["a"]
        elif act == 2:
            got.events[0].attributes["x"] = 1
        else:
            got.links[0].attributes["lk"] = 1
    except (TypeError, AttributeError):
        pass
    check_same_report(before, reported(got), "read-only")


@contract()
def what_went_into_it_is_used_again():
    """The link, attributes and event attributes an ended span was given are changed by their owner or given to another span with other limits: the ended span reports what it did."""
    tight, loose = SpanLimits(max_link_attributes=1, max_event_attributes=1, max_span_attributes=1), SpanLimits(max_link_attributes=2, max_event_attributes=2, max_span_attributes=2)
    first, second = choose("limits", [(tight, loose), (loose, tight), (tight, tight)])
    attributes = {"a": sym_int("a"), "b": sym_int("b"), "c": [1, 2]}
    for_link, for_event = {"x": sym_int("x"), "y": sym_int("y"), "z": [3]}, {"u": sym_int("u"), "v": sym_int("v"), "w": [4]}
    link = Link(SpanContext(7, 8, False), for_link)
    p = Recorder()
    span = make_tracer(p, limits=first).start_span("s", attributes=attributes, links=[link], start_time=1)
    span.add_event("e", for_event, 2)
    span.end(3)
    before, before2 = reported(span), reported(p.ended[0])
    act = choose("act", ["link again", "its own link", "its own attributes", "caller's dictionaries", "caller's lists"])
    if act == "link again":
        make_tracer(limits=second).start_span("t", links=[link])
    elif act == "its own link":
        make_tracer(limits=second).start_span("t", links=span.links, attributes=span.attributes)
    elif act == "its own attributes":
        other = make_tracer(limits=second).start_span("t", attributes=span.attributes)
        other.add_event("f", span.events[0].attributes)
        other.add_link(span.links[0].context, span.links[0].attributes)
        other.set_attribute("a", 5)
    elif act == "caller's dictionaries":
        for d in (attributes, for_link, for_event):
            d["new"] = 1
            d.pop("c", None)
    else:
        attributes["c"].append(3)
        for_link["z"].append(3)
        for_event["w"].clear()
    check_same_report(before, reported(span), "the span")
    check_same_report(before2, reported(p.ended[0]), "what its processor got")
