"""T02: status precedence and exception recording."""
from contracts.common import *

CODES = (StatusCode.UNSET, StatusCode.OK, StatusCode.ERROR)


class Odd(Exception):
    pass


class Quit(BaseException):
    pass


class Main(Exception):
    __module__ = "__main__"


class AlmostBuiltin(Exception):
    __module__ = "builtins_extra"


def set_any(span, tag):
    """One arbitrary set_status call; returns the code and description requested."""
    code = choose("code" + tag, CODES)
    desc = None if choose("nodesc" + tag, 2) else sym_str("desc" + tag)
    form = choose("form" + tag, 3)
    if form == 0:
        span.set_status(code, desc)
    elif form == 1:
        span.set_status(Status(code, desc))
    else:
        span.set_status(Status(code, desc), "ignored")
    return code, desc


@contract()
def status_transitions():
    """From any status reachable by one call, set_status follows the precedence OK > latest of the others, UNSET never sets."""
    span = make_tracer().start_span("s")
    check(both(span.status.status_code is StatusCode.UNSET, span.status.description is None), "a new span is unset")
    c1, d1 = set_any(span, "1")
    check(span.status.status_code is c1, "the first status is the one set")
    check(implies(c1 is StatusCode.ERROR, span.status.description == d1), "description kept with ERROR")
    s1, e1 = span.status.status_code, span.status.description
    c2, d2 = set_any(span, "2")
    if s1 is StatusCode.OK or c2 is StatusCode.UNSET:
        check(span.status.status_code is s1, "OK is final and UNSET never replaces")
        check(span.status.description == e1, "description kept when the request is ignored")
    else:
        check(span.status.status_code is c2, "any other setting replaces the status")
        check(implies(c2 is StatusCode.ERROR, span.status.description == d2), "the new description replaces the old one")
    if span.status.status_code is not StatusCode.ERROR:
        check(not span.status.description, "a description only with ERROR")


@contract()
def status_value():
    """Status: the code given, a description only with ERROR."""
    code = choose("code", CODES)
    d = sym_str("desc")
    s = Status(code, d)
    check(s.status_code is code, "code")
    if code is StatusCode.ERROR:
        check(s.description == d, "description of an error")
    else:
        check(not s.description, "no description otherwise")
    check(s.is_unset == (code is StatusCode.UNSET), "is_unset")
    check(s.is_ok == (code is not StatusCode.ERROR), "is_ok")
    check(Status().status_code is StatusCode.UNSET, "default is UNSET")


def exception_of(kind):
    if kind == "value":
        return ValueError("boom")
    if kind == "odd":
        return Odd("odd one", 3)
    if kind == "key":
        return KeyError("k")
    if kind == "main":
        return Main("m")
    if kind == "almost":
        return AlmostBuiltin("a")
    if kind == "stop":
        return StopIteration("done")
    return None


def run_block(form, span, tracer, exc, record, status, end, prior=None):
    """Run a block managed by the span that raises exc (or not); returns what reached the caller and the span."""
    try:
        if form == "use_span":
            with use_span(span, end_on_exit=end, record_exception=record, set_status_on_exception=status):
                if prior is not None:
                    span.set_status(StatusCode.ERROR, prior)
                if exc is not None:
                    raise exc
        elif form == "current":
            with tracer.start_as_current_span("s", record_exception=record, set_status_on_exception=status, end_on_exit=end) as span:
                if prior is not None:
                    span.set_status(StatusCode.ERROR, prior)
                if exc is not None:
                    raise exc
        else:
            with tracer.start_span("s", record_exception=record, set_status_on_exception=status) as span:
                if prior is not None:
                    span.set_status(StatusCode.ERROR, prior)
                if exc is not None:
                    raise exc
    except BaseException as e:
        return e, span
    return None, span


def check_outcome(form, span, p, exc, got, record, status, end, prior=None):
    check(got is exc, "the exception reaches the caller unchanged")
    events = [e for e in span.events if e.name == "exception"]
    if exc is not None:
        check(implies(record, len(events) == 1), "recorded exactly once when configured")
        check(implies(neg(record), len(events) == 0), "not recorded when not configured")
        if len(events) == 1:
            a = events[0].attributes
            check(a["exception.message"] == str(exc), "message")
            name = type(exc).__qualname__
            check(a["exception.type"] == (name if type(exc).__module__ == "builtins" else type(exc).__module__ + "." + name), "type")
            check("exception.stacktrace" in a, "stack trace")
        check(iff(either(status, prior is not None), span.status.status_code is StatusCode.ERROR), "status ERROR exactly when configured")
        if is_true(neg(status)):
            check(span.status.description == prior, "a status set before is left alone when not configured")
        else:
            check(span.status.description == type(exc).__name__ + ": " + str(exc), "status description names the exception")
    elif exc is None:
        check(len(events) == 0, "nothing recorded without an exception")
        check(span.status.status_code is (StatusCode.UNSET if prior is None else StatusCode.ERROR), "no status without an exception")
        check(span.status.description == prior, "no description without an exception")
    ended = end if form != "span" else True
    check(iff(ended, not span.is_recording()), "ended exactly when configured")
    check(iff(ended, len(p.ended) == 1), "processor told of the end exactly when configured")
    check(len(p.ended) <= 1, "at most one end")


@contract()
def blocks():
    """use_span, start_as_current_span and `with span`: exception passes through, recorded / status / ended exactly as configured."""
    p = Recorder()
    tracer = make_tracer(p)
    form = choose("form", ["use_span", "current", "span"])
    record, status, end = sym_bool("record"), sym_bool("status"), sym_bool("end")
    kind = choose("exc", ["none", "value", "odd", "key", "main", "almost"])
    exc = exception_of(kind)
    prior = sym_str("earlier description") if choose("prior", 2) else None
    span = tracer.start_span("s") if form == "use_span" else None
    got, span = run_block(form, span, tracer, exc, record, status, end, prior)
    check_outcome(form, span, p, exc, got, record, status, end, prior)


@contract()
def blocks_base_exception():
    """Exceptions outside Exception still reach the caller and the span is still ended when configured; a span that is its own context manager records them too (the others leave them out, issue 4484)."""
    p = Recorder()
    tracer = make_tracer(p)
    form = choose("form", ["use_span", "current", "span"])
    record, status, end = sym_bool("record"), sym_bool("status"), sym_bool("end")
    exc = Quit("bye") if choose("kind", 2) else KeyboardInterrupt()
    span = tracer.start_span("s") if form == "use_span" else None
    got, span = run_block(form, span, tracer, exc, record, status, end)
    check(got is exc, "the exception reaches the caller unchanged")
    if form == "span":
        check_outcome(form, span, p, exc, got, record, status, end)
    ended = end if form != "span" else True
    check(iff(ended, len(p.ended) == 1), "ended exactly when configured")


@contract()
def nested_blocks():
    """An exception crossing two managed blocks is treated by each according to its own configuration."""
    p = Recorder()
    tracer = make_tracer(p)
    exc = ValueError("x")
    r1, s1, r2, s2 = sym_bool("r1"), sym_bool("s1"), sym_bool("r2"), sym_bool("s2")
    got = None
    try:
        with tracer.start_as_current_span("outer", record_exception=r1, set_status_on_exception=s1) as outer:
            with tracer.start_as_current_span("inner", record_exception=r2, set_status_on_exception=s2) as inner:
                raise exc
    except ValueError as e:
        got = e
    check(got is exc, "the exception reaches the caller unchanged")
    for sp, r, s in ((outer, r1, s1), (inner, r2, s2)):
        check(iff(r, len(sp.events) == 1), "recorded according to the span's own setting")
        check(iff(s, sp.status.status_code is StatusCode.ERROR), "status according to the span's own setting")
        check(not sp.is_recording(), "ended")


@contract()
def manual_status_survives():
    """A status set to OK inside the block is not overwritten by the exception; a span ended inside the block records nothing."""
    p = Recorder()
    tracer = make_tracer(p)
    form = choose("form", ["use_span", "current", "span"])
    early_end = choose("early_end", 2)
    got = None
    exc = ValueError("x")
    span = tracer.start_span("s") if form == "use_span" else None
    try:
        if form == "use_span":
            with use_span(span, end_on_exit=True):
                span.set_status(StatusCode.OK)
                if early_end:
                    span.end()
                raise exc
        elif form == "current":
            with tracer.start_as_current_span("s") as span:
                span.set_status(StatusCode.OK)
                if early_end:
                    span.end()
                raise exc
        else:
            with tracer.start_span("s") as span:
                span.set_status(StatusCode.OK)
                if early_end:
                    span.end()
                raise exc
    except ValueError as e:
        got = e
    check(got is exc, "the exception reaches the caller unchanged")
    check(span.status.status_code is StatusCode.OK, "OK is final")
    check(len(span.events) == (0 if early_end else 1), "recorded only while recording")
    check(len(p.ended) == 1, "one end")


@contract()
def record_exception():
    """record_exception adds one event with type, message, stack trace, escaped and the caller's attributes, which win."""
    span = make_tracer().start_span("s")
    exc = exception_of(choose("exc", ["value", "odd", "key", "main", "almost"]))
    v, t = sym_int("v"), sym_int("t", 0)
    own = choose("own", ["x", "exception.message"])
    esc = choose("escaped", [True, False])
    extra = {own: v}
    span.record_exception(exc, extra, t, esc)
    check(len(span.events) == 1, "one event")
    e = span.events[0]
    check(e.name == "exception", "event name")
    check(e.timestamp == t, "timestamp")
    a = e.attributes
    check(a[own] == v, "the caller's attributes win")
    if own == "x":
        check(a["exception.message"] == str(exc), "message")
    name = type(exc).__qualname__
    check(a["exception.type"] == (name if type(exc).__module__ == "builtins" else type(exc).__module__ + "." + name), "type")
    check(a["exception.escaped"] == str(esc), "escaped")
    check(len(a) == (5 if own == "x" else 4), "nothing else")
    check(span.status.status_code is StatusCode.UNSET, "recording an exception sets no status")
    check(len(extra) == 1, "the caller's mapping is not changed")
