"""L01: log records keep their content, trace identity and limits."""
import logging
import sys
from contracts.common import *
from contracts.T03 import construction_loop, model_set
from opentelemetry._logs import NoOpLogger, SeverityNumber, std_to_otel
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler, LogRecord, LogLimits
from opentelemetry.sdk._logs import _internal as logs
from opentelemetry.semconv.trace import SpanAttributes

NAMES = [("UNSPECIFIED", 0), ("DEBUG", 5), ("INFO", 9), ("WARN", 13), ("ERROR", 17), ("FATAL", 21)]


@contract()
def severity_is_total_and_monotonic():
    """For any two levels, however far out of range: a severity each, in the same order."""
    a, b = sym_int("a"), sym_int("b")
    assume(a <= b)
    x, y = std_to_otel(a), std_to_otel(b)
    check(both(isinstance(x, SeverityNumber), isinstance(y, SeverityNumber)), "every level has a severity")
    check(x.value <= y.value, "a higher level never has a lower severity")


@contract()
def severity_of_levels():
    """Each level maps into the range of its standard level, counting up within it and staying at the range's last."""
    n = sym_int("level")
    s = std_to_otel(n)
    base = ite(n < 10, 0, ite(n < 20, 5, ite(n < 30, 9, ite(n < 40, 13, ite(n < 50, 17, 21)))))
    low = ite(n < 10, n, ite(n < 20, 10, ite(n < 30, 20, ite(n < 40, 30, ite(n < 50, 40, 50)))))
    step = ite(n - low < 3, n - low, 3)
    check(s.value == ite(n < 10, 0, base + step), "the severity of the level's range")


class Sink:
    """A log record processor writing down what it gets."""

    def __init__(self):
        self.got = []

    def emit(self, log_data):
        self.got.append(log_data)

    def shutdown(self):
        pass

    def force_flush(self, timeout_millis=30000):
        return True


class AnyRecord(logging.LogRecord):
    """A record of the logging module whose formatted message is any text."""

    def getMessage(self):
        return self.__dict__["args"][0] if self.__dict__["args"] else str(self.__dict__["msg"])


def a_record(name="lib", level=30, levelname="WARNING", msg="m", args=(), exc_info=None, extra=None, created=1.5):
    r = AnyRecord(name, 10, "/x/y.py", 7, msg, args, exc_info, "fn")
    r.levelno, r.levelname, r.created = level, levelname, created
    for k, v in (extra or {}).items():
        r.__dict__[k] = v
    return r


def setup(handler=LoggingHandler):
    sink = Sink()
    p = LoggerProvider(resource=Resource({"r": 1}), shutdown_on_exit=False)
    p.add_log_record_processor(sink)
    return p, sink, handler(logger_provider=p)


def only(sink):
    check(len(sink.got) == 1, "one record emitted")
    return sink.got[0]


@contract()
def emitted_once_with_its_fields():
    """Level, level name, message, time, name, location: each arrives, once, under the provider's resource and the logger's name."""
    set_env(OTEL_SDK_DISABLED=None)
    now = sym_int("now", 0)
    set_clock(lambda: now)
    p, sink, h = setup()
    level, levelname = sym_int("level"), sym_str("levelname")
    text, name = sym_str("text"), sym_str("name")
    created = sym_real("created", 0)
    form = choose("form", ["msg", "args"])
    r = a_record(name, level, levelname, text if form == "msg" else "%s", () if form == "msg" else (text,), created=created)
    r.pathname, r.lineno, r.funcName = sym_str("path"), sym_int("line"), sym_str("fn")
    h.emit(r)
    d = only(sink)
    lr = d.log_record
    check(lr.body == text, "the formatted message")
    check(lr.severity_number is std_to_otel(level), "the mapped severity")
    check(lr.severity_text == ("WARN" if is_true(levelname == "WARNING") else levelname), "the level name")
    check(lr.timestamp == int(created * 1e9), "the creation time in nanoseconds")
    check(lr.resource is p.resource, "the provider's resource")
    check(d.instrumentation_scope.name == name, "the logger's name")
    check(lr.attributes[SpanAttributes.CODE_FILEPATH] == r.pathname, "the file")
    check(lr.attributes[SpanAttributes.CODE_LINENO] == r.lineno, "the line")
    check(lr.attributes[SpanAttributes.CODE_FUNCTION] == r.funcName, "the function")
    check(length(lr.attributes) == 3, "no other attribute")
    check(lr.dropped_attributes == 0, "nothing dropped")


@contract()
def observed_now():
    """The observed timestamp is the time of the call, whether or not one is given to LogRecord."""
    set_env(OTEL_SDK_DISABLED=None)
    now = sym_int("now", 0)
    set_clock(lambda: now)
    p, sink, h = setup()
    h.emit(a_record())
    check(only(sink).log_record.observed_timestamp == now, "observed when handled")
    check(LogRecord(resource=p.resource).observed_timestamp == now, "observed when created")
    given = sym_int("given", 0)
    check(LogRecord(observed_timestamp=given, resource=p.resource).observed_timestamp == given, "unless given, zero included")


@contract()
def current_span_identity():
    """The identity of the span current when the record is logged, valid or not; nothing of a span no longer current."""
    set_env(OTEL_SDK_DISABLED=None)
    p, sink, h = setup()
    ctx = any_context("current")
    mode = choose("mode", ["inside", "after", "none"])
    if mode == "none":
        h.emit(a_record())
    elif mode == "inside":
        with use_span(NonRecordingSpan(ctx)):
            h.emit(a_record())
    else:
        with use_span(NonRecordingSpan(ctx)):
            pass
        h.emit(a_record())
    lr = only(sink).log_record
    want = ctx if mode == "inside" else SpanContext(0, 0, False)
    check(lr.trace_id == want.trace_id, "trace id of the current span")
    check(lr.span_id == want.span_id, "span id of the current span")
    check(lr.trace_flags == want.trace_flags, "flags of the current span")


@contract()
def current_span_of_the_sdk():
    """Inside a recording or unsampled span of the SDK and nested spans: the innermost one's identity."""
    set_env(OTEL_SDK_DISABLED=None)
    p, sink, h = setup()
    ids = FixedIds(valid_trace_id(), valid_span_id())
    tracer = make_tracer(sampler=choose("sampler", [ALWAYS_ON, ALWAYS_OFF]), ids=ids)
    with tracer.start_as_current_span("outer") as outer:
        if choose("nested", 2):
            ids.span_id = valid_span_id("inner")
            with tracer.start_as_current_span("inner") as inner:
                h.emit(a_record())
                want = inner.get_span_context()
        else:
            h.emit(a_record())
            want = outer.get_span_context()
    lr = only(sink).log_record
    check(both(lr.trace_id == want.trace_id, lr.span_id == want.span_id, lr.trace_flags == want.trace_flags), "the innermost span's identity")


class Thing:
    pass


@contract()
def body_keeps_its_type():
    """A message that is no text and has no arguments is the body itself; with arguments, or with a formatter, the formatted text is."""
    set_env(OTEL_SDK_DISABLED=None)
    p, sink, h = setup()
    thing = Thing()
    body = choose("body", ["none", "dict", "list", "int", "bool", "thing", "zero"])
    b = {"none": None, "dict": {"a": [1, 2]}, "list": [1, "x"], "int": sym_int("n"), "bool": False, "thing": thing, "zero": 0}[body]
    form = choose("form", ["plain", "args", "formatter"])
    r = a_record(msg=b, args=("text",) if form == "args" else ())
    if form == "formatter":
        text = sym_str("formatted")

        class F(logging.Formatter):
            def format(self, record):
                return text

        h.setFormatter(F())
    h.emit(r)
    lr = only(sink).log_record
    if form == "plain":
        check(lr.body is b, "the object itself")
    elif form == "args":
        check(lr.body == "text", "the formatted text")
    else:
        check(lr.body == text, "what the formatter makes of it")


def raised(e):
    try:
        raise e
    except BaseException:
        return sys.exc_info()


class Custom(ValueError):
    pass


@contract()
def exception_details():
    """The exception's type, message and stack trace; with no exception in flight none of the three."""
    set_env(OTEL_SDK_DISABLED=None)
    p, sink, h = setup()
    kind = choose("kind", ["none", "empty", "text", "number", "noargs", "notb", "base"])
    msg = sym_str("message")
    exc = {"text": ValueError(msg), "number": Custom(sym_int("code"), "more"), "noargs": Custom(), "notb": Custom("x"), "base": KeyboardInterrupt("stop")}.get(kind)
    info = None
    if kind == "empty":
        info = (None, None, None)
    elif kind == "notb":
        info = (type(exc), exc, None)
    elif kind == "text":
        info = (type(exc), exc, None)
    elif exc is not None:
        info = raised(exc)
    h.emit(a_record(exc_info=info))
    a = only(sink).log_record.attributes
    T, M, S = SpanAttributes.EXCEPTION_TYPE, SpanAttributes.EXCEPTION_MESSAGE, SpanAttributes.EXCEPTION_STACKTRACE
    if exc is None:
        check(both(T not in a, M not in a, S not in a), "no exception attributes")
        return
    check(a[T] == type(exc).__name__, "type")
    if kind == "noargs":
        check(M not in a, "no message")
    elif kind == "text":
        check(a[M] == msg, "message")
    else:
        check(a[M] == str(exc.args[0]), "message")
    if kind in ("text", "notb"):
        check(S not in a, "no stack trace without a traceback")
    else:
        check(S in a, "stack trace")
        if not symbolic():
            check(both(type(exc).__name__ in a[S], "in raised" in a[S]), "the stack trace tells what and where")


EXTRA = ["user", "msgs", "a", "b.c", "Name", "msg_", "exc", "process.pid", "_private", "__dunder__"]


@contract()
def extra_attributes():
    """Exactly the extras of a record are its attributes besides the code location: any of a pool of names, any value of each type."""
    set_env(OTEL_SDK_DISABLED=None)
    p, sink, h = setup()
    k1, k2 = choose("k1", EXTRA), choose("k2", EXTRA)
    kinds = {"int": sym_int("i"), "str": sym_str("s"), "bool": sym_bool("b"), "real": sym_real("f"), "seq": (sym_str("s0"), sym_str("s1"))}
    v1, v2 = choose("v1", list(kinds)), sym_int("v2")
    extra = {k1: kinds[v1]}
    if k1 != k2:
        extra[k2] = v2
    h.emit(a_record(extra=extra))
    a = only(sink).log_record.attributes
    check(len(a) == 3 + len(extra), "the extras and the code location, no field of the record itself")
    for k in extra:
        check(k in a, "every extra")
        check(a[k] == extra[k], "with its value")


@contract()
def reserved_names_are_complete():
    """No field a logging record has by itself becomes an attribute, also after it was formatted."""
    set_env(OTEL_SDK_DISABLED=None)
    p, sink, h = setup()
    r = logging.LogRecord("n", 20, "p", 1, "m %s", ("x",), raised(ValueError("v")) if choose("exc", 2) else None, "f", "stack" if choose("stack", 2) else None)
    r.taskName, r.processName, r.threadName = "Task-1", "P-1", "T-1"
    if choose("formatted", 2):
        logging.Formatter("%(asctime)s %(message)s").format(r)
    h.emit(r)
    a = only(sink).log_record.attributes
    for k in a:
        check(k.startswith("code.") or k.startswith("exception."), "only code and exception attributes")
    check(only(sink).log_record.body == "m x", "the formatted message")


@contract()
def original_record_untouched():
    """Handling a record neither changes it nor shares its mutable values with the emitted record."""
    set_env(OTEL_SDK_DISABLED=None)
    p, sink, h = setup()
    values = ["a", "b"]
    r = a_record(extra={"tags": values, "n": sym_int("n")})
    before = dict(r.__dict__)
    h.emit(r)
    check(len(before) == len(r.__dict__), "no field added or removed")
    for k in before:
        check(r.__dict__[k] is before[k], "no field changed")
    values.append("c")
    check(tuple(only(sink).log_record.attributes["tags"]) == ("a", "b"), "later changes of the caller's list do not reach the record")


@contract()
def emitted_by_every_route():
    """Loggers of the provider: the record given, the scope asked for, to every processor; a disabled provider emits nothing."""
    disabled = choose("disabled", [None, "true", " TRUE ", "false", "", "1"])
    set_env(OTEL_SDK_DISABLED=disabled)
    sink = Sink()
    p = LoggerProvider(resource=Resource({"r": 1}), shutdown_on_exit=False)
    p.add_log_record_processor(sink)
    name, version, url = sym_str("name"), sym_str("version"), sym_str("url")
    attrs = None if choose("attrs", 2) else {"k": sym_int("v")}
    logger = p.get_logger(name, version, url, attrs)
    rec = LogRecord(body="x", resource=p.resource)
    logger.emit(rec)
    if disabled in ("true", " TRUE "):
        check(isinstance(logger, NoOpLogger), "a disabled provider gives loggers that do nothing")
        check(len(sink.got) == 0, "nothing emitted")
        LoggingHandler(logger_provider=p).emit(a_record())
        check(len(sink.got) == 0, "nothing bridged")
        return
    d = only(sink)
    check(d.log_record is rec, "the record itself")
    s = d.instrumentation_scope
    check(both(s.name == name, s.version == version, s.schema_url == url), "the scope asked for")
    if attrs is not None:
        check(s.attributes["k"] == attrs["k"], "scope attributes")
    check(logger.resource is p.resource, "the provider's resource")


@contract()
def loggers_are_not_mixed_up():
    """Two requests: each logger reports the scope it was asked for; equal requests without attributes give the same logger."""
    set_env(OTEL_SDK_DISABLED=None)
    p = LoggerProvider(resource=Resource({"r": 1}), shutdown_on_exit=False)
    sink = Sink()
    p.add_log_record_processor(sink)
    reqs = []
    for t in "12":
        reqs.append((sym_str("name" + t), None if choose("v" + t, 2) else sym_str("version" + t), None if choose("u" + t, 2) else sym_str("url" + t)))
    ls = [p.get_logger(*r) for r in reqs]
    for i in range(2):
        ls[i].emit(LogRecord(body=i, resource=p.resource))
        s = sink.got[i].instrumentation_scope
        check(s.name == reqs[i][0], "name")
        check((not s.version) if reqs[i][1] is None else s.version == reqs[i][1], "version")
        check((not s.schema_url) if reqs[i][2] is None else s.schema_url == reqs[i][2], "schema url")


@contract()
def one_logger_while_racing():
    """Another thread asking for the same logger at any point gets the same one."""
    set_env(OTEL_SDK_DISABLED=None)
    p = LoggerProvider(resource=Resource({"r": 1}), shutdown_on_exit=False)
    got = []
    interfere(p, "_logger_cache_lock", lambda: got.append(p.get_logger("n", "1")), after=choose("after", [False, True]))
    a = p.get_logger("n", "1")
    check(len(got) == 1, "both asked")
    check(got[0] is a, "both got the same logger")


class Shared:
    def __init__(self):
        self.calls = 0

    def force_flush(self):
        self.calls += 1


@contract()
def flush_reaches_the_provider():
    s = Shared()
    LoggingHandler(logger_provider=s).flush()
    check(s.calls == 1, "flushed once")
    LoggingHandler(logger_provider=object.__new__(Thing)).flush()


# ------------------------------------------------------------------------------------ limits
@contract(bound="up to 4 attributes")
def record_attribute_limits():
    """Any limit: the newest entries in order, the rest counted as dropped, values cut to the length limit (up to 4 attributes)."""
    lim = None if choose("nolimit", 2) else sym_int("limit", 0, 2**40)
    limits = LogLimits(max_attributes=LogLimits.UNSET if lim is None else lim, max_attribute_length=LogLimits.UNSET)
    n = choose("n", 5)
    attrs = {"k" + str(i): sym_int("v") for i in range(n)}
    if lim is None:
        check(limits.max_attributes == 128, "the documented default")
        lim = 128
    r = LogRecord(resource=Resource({}), attributes=attrs, limits=limits)
    model, dropped = [], 0
    for k in list(attrs):
        model, dropped = model_set(model, dropped, lim, k, attrs[k])
    got = list(r.attributes.items())
    check(len(got) == len(model), "as many as the limit allows")
    for i in range(len(model)):
        check(both(got[i][0] == model[i][0], got[i][1] == model[i][1]), "the newest in order")
    check(r.dropped_attributes == dropped, "dropped count")
    check(len(attrs) == n, "the caller's mapping untouched")


@contract()
def record_attributes_unbounded():
    """A mapping of any size: exactly the newest entries within the limit, in order, and the rest counted as dropped."""
    lim = sym_int("limit", 0, 2**30)
    val = sym_fn("val", "int")
    attrs = sym_odict("attrs", lambda i: val(i))
    n, keys = length(attrs), list(attrs)
    assume(forall(0, n, lambda i: item(keys, i) != ""))

    kept = construction_loop(keys, val, lim)
    r = LogRecord(resource=Resource({}), attributes=attrs, limits=LogLimits(max_attributes=lim))
    for c in kept(r.attributes.copy(), r.dropped_attributes, n):
        check(c, "the newest entries within the limit, the rest counted")


@contract()
def record_value_length():
    """Text values are cut to the length limit, others kept."""
    m = sym_int("max", 0, 2**30)
    limits = LogLimits(max_attribute_length=m)
    text, num = sym_str("text"), sym_int("num")
    r = LogRecord(resource=Resource({}), attributes={"t": text, "n": num, "q": (text, "short")}, limits=limits)
    check(r.attributes["t"] == text[:m], "cut to the limit")
    check(r.attributes["n"] == num, "numbers kept")
    check(r.attributes["q"][0] == text[:m], "elements cut")
    check(r.dropped_attributes == 0, "nothing dropped")
    same = LogRecord(resource=Resource({}), attributes={"t": text}, limits=LogLimits(max_attribute_length=LogLimits.UNSET))
    check(same.attributes["t"] == text, "kept whole without a limit")


@contract()
def limits_of_records_from_arguments():
    """Each LogLimits field is the argument, else the environment's value, else the default; a negative one is an error."""
    env_n, env_l = choose("env_n", [None, "", " 7 ", "x", "-3", "0"]), choose("env_l", [None, "", "9", "1.5", "0"])
    set_env(OTEL_ATTRIBUTE_COUNT_LIMIT=env_n, OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT=env_l)
    a = None if choose("no_a", 2) else sym_int("a", -3)
    b = None if choose("no_b", 2) else sym_int("b", -3)
    err = False
    try:
        s = LogLimits(max_attributes=a, max_attribute_length=b)
    except ValueError:
        err = True
    bad_a = (env_n in ("x", "-3")) if a is None else is_true(a < -1)
    bad_b = (env_l == "1.5") if b is None else is_true(b < -1)
    check(err == (bad_a or bad_b), "an error exactly for a value that is not a non-negative integer")
    if err:
        return
    want_a = {None: 128, "": 128, " 7 ": 7, "0": 0}[env_n] if a is None else ite(a == -1, 128, a)
    check(s.max_attributes == want_a, "count limit")
    if b is None:
        check(s.max_attribute_length == {None: None, "": None, "9": 9, "0": 0}[env_l], "length limit")
    elif is_true(b == -1):
        check(s.max_attribute_length is None, "explicitly no length limit")
    else:
        check(s.max_attribute_length == b, "length limit as given")


@contract()
def record_fields_as_given():
    """Every field of a LogRecord is the argument given for it."""
    ctx = any_context()
    t, o = sym_int("t"), sym_int("o")
    sev = choose("sev", [None, SeverityNumber.UNSPECIFIED, SeverityNumber.TRACE, SeverityNumber.FATAL4])
    res, sevtext = Resource({"x": 1}), sym_str("sevtext")
    r = LogRecord(t, o, ctx.trace_id, ctx.span_id, ctx.trace_flags, sevtext, sev, {"a": 1}, res, {"k": sym_int("v")})
    check(both(r.timestamp == t, r.observed_timestamp == o), "times")
    check(both(r.trace_id == ctx.trace_id, r.span_id == ctx.span_id, r.trace_flags == ctx.trace_flags), "identity")
    check(both(r.severity_number is sev, r.severity_text == sevtext), "severity")
    check(both(r.body == {"a": 1}, r.resource is res, len(r.attributes) == 1), "content")
