"""R02: configuration: explicit arguments beat environment beats defaults; header lists are read exactly."""
from urllib.parse import unquote
from contracts.common import *
from contracts.threads import XEvent, XThread, fake_threads
from opentelemetry.sdk.metrics._internal import export as metric_export
from opentelemetry.sdk.metrics.export import MetricExporter, PeriodicExportingMetricReader
from opentelemetry.sdk._logs._internal import LogLimits
from opentelemetry.util import re as re_module
from opentelemetry.util.re import parse_env_headers

# field, its argument's environment variable, the field whose value is its default, the documented default
FIELDS = [("max_events", "OTEL_SPAN_EVENT_COUNT_LIMIT", None, 128), ("max_links", "OTEL_SPAN_LINK_COUNT_LIMIT", None, 128),
          ("max_span_attributes", "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "max_attributes", 128), ("max_event_attributes", "OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT", "max_attributes", 128),
          ("max_link_attributes", "OTEL_LINK_ATTRIBUTE_COUNT_LIMIT", "max_attributes", 128), ("max_attributes", "OTEL_ATTRIBUTE_COUNT_LIMIT", None, 128),
          ("max_attribute_length", "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", None, None),
          ("max_span_attribute_length", "OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT", "max_attribute_length", None)]
ENVS = {f: e for f, e, _, _ in FIELDS}
TEXTS = [None, "", " ", "7", " 0 ", "-1", "-3", "x", "1.5", "0x10"]
READ = {"7": 7, " 0 ": 0}


def resolve(arg, text, default):
    """(value, error?) of a limit: the argument, else the environment's text, else the default; -1 as an argument and an empty text mean no limit."""
    if arg is not None:
        if is_true(arg == -1):
            return None, False
        return arg, is_true(arg < 0)
    if text is None:
        return default, False
    if text.strip() == "":
        return None, False
    return READ.get(text), text not in READ


def general_default(value, arg, text, documented):
    """An unlimited general count leaves the documented default of the specific ones."""
    return documented if value is None else value


def some_limit(name):
    return None if choose(name + ".absent", 2) else sym_int(name, -3)


@contract()
def span_limits():
    """Any field, argument and environment text, with any general argument and text: exactly the documented precedence, an error exactly for what is not a non-negative integer."""
    f, env, general, documented = FIELDS[choose("field", 8)]
    arg, text = some_limit("arg"), choose("text", TEXTS)
    garg, gtext = None, None
    if general is not None:
        garg, gtext = some_limit("general"), choose("general_text", [None, "", "7", "x"])
    set_env(**{e: None for e in ENVS.values()})
    set_env(**{env: text})
    kw = {f: arg} if arg is not None else {}
    default, bad = documented, False
    if general is not None:
        set_env(**{ENVS[general]: gtext})
        if garg is not None:
            kw[general] = garg
        gvalue, bad = resolve(garg, gtext, None)
        default = gvalue if gvalue is not None else documented
    value, err = resolve(arg, text, default)
    if general is None and f == "max_attributes" and value is None:
        value = documented
    raised = False
    try:
        s = SpanLimits(**kw)
    except ValueError:
        raised = True
    check(raised == (bad or err), "an error exactly for a value that is not a non-negative integer")
    if raised:
        return
    check(getattr(s, f) == value, "argument, else environment, else the general value, else the default")
    for g, _, up, d in FIELDS:
        if g == f or g == general:
            continue
        if up is not None and up == f:
            check(getattr(s, g) == value, "the general value is the default of the specific ones")
        elif up is not None and up == general:
            check(getattr(s, g) == default, "the general value is the default of the specific ones")
        else:
            check(getattr(s, g) == d, "other limits keep their default")


@contract()
def any_number_in_the_environment():
    """Any decimal number in the environment is the limit it denotes."""
    n = sym_str("digits", pattern="[0-9]{1,18}", pool=["0", "1", "128", "007", "999999999"])
    i = choose("field", 8)
    set_env(**{e: None for e in ENVS.values()})
    set_env(**{FIELDS[i][1]: n})
    check(getattr(SpanLimits(), FIELDS[i][0]) == int(n), "the number it denotes")


LOG_FIELDS = [("max_attributes", "OTEL_ATTRIBUTE_COUNT_LIMIT", 128), ("max_attribute_length", "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT", None)]


@contract()
def log_limits():
    """The same for the limits of log records."""
    f, env, documented = LOG_FIELDS[choose("field", 2)]
    arg, text = some_limit("arg"), choose("text", TEXTS)
    set_env(**{e: None for _, e, _ in LOG_FIELDS})
    set_env(**{env: text})
    value, err = resolve(arg, text, documented)
    if f == "max_attributes" and value is None:
        value = documented
    raised = False
    try:
        s = LogLimits(**({f: arg} if arg is not None else {}))
    except ValueError:
        raised = True
    check(raised == err, "an error exactly for a value that is not a non-negative integer")
    if raised:
        return
    check(getattr(s, f) == value, "argument, else environment, else default")
    for g, _, d in LOG_FIELDS:
        if g != f:
            check(getattr(s, g) == d, "the other limit keeps its default")


# ------------------------------------------------------------------------------------ batching
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor
from opentelemetry.sdk.trace.export import BatchSpanProcessor

OPTIONS = ["max_queue_size", "max_export_batch_size", "schedule_delay_millis", "export_timeout_millis"]
NAMES = {"BSP": ["OTEL_BSP_MAX_QUEUE_SIZE", "OTEL_BSP_MAX_EXPORT_BATCH_SIZE", "OTEL_BSP_SCHEDULE_DELAY", "OTEL_BSP_EXPORT_TIMEOUT"],
         "BLRP": ["OTEL_BLRP_MAX_QUEUE_SIZE", "OTEL_BLRP_MAX_EXPORT_BATCH_SIZE", "OTEL_BLRP_SCHEDULE_DELAY", "OTEL_BLRP_EXPORT_TIMEOUT"]}
DOCUMENTED = [2048, 512, 5000, 30000]


class Null:
    def export(self, batch):
        return None

    def shutdown(self):
        pass


@contract()
def batching_options():
    """Any explicit values, else the environment's, else the documented defaults; an unusable text falls back; sizes and delays that cannot work are an error."""
    fake_threads()
    which = choose("kind", ["BSP", "BLRP"])
    set_env(**{n: None for ns in NAMES.values() for n in ns})
    values, kw = list(DOCUMENTED), {}
    focus = choose("focus", 4)
    text = choose("text", [None, "", "7", " 9 ", "x", "2.5", "0", "-1"])
    if text is not None:
        set_env(**{NAMES[which][focus]: text})
        values[focus] = {"7": 7, " 9 ": 9, "0": 0, "-1": -1}.get(text, values[focus])
    for i in range(4):
        # the option in focus may be given too; the queue and batch sizes also together
        if i == focus and choose("given", 2) or i < 2 and focus < 2 and i != focus and choose("other", 2):
            v = sym_int(OPTIONS[i])
            kw[OPTIONS[i]], values[i] = v, v
    q, b, d, t = values
    bad = either(q <= 0, d <= 0, b <= 0, b > q)
    raised = False
    try:
        p = (BatchSpanProcessor if which == "BSP" else BatchLogRecordProcessor)(Null(), **kw)
    except ValueError:
        raised = True
    check(bad if raised else neg(bad), "an error exactly for sizes or delays that cannot work")
    if raised:
        return
    names = OPTIONS if which == "BSP" else ["_" + n for n in OPTIONS]
    for n, v in zip(names, values):
        check(attr(p, n) == v, "explicit, else environment, else default")


METRIC_OPTIONS = [("export_interval_millis", "OTEL_METRIC_EXPORT_INTERVAL", 60000), ("export_timeout_millis", "OTEL_METRIC_EXPORT_TIMEOUT", 30000)]


class NullMetrics(MetricExporter):
    def export(self, metrics_data, timeout_millis=10000, **kwargs):
        return None

    def force_flush(self, timeout_millis=10000):
        return True

    def shutdown(self, timeout_millis=30000, **kwargs):
        pass


@contract()
def periodic_reader_options():
    """Interval and time limit of the periodic metric reader: the argument, zero included, else the environment's number, else the default; an interval that is not positive is an error."""
    fake_threads()
    for name, fake in (("Thread", XThread), ("Event", XEvent)):
        stub(metric_export, name, fake)
    set_env(**{e: None for _, e, _ in METRIC_OPTIONS})
    kw, values = {}, []
    for f, e, d in METRIC_OPTIONS:
        text = choose(f + ".text", [None, "7", " 9.5 ", "x", "", "0", "-1"])
        value = {"7": 7, " 9.5 ": 9.5, "0": 0, "-1": -1}.get(text, d)
        set_env(**{e: text})
        if choose(f + ".given", 2):
            value = kw[f] = sym_int(f, -3, 10 ** 6)
        values.append(value)
    raised = False
    try:
        r = PeriodicExportingMetricReader(NullMetrics(), **kw)
    except ValueError:
        raised = True
    check(iff(raised, values[0] <= 0), "an error exactly for an interval that cannot work")
    if not raised:
        check(attr(r, "_export_interval_millis") == values[0], "the interval")
        check(attr(r, "_export_timeout_millis") == values[1], "the time limit")


# ------------------------------------------------------------------------------------ header lists
TOKEN = r"[\x21\x23-\x27\x2a\x2b\x2d\x2e\x30-\x39\x41-\x5a\x5e-\x7a\x7c\x7e]+"
OCTETS = r"[\x21\x23-\x2b\x2d-\x3a\x3c-\x5b\x5d-\x7e]*"
LIBERAL = r"([\x21\x23-\x2b\x2d-\x3a\x3c-\x5b\x5d-\x7e]([\x20\x21\x23-\x2b\x2d-\x3a\x3c-\x5b\x5d-\x7e]*[\x21\x23-\x2b\x2d-\x3a\x3c-\x5b\x5d-\x7e])?)?"
LOWTOKEN = r"[\x21\x23\x24\x26\x27\x2a\x2b\x2d\x2e\x30-\x39\x5e-\x7a\x7c\x7e]+"


def header(tag, liberal):
    """A list member of each form there is: (text, entry or None)."""
    form = choose(tag + ".form", ["valid", "padded", "spaces in the value", "no equals sign", "bad name", "bad value", "empty"])
    if form == "empty":
        return choose(tag + ".blank", ["", " ", "\t"]), None
    if form == "no equals sign":
        return sym_str(tag + ".text", pattern=r"[^,=\s]([^,=]*[^,=\s])?", pool=["a", "a;b", "é", "(", "a b"]), None
    k = sym_str(tag + ".name", pattern=LOWTOKEN, pool=["a", "b", "x-1", "z"])
    v = sym_str(tag + ".value", pattern=OCTETS, pool=["1", "", "%20x", "1=2", "+", "%2C"])
    if form == "valid":
        return k + "=" + v, (k, v, True)
    if form == "padded":
        assume(neg(v == ""))
        left, right = choose(tag + ".pad", [(" ", " "), ("", "\t"), (" ", "")])
        return k + left + "=" + right + v, (k + left, right + v, True)
    if form == "spaces in the value":
        w = sym_str(tag + ".spaced", pattern=LIBERAL, pool=["a b", "Basic dXNlcg==", "x  y"])
        assume(neg(re_full(OCTETS, w)))
        return k + "=" + w, ((k, w, False) if liberal else None)
    if form == "bad name":
        bad = sym_str(tag + ".badname", pattern=r"([^,=\s][^,=]*)?", pool=["", "(", "a b", "é", "a;b"])
        assume(neg(re_full("[ \t]*" + TOKEN + "[ \t]*", bad)))
        return bad + "=" + v, None
    bad = sym_str(tag + ".badvalue", pattern=r"[^,\s]|[^,\s][^,]*[^,\s]", pool=["é", 'a"b', '"', "\\", "a;b"])
    assume(neg(re_full(LIBERAL, bad)))
    return k + "=" + bad, None


@contract(bound="up to 2 members of any form")
def exactly_the_well_formed_headers():
    """Members of every form, strictly or liberally read: exactly the well-formed pairs, in order, names in lower case, URL-decoded when they are encoded."""
    liberal = choose("liberal", [False, True])
    ms = [header("m", liberal)] + ([("b=1", ("b", "1", True))] if choose("more", 2) else [])
    text = ms[0][0]
    for m in ms[1:]:
        text = text + choose("sep", [",", " ,\t"]) + m[0]
    text = "A=0,E=x=y==,D=x y,d=%41=%2C,%58-Y=1,X-L=%41 b=c d,%58-Z=a b," + text + ",z=26"
    want = {"a": "0", "e": "x=y=="}
    if liberal:
        want["d"] = "x y"
    want["d"] = "A=,"
    want["x-y"] = "1"
    if liberal:
        want["x-l"] = "%41 b=c d"
        want["%58-z"] = "a b"
    for _, e in ms:
        if e is not None:
            want[unquote(e[0]).strip().lower() if e[2] else e[0]] = unquote(e[1]).strip() if e[2] else e[1]
    want["z"] = "26"
    got = parse_env_headers(text, liberal=liberal)
    check(list(got.items()) == list(want.items()), "exactly the well-formed pairs")


HEADERFN = {"name": (LOWTOKEN, ["a", "b", "x-1", "z"]), "value": (OCTETS, ["1", "", "%20x", "1=2", "+", "%2C"]), "spaced": (LIBERAL, ["a b", "Basic dXNlcg==", "x  y"]),
            "any": (r"[^,=\s]([^,=]*[^,=\s])?", ["a", "a;b", "é", "(", "a b"]), "badname": (r"([^,=\s][^,=]*)?", ["", "(", "a b", "é", "a;b"]),
            "bad": (r"[^,\s]|[^,\s][^,]*[^,\s]", ["é", 'a"b', '"', "\\", "a;b"])}
PADS = [(" ", " "), ("", "\t"), (" ", "")]


def unlike(pattern, text, other):
    """A text that does not match."""
    bad = neg(re_full(pattern, text))
    if symbolic():
        assume(bad)
        return text
    return text if bad else other


class Headers:
    """A list of any number of members of any form, with what an arbitrary name K is given by the first i of them."""

    def __init__(self, K, liberal):
        self.K, self.liberal = K, liberal
        self.forms = ["valid", 0, 1, 2, "spaces in the value", "no equals sign", "bad name", "bad value", "", " ", "\t"]
        self.kind = sym_fn("form", "int", 0, len(self.forms) - 1)
        self.f = {n: sym_fn(n, "str", pattern=p, pool=pool) for n, (p, pool) in HEADERFN.items()}
        if symbolic():
            self.given, self.text = ghost_fn("given", "bool"), ghost_fn("text", "str")
            assume(neg(self.given(0)))

    def draw(self, i, form):
        t = {n: f(i) for n, f in self.f.items()}
        k, v = t["name"], t["value"]
        if form == "valid":
            return k + "=" + v, (unquote(k).strip().lower(), unquote(v).strip())
        if form in (0, 1, 2):
            left, right = PADS[form]
            if is_true(v == ""):
                return "", None
            return k + left + "=" + right + v, (unquote(k + left).strip().lower(), unquote(right + v).strip())
        if form == "spaces in the value":
            w = unlike(OCTETS, t["spaced"], "a b")
            return k + "=" + w, ((k, w) if self.liberal else None)
        if form == "no equals sign":
            return t["any"], None
        if form == "bad name":
            return unlike("[ \t]*" + TOKEN + "[ \t]*", t["badname"], "(") + "=" + v, None
        if form == "bad value":
            return k + "=" + unlike(LIBERAL, t["bad"], "é"), None
        return form, None

    def at(self, i):
        k = self.kind(i)
        form = [f for c, f in enumerate(self.forms[:-1]) if is_true(k == c)]
        text, pair = self.draw(i, form[0] if form else self.forms[-1])
        if symbolic():
            if pair is None:
                assume(both(iff(self.given(i + 1), self.given(i)), self.text(i + 1) == self.text(i)))
            else:
                hit = pair[0] == self.K
                assume(both(iff(self.given(i + 1), either(hit, self.given(i))), self.text(i + 1) == ite(hit, pair[1], self.text(i))))
        return text


@contract(seconds=200, max_paths=20000, assumes=["re.split at the delimiter yields the list members"])
def members_of_a_whole_list():
    """A list of any number of members, each of any form, strictly or liberally read: every name has the value of the last well-formed member with it, no other name is there."""
    liberal = choose("liberal", [False, True])
    K = sym_str("K", pool=["a", "b", "x-1", "z", "c"])
    hs = Headers(K, liberal)
    list_ = sym_seq("split", hs.at, min_len=1, conc_max=6)
    n = length(list_)
    if symbolic():
        text = sym_str("text", pattern="[^\x00]*")

        def split(pattern, string, *rest):
            check(both(pattern == re_module._DELIMITER_PATTERN, string == text, len(rest) == 0), "the text is split at the delimiters")
            return list_
        stub(re_module, "split", split)

        def clauses(env, i):
            now = env.headers.get(K)
            return [iff(now is not None, hs.given(i)), now == hs.text(i) if now is not None else True]
        loop_inv(clauses, over="split", locals_={"headers": any_odict(None, None)})
    else:
        text = list_[0]
        for m in list_[1:]:
            text = text + choose("sep", [",", " ,\t"]) + m
    got = parse_env_headers(text, liberal=liberal).get(K)
    if symbolic():
        check(iff(got is not None, hs.given(n)), "there exactly if a well-formed member has that name")
        if got is not None:
            check(got == hs.text(n), "with the value of the last one")
        return
    want = {}
    for i in range(n):
        pair = hs.draw(i, hs.forms[hs.kind(i)])[1]
        if pair is not None:
            want[pair[0]] = pair[1]
    check(iff(got is not None, K in want), "there exactly if a well-formed member has that name")
    check(got == want.get(K), "with the value of the last one")


@contract(fallback=2)
def any_header_text():
    """Any text: never raises; at most one entry for each member."""
    text = sym_str("text", pool=["", ",", "=", "a", "a=1", "a=1,b", "a=%zz", "=,=", "a==b", " a = 1 ,", "\n", "é=é", "a=%ff", "a=b c", "A=1,a=2"])
    liberal = choose("liberal", [False, True])
    if symbolic():
        loop_inv(lambda env, i: [length(env.headers) <= i], over="split", locals_={"headers": any_odict(None, None)})
    got = parse_env_headers(text, liberal=liberal)
    check(length(got) >= 0, "a mapping, whatever the text")
