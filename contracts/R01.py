"""R01: resource merging: the updating side wins, schema conflicts are safe."""
import concurrent.futures
from urllib.parse import unquote
from contracts.common import *
from opentelemetry.attributes import BoundedAttributes
from opentelemetry.sdk import resources as res
from opentelemetry.sdk.resources import OTELResourceDetector, ResourceDetector, get_aggregated_resources

URLS = ["", "https://a/1", "https://b/2", "https://A/1", "https://a/1/", " "]
DEFAULTS = {"telemetry.sdk.language": "python", "telemetry.sdk.name": "opentelemetry"}


def merged_url(u, v):
    """(merged schema URL, conflict?) by the specification."""
    if is_true(u == ""):
        return v, False
    if is_true(either(v == "", u == v)):
        return u, False
    return u, True


def items(r):
    return list(r.attributes.items())


def mapping(name, n):
    """n entries with any different names and any values."""
    ks, d = [], {}
    for i in range(n):
        k = sym_str(f"{name}.key{i}", pool=["a", "b", "service.name", "é"])
        assume(k != "")
        for o in ks:
            assume(neg(o == k))
        ks.append(k)
        d[k] = sym_int(f"{name}.value{i}")
    return d


def overlaid(a, b):
    """Every entry of both, b's value where both have the key (lists of pairs)."""
    out = [(k, next((w for l, w in b if is_true(l == k)), v)) for k, v in a]
    return out + [(l, w) for l, w in b if not any(is_true(l == k) for k, _ in a)]


@contract(bound="up to 2 attributes on each side")
def merge_entries():
    """Up to two attributes on each side with any names and values, any schema URLs: exactly the entries of both, the other's value winning."""
    a, b = mapping("a", choose("na", 3)), mapping("b", choose("nb", 3))
    u, v = sym_str("url", pool=URLS), sym_str("other_url", pool=URLS)
    x, y = Resource(a, u), Resource(b, v)
    xs, ys = items(x), items(y)
    m = x.merge(y)
    url, conflict = merged_url(u, v)
    check(m.schema_url == url, "the merged schema URL")
    want = xs if conflict else overlaid(xs, ys)
    got = items(m)
    check(len(got) == len(want), "no entry lost or invented")
    for k, val in want:
        check(m.attributes[k] == val, "the other's value where both define it, else the only one")
    if conflict:
        check(m is x, "a conflict yields the original")
    check(items(x) == xs and items(y) == ys, "the inputs keep their attributes")
    check(both(x.schema_url == u, y.schema_url == v), "and their schema URLs")
    check(len(a) == len(xs) and len(b) == len(ys), "the given mappings too")


def bounded_attributes_contract(self, maxlen=None, attributes=None, immutable=True, max_value_len=None):
    """What BoundedAttributes.__init__ guarantees without limits (proved by T03.construction_unbounded): the entries given."""
    check(both(maxlen is None, max_value_len is None), "attributes of a resource are not limited")
    self.maxlen, self.dropped, self.max_value_len, self._immutable = maxlen, 0, max_value_len, immutable
    self._dict = dict(attributes) if attributes is not None else {}
    import threading
    self._lock = threading.RLock()


def any_resource(name, url):
    val = sym_fn(name + ".val", "int", arg="str")
    d = sym_map(name, lambda k: val(k), keys=["a", "b", "c", "service.name"])
    assume(neg("" in d))
    return Resource(d, url), d


@contract()
def merge_unbounded():
    """Attributes of any number on both sides."""
    if symbolic():
        stub(BoundedAttributes, "__init__", bounded_attributes_contract)
    u, v = sym_str("url", pool=URLS), sym_str("other_url", pool=URLS)
    (x, a), (y, b) = any_resource("a", u), any_resource("b", v)
    q = sym_str("any", pool=["a", "b", "c", "service.name"])
    m = x.merge(y)
    url, conflict = merged_url(u, v)
    check(m.schema_url == url, "the merged schema URL")
    if conflict:
        check(m is x, "a conflict yields the original")
        check(m.attributes.get(q) == a.get(q), "with its attributes")
    elif is_true(q in b):
        check(m.attributes.get(q) == b[q], "the other's value wins")
    elif is_true(q in a):
        check(m.attributes.get(q) == a[q], "a value of the original is kept")
    else:
        check(q not in m.attributes, "nothing invented")
    check(both(iff(q in x.attributes, q in a), iff(q in y.attributes, q in b)), "inputs keep their keys")
    check(both(x.attributes.get(q) == a.get(q), y.attributes.get(q) == b.get(q)), "and values")
    check(both(x.schema_url == u, y.schema_url == v), "and schema URLs")


@contract()
def large_resources():
    """Many attributes and long texts on both sides are all kept; neither the merged resource nor the inputs can be changed."""
    n, m, u = choose("n", [0, 1, 200]), choose("m", [0, 1, 200]), sym_str("text", pool=["", "v"])
    a, b = {f"a{i}": u for i in range(n)}, {f"b{i}": "x" * 5000 for i in range(m)}
    x, y = Resource(a), Resource(b)
    got = x.merge(y)
    check(len(got.attributes) == n + m, "no attribute lost")
    for k in a:
        check(got.attributes[k] == u, "with its value")
    for k in b:
        check(len(got.attributes[k]) == 5000, "with its whole value")
    for r, size in ((got, n + m), (x, n), (y, m)):
        try:
            r.attributes["new"] = 1
        except TypeError:
            pass
        check(len(r.attributes) == size, "cannot be changed")


# ------------------------------------------------------------------------------------ detectors
class SlowFuture:
    def __init__(self, fn):
        self.fn = fn

    def result(self, timeout=None):
        """What a future guarantees: the call's result or exception, or TimeoutError when it takes longer than the time given."""
        d = self.fn.__self__
        if timeout is not None and is_true(getattr(d, "takes", 0) > timeout):
            raise concurrent.futures.TimeoutError()
        return self.fn()


class InlineExecutor:
    """The contract of ThreadPoolExecutor as used here."""

    def __init__(self, max_workers=None, **kw):
        pass

    def submit(self, fn, *a, **k):
        return SlowFuture(fn)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def shutdown(self, *a, **k):
        pass


def inline_futures():
    stub(concurrent.futures, "ThreadPoolExecutor", InlineExecutor)


class NotFound(Exception):
    """Whatever a detector may raise."""


class Det(ResourceDetector):
    def __init__(self, outcome, resource, takes, raise_on_error=False):
        super().__init__(raise_on_error)
        self.outcome, self.resource, self.takes, self.runs = outcome, resource, takes, 0

    def detect(self):
        self.runs += 1
        if self.outcome == "fails":
            raise NotFound("no such thing here")
        return self.resource


@contract(bound="up to 3 detectors")
def detectors_in_order():
    """Up to three detectors that answer, fail or take longer than allowed: the initial resource overlaid by the answers in order; a failure is skipped, or raised where asked for."""
    inline_futures()
    n = choose("n", 4)
    limit = sym_int("timeout", 0, 1000)
    q = sym_str("key", pool=["a", "b", "c"])
    assume(neg(q == ""))
    initial = Resource({"a": 0, "kept": 1}, choose("url", URLS[:2]))
    want, url, ds, raises = items(initial), initial.schema_url, [], None
    for i in range(n):
        o = choose(f"outcome{i}", ["answers", "fails"])
        r = Resource({q: sym_int(f"value{i}")} if i else {"a": 7}, choose(f"url{i}", URLS[:3]) if i == 0 else "")
        d = Det(o, r, sym_int(f"takes{i}", 0, 2000), i == 1 and choose("raise", 2) == 1)
        ds.append(d)
        late = is_true(d.takes > limit)
        if raises is None and d.raise_on_error and (late or o == "fails"):
            raises = concurrent.futures.TimeoutError if late else NotFound
        if not late and o == "answers":
            url, conflict = merged_url(url, r.schema_url)
            if not conflict:
                want = overlaid(want, items(r))
    before = items(initial)
    try:
        got = get_aggregated_resources(ds, initial, timeout=limit)
    except Exception as ex:
        check(raises is not None and isinstance(ex, raises), "only what a detector that may raise has raised")
        return
    check(raises is None, "a detector that may raise does")
    check(items(got) == want, "the answers in order, each overlaying the earlier")
    check(got.schema_url == url, "the merged schema URL")
    check(items(initial) == before, "the initial resource is not changed")


def value_or(q, r, default):
    return r.attributes.get(q, default)


@contract()
def nothing_is_added_to_an_empty_initial_resource():
    """With an initial resource, empty or not, the result has its entries and the detected ones only."""
    inline_futures()
    initial = choose("initial", [Resource({}), Resource.get_empty(), Resource({"a": 1})])
    d = Det("answers", Resource({"q": sym_int("value")}), 0)
    got = get_aggregated_resources([d] if choose("one", 2) else [], initial)
    want = overlaid(items(initial), items(d.resource) if d.runs else [])
    check(items(got) == want, "these entries only")


@contract()
def any_number_of_detectors():
    """Any number of detectors: for every key the value of the last one that answered with it, else the initial one; failures and delays cost only their own answer."""
    inline_futures()
    limit = sym_int("timeout", 0, 1000)
    takes, fails, has, val = sym_fn("takes", "int", 0, 2000), sym_fn("fails", "bool"), sym_fn("has", "bool"), sym_fn("val", "int")

    def detector(i):
        r = Resource({"q": val(i)} if is_true(has(i)) else {}, "")
        return Det("fails" if is_true(fails(i)) else "answers", r, takes(i))
    ds = sym_seq("detectors", detector, list)
    v0 = sym_int("initial")
    initial = Resource({"q": v0, "kept": 1}, "https://a/1")
    n = length(ds)
    if symbolic():
        last = ghost_fn("last", "int")
        assume(last(0) == v0)

        def defined(i):
            """The recursive definition of `last` at i."""
            assume(implies(i > 0, lambda: last(i) == ite(both(has(i - 1), both(neg(fails(i - 1)), takes(i - 1) <= limit)), val(i - 1), last(i - 1))))
            return True

        def some(tag):
            return Resource({"q": fresh_int(tag + ".q"), "kept": fresh_int(tag + ".kept")}, "https://a/1")
        loop_inv(lambda env, i: [defined(i), env.detectors_merged_resource.attributes["q"] == last(i), env.detectors_merged_resource.attributes["kept"] == 1,
                                 env.detectors_merged_resource.schema_url == "https://a/1", len(env.detectors_merged_resource.attributes) == 2],
                 key="resources:get_aggregated_resources", locals_={"detectors_merged_resource": some})
        want = last(n)
    else:
        want = v0
        for i in range(n):
            if has(i) and not fails(i) and takes(i) <= limit:
                want = val(i)
    got = get_aggregated_resources(ds, initial, timeout=limit)
    check(got.attributes["q"] == want, "the last answer with the key wins")
    check(both(got.attributes["kept"] == 1, len(got.attributes) == 2), "other entries stay")
    check(got.schema_url == "https://a/1", "the schema URL stays")
    check(initial.attributes["q"] == v0, "the initial resource is not changed")


# ------------------------------------------------------------------------------------ environment
TEXT = "[^,=]*"


def part(tag):
    """One member of the list of each form there is: (text, entry or None)."""
    form = choose(tag + ".form", ["pair", "padded", "no equals sign", "no name", "more equals signs"])
    v = sym_str(tag + ".value", pattern="([^ ,=\t\n\x0b\x0c\r\x1c-\x1f\x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]*)", pool=["", "1", "x%20y", "%e9", "+"])
    k = sym_str(tag + ".name", pattern="[A-Za-z0-9._%-]+", pool=["a", "b", "service.name", "a.b"])
    if form == "pair":
        return k + "=" + v, (k, unquote(v))
    if form == "padded":
        return " " + k + "\t= " + v + " ", (k, unquote(v))
    if form == "more equals signs":
        assume(neg(v == ""))
        return k + "=" + v + "=x", (k, unquote(v + "=x"))
    if form == "no name":
        return "=" + v, None
    return sym_str(tag + ".text", pattern=TEXT, pool=["", "a", " ", "é"]), None


@contract(bound="up to 2 members of any form")
def environment_members():
    """Members of every form: exactly the pairs with a name, values URL-decoded; the service name variable wins."""
    ms = [part("m")] + ([("b=1", ("b", "1"))] if choose("more", 2) else [])
    text = ms[0][0]
    for m in ms[1:]:
        text = text + "," + m[0]
    text = "a=0," + text
    name = None if choose("noname", 2) else sym_str("service", pattern="[^\x00]*", pool=["", "svc", " "])
    set_env(OTEL_RESOURCE_ATTRIBUTES=text, OTEL_SERVICE_NAME=name)
    want = [("a", "0")]
    for _, e in ms:
        if e is not None:
            want = overlaid(want, [e])
    if name is not None and is_true(neg(name == "")):
        want = overlaid(want, [("service.name", name)])
    r = OTELResourceDetector().detect()
    got = items(r)
    check(len(got) == len(want), "exactly the well-formed members")
    for k, v in want:
        check(r.attributes[k] == v, "with its value, the last one winning")
    check(r.schema_url == "", "no schema URL")


VALUE = "([^ ,=\t\n\x0b\x0c\r\x1c-\x1f\x85\xa0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]*)"


class Pairs:
    """A list of any number of members of any form, with what an arbitrary name K is given by the first i of them."""

    def __init__(self, K):
        self.K, self.forms = K, ["pair", "padded", "no equals sign", "no name", "more equals signs"]
        self.kind = sym_fn("form", "int", 0, len(self.forms) - 1)
        self.name, self.value = sym_fn("name", "str", pattern="[A-Za-z0-9._%-]+", pool=["a", "b", "service.name", "a.b"]), sym_fn("value", "str", pattern=VALUE, pool=["", "1", "x%20y", "%e9", "+"])
        self.rest = sym_fn("rest", "str", pattern=VALUE[:-2] + "+)", pool=["1", "x%20y", "="])
        self.other = sym_fn("other", "str", pattern=TEXT, pool=["", "a", " ", "é"])
        if symbolic():
            self.given, self.text = ghost_fn("given", "bool"), ghost_fn("text", "str")
            assume(neg(self.given(0)))

    def draw(self, i, form):
        k, v = self.name(i), self.value(i)
        if form == "pair":
            return k + "=" + v, (k, unquote(v))
        if form == "padded":
            return " " + k + "\t= " + v + " ", (k, unquote(v))
        if form == "more equals signs":
            return k + "=" + self.rest(i) + "=x", (k, unquote(self.rest(i) + "=x"))
        if form == "no name":
            return "=" + v, None
        return self.other(i), None

    def at(self, i):
        k = self.kind(i)
        form = [f for c, f in enumerate(self.forms[:-1]) if is_true(k == c)]
        text, pair = self.draw(i, form[0] if form else self.forms[-1])
        if symbolic():
            if pair is None:
                assume(both(iff(self.given(i + 1), self.given(i)), self.text(i + 1) == self.text(i)))
            else:
                hit = pair[0] == self.K
                assume(both(iff(self.given(i + 1), either(hit, self.given(i))), self.text(i + 1) == ite(hit, pair[1], self.text(i))))
        return text


@contract(seconds=120, assumes=["str.split at the comma yields the list members"])
def members_of_a_whole_environment():
    """Any number of members, each of any form: every name has the decoded value of the last pair with it, no other name is there; the service name variable wins."""
    K = sym_str("K", pool=["a", "b", "service.name", "a.b"])
    assume(neg(K == ""))
    ps = Pairs(K)
    list_ = sym_seq("split", ps.at, min_len=1, conc_max=6)
    n = length(list_)
    text = ",".join(list_)
    name = None if choose("noname", 2) else sym_str("service", pattern="[^\x00]*", pool=["", "svc", " "])
    if symbolic():
        assume(neg(text == ""))
        stub(BoundedAttributes, "__init__", bounded_attributes_contract)

        def clauses(env, i):
            now = env.env_resource_map.get(K)
            return [iff(now is not None, ps.given(i)), now == ps.text(i) if now is not None else True]
        loop_inv(clauses, key="OTELResourceDetector.detect", locals_={"env_resource_map": any_odict(None, None)})
    set_env(OTEL_RESOURCE_ATTRIBUTES=text, OTEL_SERVICE_NAME=name)
    r = OTELResourceDetector().detect()
    got = r.attributes.get(K)
    check(r.schema_url == "", "no schema URL")
    if name is not None and is_true(both(neg(name == ""), K == "service.name")):
        check(got == name, "the service name variable wins")
    elif symbolic():
        check(iff(got is not None, ps.given(n)), "there exactly if a pair has that name")
        if got is not None:
            check(got == ps.text(n), "with the decoded value of the last one")
    else:
        want = {}
        for i in range(n):
            pair = ps.draw(i, ps.forms[ps.kind(i)])[1]
            if pair is not None:
                want[pair[0]] = pair[1]
        check(iff(got is not None, K in want), "there exactly if a pair has that name")
        check(got == want.get(K), "with the decoded value of the last one")


@contract(fallback=2)
def any_environment():
    """Any text: never raises; names and values are texts; the service name variable wins."""
    text = sym_str("text", pattern="[^\x00]*", pool=["", ",", "=", "a", "a=1", "a=1,b", "a=%zz", "=,=", "a==b", " a = 1 ,", "service.name=x", "\n", "é=é", "a=%ff"])
    name = sym_str("service", pattern="[^\x00]*", pool=["", "svc"])
    set_env(OTEL_RESOURCE_ATTRIBUTES=text, OTEL_SERVICE_NAME=name)
    if symbolic():
        loop_inv(lambda env, i: [length(env.env_resource_map) <= i], over="split", locals_={"env_resource_map": any_odict(None, None)})
        stub(BoundedAttributes, "__init__", bounded_attributes_contract)
    r = OTELResourceDetector().detect()
    if is_true(neg(name == "")):
        check(r.attributes["service.name"] == name, "the service name variable wins")
    check(r.schema_url == "", "no schema URL")


# ------------------------------------------------------------------------------------ create
@contract()
def created():
    """Explicit attributes beat the environment, that beats the defaults; a missing or empty service name is filled; the schema URL given is used."""
    inline_futures()
    set_env(OTEL_RESOURCE_ATTRIBUTES=choose("env", [None, "a=env,e=env", "service.name=envsvc", "telemetry.sdk.name=mine"]),
            OTEL_SERVICE_NAME=choose("envname", [None, "fromname"]), OTEL_EXPERIMENTAL_RESOURCE_DETECTORS=choose("detectors", [None, "", "otel", " otel ,nosuchdetector"]))
    env = OTELResourceDetector().detect()
    attrs = {}
    if choose("a", 2):
        attrs["a"] = sym_int("value")
    sname = choose("service", [None, "given", "any"])
    if sname is not None:
        attrs["service.name"] = sym_str("name", pool=["", "svc"]) if sname == "any" else sname
    if choose("exe", 2):
        attrs["process.executable.name"] = sym_str("executable", pool=["", "py"])
    url = None if choose("nourl", 2) else sym_str("url", pool=URLS)
    given = dict(attrs)
    r = Resource.create(attrs if attrs else choose("none", [None, {}]), url)
    want = overlaid(overlaid(items(res._DEFAULT_RESOURCE), items(env)), list(attrs.items()))
    have = dict(want)
    if not have.get("service.name"):
        exe = have.get("process.executable.name")
        want = overlaid(want, [("service.name", "unknown_service:" + exe if exe else "unknown_service")])
    got = items(r)
    check(len(got) == len(want), "nothing lost, nothing else")
    for k, v in want:
        check(r.attributes[k] == v, "explicit beats environment beats default")
    check(r.schema_url == ("" if url is None else url), "the schema URL given")
    check(attrs == given, "the caller's mapping is not changed")


class Entry:
    def __init__(self, detector):
        self.detector = detector

    def load(self):
        return lambda: self.detector


@contract()
def service_name_is_always_filled():
    """Whatever the schema URLs of detected and given resources, and however a detector fails to load: the created resource names a service."""
    inline_futures()
    set_env(OTEL_EXPERIMENTAL_RESOURCE_DETECTORS="custom", OTEL_RESOURCE_ATTRIBUTES=None, OTEL_SERVICE_NAME=None)
    u = sym_str("detected_url", pool=URLS)
    exe = choose("exe", 2)
    found = Resource({"host.name": "h", "process.executable.name": "py"} if exe else {"host.name": "h"}, u)
    d = Det(choose("outcome", ["answers", "fails"]), found, 0)
    loads = choose("loads", [True, False])

    def entry_points(group, name):
        if name == "custom":
            return [Entry(d)] if loads else []
        return [Entry(OTELResourceDetector())]
    stub(res, "entry_points", entry_points)
    v = sym_str("url", pool=URLS)
    name = choose("name", [None, "svc"])
    r = Resource.create({"service.name": name, "a": 1} if name else {"a": 1}, v)
    answered = loads and d.outcome == "answers"
    url, conflict = merged_url(u if answered else "", v)
    check(r.schema_url == url, "the merged schema URL")
    check((r.attributes.get("host.name") == "h") == answered, "what was detected is there")
    check(r.attributes.get("a") == (None if conflict else 1), "the given attributes, unless the schemas conflict")
    want = "svc" if name and not conflict else "unknown_service:py" if answered and exe else "unknown_service"
    check(r.attributes.get("service.name") == want, "a service name is always there")
