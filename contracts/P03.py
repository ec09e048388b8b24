"""P03: baggage is an immutable value; W3C baggage round trip and tolerant extraction."""
from contracts.common import *
from types import MappingProxyType
from urllib.parse import quote_plus, unquote_plus
from opentelemetry import baggage
from opentelemetry.baggage import propagation
from opentelemetry.baggage.propagation import W3CBaggagePropagator
from opentelemetry.context import Context

PROP = W3CBaggagePropagator()
TOKEN = r"[\x21\x23-\x27\x2a\x2b\x2d\x2e\x30-\x39\x41-\x5a\x5e-\x7a\x7c\x7e]+"
OCTETS = r"[\x21\x23-\x2b\x2d-\x3a\x3c-\x5b\x5d-\x7e]*"
PROPERTY = r"[ \t]*" + TOKEN + r"[ \t]*(=[ \t]*" + OCTETS + r"[ \t]*)?"
MEMBER = TOKEN + "=" + OCTETS + "(;" + PROPERTY + ")*"
NAMES = ["a", "b", "k1", "", "a b", "é", "a%20b"]
TEXTS = ["1", "", " x ", "a,b", "a=b;c", "é", "%41", "+", "\n", "v" * 50]


def with_baggage(n):
    """A context with n baggage entries of any names and values, and something else."""
    c = Context({"k": "other"})
    ks, vs = [], []
    for i in range(n):
        k, v = sym_str(f"name{i}", pool=NAMES), sym_int(f"value{i}")
        for o in ks:
            assume(neg(o == k))
        c = baggage.set_baggage(k, v, c)
        ks.append(k)
        vs.append(v)
    return c, list(zip(ks, vs))


def entries(c):
    return list(baggage.get_all(c).items())


@contract()
def changed_in_exactly_that():
    """set, remove and clear: a new context with exactly that change; the given one and everything else in it as before."""
    n = choose("n", 4)
    c, es = with_baggage(n)
    check(entries(c) == es, "what was set is there, in order")
    k, v = sym_str("name", pool=NAMES), sym_int("value")
    how = choose("current", 2)
    token = context_api.attach(c if how else Context({"x": 1}))
    arg = None if how else c
    op = choose("op", ["set", "remove", "clear"])
    if op == "set":
        d = baggage.set_baggage(k, v, arg)
        had = any(is_true(k == x) for x, _ in es)
        want = [(x, v if is_true(k == x) else y) for x, y in es] + ([] if had else [(k, v)])
    elif op == "remove":
        d = baggage.remove_baggage(k, arg)
        want = [(x, y) for x, y in es if not is_true(k == x)]
    else:
        d = baggage.clear(arg)
        want = []
    context_api.detach(token)
    check(entries(d) == want, "exactly that change")
    check(d["k"] == "other" and len(d) == 2, "other values of the context stay")
    check(d is not c and entries(c) == es, "the given context is as before")
    check(len(c) == (2 if n else 1), "nothing is added to the given context")
    e = baggage.set_baggage("later", 1, d)
    check(entries(d) == want and baggage.get_baggage("later", e) == 1, "the new context is immutable too")


@contract()
def explicit_context_is_used():
    """An explicitly given context, even one that holds nothing, is what is read and changed, whatever the current one holds."""
    token = context_api.attach(baggage.set_baggage("cur", 1, Context({"k": "other"})))
    c = choose("given", [Context(), Context({"z": 1}), Context({baggage._BAGGAGE_KEY: "no baggage"})])
    check(entries(c) == [] and baggage.get_baggage("cur", c) is None, "nothing is read from the current context")
    k, v = sym_str("name", pool=NAMES), sym_int("value")
    for d, want in ((baggage.set_baggage(k, v, c), [(k, v)]), (baggage.remove_baggage(k, c), []), (baggage.clear(c), [])):
        check(entries(d) == want, "exactly that change")
        check("k" not in d and all(d[x] == y for x, y in c.items() if x != baggage._BAGGAGE_KEY), "made to the given context")
    carrier = {}
    PROP.inject(carrier, c)
    check(not carrier, "nothing is injected from the current context")
    d = PROP.extract({"baggage": ["a=1"]}, c)
    check(entries(d) == [("a", "1")] and "k" not in d, "extraction extends the given context")
    context_api.detach(token)


@contract()
def any_number_of_entries():
    """The same for baggage of any size: every other name keeps its value."""
    vals = sym_fn("vals", "int")
    b = sym_odict("b", vals, keys=NAMES)
    c = context_api.set_value(baggage._BAGGAGE_KEY, b, Context({"k": "other"}))
    k, v, q = sym_str("name", pool=NAMES), sym_int("value"), sym_str("any", pool=NAMES)
    before, size = baggage.get_baggage(q, c), length(baggage.get_all(c))
    had = k in baggage.get_all(c)
    op = choose("op", ["set", "remove", "clear"])
    if op == "set":
        d = baggage.set_baggage(k, v, c)
        want, n = (v if q == k else before), size + ite(had, 0, 1)
    elif op == "remove":
        d = baggage.remove_baggage(k, c)
        want, n = (None if q == k else before), size - ite(had, 1, 0)
    else:
        d = baggage.clear(c)
        want, n = None, 0
    check(baggage.get_baggage(q, d) == want, "exactly that change")
    check(length(baggage.get_all(d)) == n, "no other entry")
    check(baggage.get_baggage(q, c) == before and length(baggage.get_all(c)) == size, "the given context is as before")


@contract()
def handed_out_mapping_is_read_only():
    c, es = with_baggage(choose("n", 3))
    m = baggage.get_all(c)
    check(isinstance(m, MappingProxyType), "a read-only view")
    for attempt in range(3):
        try:
            if attempt == 0:
                m["a"] = 1
            elif attempt == 1:
                del m["a"]
            else:
                m.clear()
            fail("the mapping handed out was modified")
        except (TypeError, AttributeError, KeyError):
            pass
    check(entries(c) == es, "the baggage is as before")
    d = baggage.set_baggage("later", 1, c)
    assume(all(is_true(neg(x == "later")) for x, _ in es))
    check(list(m.items()) == es, "a view handed out does not change later")
    check(baggage.get_baggage("later", c) is None and baggage.get_baggage("later", d) == 1, "nor does the context")
    check(len(baggage.get_all(Context())) == 0, "no baggage reads as empty")


@contract(bound="up to three entries")
def round_trip():
    """inject then extract, up to three entries with any token names and any texts: the same entries; nothing else changes."""
    n = choose("n", 4)
    c, es = Context({"k": "other"}), []
    for i in range(n):
        k = sym_str(f"name{i}", pattern=TOKEN, pool=["a", "b", "k1", "a%20b", "a+b", "%"])
        v = sym_str(f"value{i}", pool=TEXTS)
        assume(both(length(k) <= 100, length(v) <= 100))
        for x, _ in es:
            assume(neg(x == k))
        c = baggage.set_baggage(k, v, c)
        es.append((k, v))
    carrier = {"unrelated": "1"}
    PROP.inject(carrier, c)
    check(("baggage" in carrier) == (n > 0), "a header exactly when there is baggage")
    check(len(carrier) == (2 if n else 1) and carrier["unrelated"] == "1", "no other header")
    base = Context({"z": 1})
    d = PROP.extract(carrier, base)
    check(entries(d) == es, "the same entries in the same order")
    check(d["z"] == 1 and len(base) == 1, "nothing else changes")


@contract()
def current_context_is_the_default():
    """Without a context, inject reads and extract extends the current one."""
    token = context_api.attach(baggage.set_baggage("a", "1", Context({"k": "other"})))
    carrier = {}
    PROP.inject(carrier)
    out = PROP.extract({"baggage": ["b=2"]})
    context_api.detach(token)
    check(carrier == {"baggage": "a=1"}, "the current baggage is written")
    check(entries(out) == [("a", "1"), ("b", "2")] and out["k"] == "other", "the current context is extended")


def member(tag):
    """A list member of each form there is (texts without a comma, at most one semicolon): (text, name and value if it is valid)."""
    form = choose(tag + ".form", ["valid", "with property", "with flag", "no equals sign", "bad name", "bad value", "bad property", "two properties", "bad second property", "empty"])
    if form == "empty":
        return "", None
    if form == "no equals sign":
        return sym_str(tag + ".text", pattern="[^,= \t]([^,=]*[^,= \t])?", pool=["a", "a;b", "é", "(", "a b"]), None
    k = sym_str(tag + ".name", pattern=TOKEN, pool=["a", "b", "a+b", "%20", "z"])
    v = sym_str(tag + ".value", pattern=OCTETS, pool=["1", "", "%20x", "1=2", "+"])
    if form == "valid":
        return k + "=" + v, (k, v)
    if form == "with property":
        p = sym_str(tag + ".prop", pattern=TOKEN + r"[ \t]*=[ \t]*" + OCTETS.replace("]*", "]+"), pool=["p=2", "p = 2"])
        return k + "=" + v + ";" + p, (k, v + ";" + p)
    if form == "with flag":
        p = sym_str(tag + ".flag", pattern=TOKEN, pool=["p"])
        return k + "=" + v + ";" + p, (k, v + ";" + p)
    if form == "bad name":
        bad = sym_str(tag + ".badname", pattern="([^,= \t][^,=]*)?", pool=["", "(", "a b", "é", "a ", "a;b"])
        assume(neg(re_full(TOKEN, bad)))
        return bad + "=" + v, None
    if form == "bad value":
        bad = sym_str(tag + ".badvalue", pattern="[^,;]*[^,; \t]", pool=["é", "a b", '"', "\\"])
        assume(neg(re_full(OCTETS, bad)))
        return k + "=" + bad, None
    if form == "two properties":
        p, q = sym_str(tag + ".p1", pattern=TOKEN, pool=["p"]), sym_str(tag + ".p2", pattern=TOKEN, pool=["q"])
        return k + "=" + v + ";" + p + ";" + q, (k, v + ";" + p + ";" + q)
    bad = sym_str(tag + ".badprop", pattern="[^,;]*[^,; \t]", pool=["(", "a b", "=1", "p=é"])
    assume(neg(re_full(PROPERTY, bad)))
    return k + "=" + v + (";p;q=1;" if form == "bad second property" else ";") + bad, None


@contract(bound="up to three members")
def exactly_the_valid_members():
    """extract of up to three members of any form: the valid ones are set in order, the others ignored."""
    ms = [member("m")] + ([("b=1", ("b", "1"))] if choose("more", 2) else [])
    text = ms[0][0]
    for m in ms[1:]:
        text = text + choose("sep", [",", " ,\t"]) + m[0]
    text = "a=0," + text + ",z=26"
    assume(length(text) <= 4000)
    base = baggage.set_baggage("z", "old", Context({"k": "other"}))
    want = {"z": "old", "a": "0"}
    for _, pair in ms:
        if pair is not None:
            want[unquote_plus(pair[0])] = unquote_plus(pair[1])
    want["z"] = "26"
    d = PROP.extract({"baggage": [text]}, base)
    check(entries(d) == list(want.items()), "exactly the valid members")
    check(d["k"] == "other" and entries(base) == [("z", "old")], "nothing else changes")


def unlike(pattern, text):
    """A text that does not match."""
    bad = neg(re_full(pattern, text))
    if symbolic():
        assume(bad)
        return text
    return text if bad else "a é"


class Members:
    """A list of any number of members of any form, with what an arbitrary name K is bound to after the first i of them."""

    def __init__(self, K, old, forms):
        self.K, self.forms, self.kind = K, forms, sym_fn("form", "int", 0, len(forms) - 1)
        self.bound, self.text = (ghost_fn("bound", "bool"), ghost_fn("text", "str")) if symbolic() else (None, None)
        if symbolic():
            assume(iff(self.bound(0), old is not None))
            if old is not None:
                assume(self.text(0) == old)

    def at(self, i):
        k = self.kind(i)
        form = [f for f in self.forms[:-1] if is_true(k == self.forms.index(f))]
        text, pair = self.draw(i, form[0] if form else self.forms[-1])
        if symbolic():
            if pair is None:
                assume(both(iff(self.bound(i + 1), self.bound(i)), self.text(i + 1) == self.text(i)))
            else:
                name, value = pair
                hit = name == self.K
                assume(both(iff(self.bound(i + 1), either(hit, self.bound(i))), self.text(i + 1) == ite(hit, value, self.text(i))))
        return text


TEXTFN = {"name": (TOKEN, ["a", "b", "a+b", "%20", "z"]), "value": (OCTETS, ["1", "", "%20x", "1=2", "+"]), "flag": (TOKEN, ["p", "q"]),
          "prop": (TOKEN + r"[ \t]*=[ \t]*" + OCTETS.replace("]*", "]+"), ["p=2", "p = 2"]),
          "any": ("[^,= \t]([^,=]*[^,= \t])?", ["a", "a;b", "é", "(", "a b"]), "badname": ("([^,= \t][^,=]*)?", ["", "(", "a b", "é", "a ", "a;b"]),
          "bad": ("[^,;]*[^,; \t]", ["é", "a b", '"', "\\", "(", "=1", "p=é"])}


class BaggageMembers(Members):
    def __init__(self, K, old):
        self.f = {n: sym_fn(n, "str", pattern=p, pool=pool) for n, (p, pool) in TEXTFN.items()}
        Members.__init__(self, K, old, ["valid", "with property", "with flag", "two properties", "no equals sign", "bad name", "bad value", "bad property", "empty"])

    def draw(self, i, form):
        t = {n: f(i) for n, f in self.f.items()}
        k, v, bad = t["name"], t["value"], t["bad"]
        tail = {"valid": "", "with property": ";" + t["prop"], "with flag": ";" + t["flag"], "two properties": ";" + t["flag"] + ";" + t["prop"]}
        if form in tail:
            text = k + "=" + v + tail[form]
            return text, (unquote_plus(k), unquote_plus(v + tail[form])) if is_true(length(text) <= 4096) else None
        if form == "empty":
            return "", None
        if form == "no equals sign":
            return t["any"], None
        if form == "bad name":
            return unlike(TOKEN, t["badname"]) + "=" + v, None
        if form == "bad value":
            return k + "=" + unlike(OCTETS, bad), None
        bad = unlike(PROPERTY, bad)
        return k + "=" + v + ";" + bad, None


@contract(seconds=200, max_paths=20000, assumes=["re.split at the delimiter yields the list members"])
def members_of_a_whole_header():
    """extract of any number of members up to the maximum, each of any form: every name is bound to what the last valid member says, or else to what it was before."""
    K = sym_str("K", pool=["a", "b", "z", "a b", " "])
    base = baggage.set_baggage("z", "old", Context({"k": "other"}))
    ms = BaggageMembers(K, baggage.get_baggage(K, base))
    list_ = sym_seq("split", ms.at, min_len=1, max_len=180, conc_max=6)
    n = length(list_)
    if symbolic():
        text = sym_str("baggage", pattern="[^\x00]*")
        assume(both(length(text) > 0, length(text) <= 8192))

        def split(pattern, string, *rest):
            check(both(pattern == propagation._DELIMITER_PATTERN, string == text, len(rest) == 0), "the header is split at the delimiters")
            return list_
        stub(propagation, "split", split)

        def clauses(env, i):
            c = env.context
            now = baggage.get_all(c).get(K)
            out = [c["k"] == "other", env.total_baggage_entries >= 180 - i, env.total_baggage_entries <= 180, iff(now is not None, ms.bound(i))]
            return out + [now == ms.text(i) if now is not None else True]
        loop_inv(clauses, over="split", locals_={"context": any_baggage_context})
    else:
        text = list_[0]
        for m in list_[1:]:
            text = text + choose("sep", [",", " ,\t"]) + m
        assume(0 < len(text) <= 8192)
    d = PROP.extract({"baggage": [text]}, base)
    got = baggage.get_baggage(K, d)
    if symbolic():
        check(iff(got is not None, ms.bound(n)), "bound exactly if a valid member says so or it was before")
        if got is not None:
            check(got == ms.text(n), "to what the last one says")
    else:
        want = {"z": "old"}
        for i in range(n):
            pair = ms.draw(i, ms.forms[ms.kind(i)])[1]
            if pair is not None:
                want[pair[0]] = pair[1]
        check(iff(got is not None, K in want), "bound exactly if a valid member says so or it was before")
        check(got == want.get(K), "to what the last one says")
    check(d["k"] == "other" and entries(base) == [("z", "old")], "nothing else changes")


def any_baggage_context(tag):
    def val(i):
        return ghost_fn(tag + ".val", "str")(i)
    return context_api.set_value(baggage._BAGGAGE_KEY, sym_odict(tag, val), Context({"k": "other"}))


@contract(fallback=2)
def any_header():
    """extract of any text: never raises; at most 180 entries; other values of the context stay."""
    h = sym_str("baggage", pool=["a=1", "a=1,b=2", ",", "=", "a=1;", "a", " a=1 , b = 2 ", "\n", "%", "a=%zz", "a=" + "x" * 5000, "x" * 9000, "a=1," + "b" * 4097 + "=1", "é=1", "a=b,,c=d"])
    if symbolic():
        loop_inv(lambda env, i: [env.context["k"] == "other", env.total_baggage_entries >= 1, env.total_baggage_entries <= 180,
                                 length(baggage.get_all(env.context)) <= 180 - env.total_baggage_entries],
                 over="split", locals_={"context": any_baggage_context})
        loop_inv(lambda env, i: [True], key="baggage:_is_valid_value")
    base = Context({"k": "other"})
    d = PROP.extract({"baggage": [h]}, base)
    check(d["k"] == "other", "other values stay")
    check(length(baggage.get_all(d)) <= 180, "at most 180 entries")
    check(len(base) == 1, "the given context is not changed")


@contract()
def absent_header():
    carrier = choose("carrier", [{}, {"baggage": []}, {"baggage": ""}, {"baggage": [""]}, {"Baggage": "a=1"}])
    base = baggage.set_baggage("a", "1", Context())
    check(PROP.extract(carrier, base) is base, "the context is returned unchanged")


@contract()
def oversized_header():
    """A header of more than 8192 characters, whatever its text, is ignored; one of exactly 8192 is read."""
    h = sym_str("baggage", pool=["a=1," + "b=2," * 3000, "x" * 8193])
    assume(length(h) > 8192)
    base = baggage.set_baggage("a", "old", Context())
    check(PROP.extract({"baggage": [h]}, base) is base, "too long a header is ignored")


def padded(name, n):
    """A member of exactly n characters."""
    return name + "=" + "v" * (n - len(name) - 1)


@contract()
def limits_are_exact():
    """At the limits: 8192 characters, 4096 per member, 180 members; what is beyond them does not disturb the rest."""
    case = choose("case", ["header", "member", "count", "count with bad ones"])
    if case == "header":
        d = PROP.extract({"baggage": [padded("a", 4000) + "," + padded("b", 4000) + "," + padded("c", 190)]}, Context())
        check(list(baggage.get_all(d)) == ["a", "b", "c"], "8192 characters are read")
        d = PROP.extract({"baggage": [padded("a", 4000) + "," + padded("b", 4000) + "," + padded("c", 191)]}, Context())
        check(len(baggage.get_all(d)) == 0, "8193 are not")
    elif case == "member":
        d = PROP.extract({"baggage": ["x=1," + padded("a", 4096) + ",y=2"]}, Context())
        check(list(baggage.get_all(d)) == ["x", "a", "y"], "a member of 4096 characters is read")
        d = PROP.extract({"baggage": ["x=1," + padded("a", 4097) + ",y=2"]}, Context())
        check(list(baggage.get_all(d)) == ["x", "y"], "a longer one is ignored")
    else:
        extra = choose("extra", [0, 1, 5])
        bad = ["(=1", "", "novalue"] if case == "count with bad ones" else []
        ks = [f"k{i}" for i in range(180 + extra)]
        d = PROP.extract({"baggage": [",".join(bad + [k + "=1" for k in ks])]}, Context())
        check(list(baggage.get_all(d)) == ks[:180], "the first 180 are read")


@contract()
def fields():
    check(PROP.fields == {"baggage"}, "the header inject writes")
