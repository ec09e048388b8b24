"""T04: only valid, immutable attribute values are stored."""
from contracts.common import *
from opentelemetry.attributes import BoundedAttributes

VALID = (str, bool, int, float)


class Odd:
    pass


def any_value(tag, kinds):
    """(kind, the caller's value, the value that may be stored before truncation or None)"""
    kind = choose(tag + ".kind", kinds)
    if kind == "none":
        return kind, None, None
    if kind == "bool":
        v = sym_bool(tag)
        return kind, v, v
    if kind == "int":
        v = sym_int(tag)
        return kind, v, v
    if kind == "real":
        v = sym_real(tag)
        return kind, v, v
    if kind == "str":
        v = sym_str(tag)
        return kind, v, v
    if kind == "bytes":
        return kind, b"caf\xc3\xa9 and more", "café and more"
    if kind == "badbytes":
        return kind, b"a\xff\xfe", None
    if kind == "dict":
        return kind, {"a": 1}, None
    if kind == "set":
        return kind, {1}, None
    if kind == "list":
        return kind, [1], None
    if kind == "complex":
        return kind, 1j, None
    return kind, Odd(), None


GOOD = ("bool", "int", "real", "str", "bytes")
TYPE = {"bool": bool, "int": int, "real": float, "str": str, "bytes": str}
BADTOP = ("none", "badbytes", "dict", "set", "object", "complex")
ELEMENTS = GOOD + ("none", "badbytes", "dict", "object", "list")


def any_limit():
    return None if choose("nolimit", 2) else sym_int("limit", 0, 2**40)


def cut(kind, v, limit):
    return v if limit is None or kind not in ("str", "bytes") else v[:limit]


def check_stored(kind, got, v, limit, what):
    check(isinstance(got, TYPE[kind]), what + ": type kept")
    check(isinstance(got, bool) == (kind == "bool"), what + ": booleans stay booleans")
    check(got == cut(kind, v, limit), what + ": value kept, strings cut to the limit")
    if limit is not None and kind in ("str", "bytes"):
        check(length(got) <= limit, what + ": never longer than the limit")


def place(where, limit, key, value):
    """Store an attribute through one of the public ways; the stored mapping."""
    if where == "bounded":
        b = BoundedAttributes(None, {}, immutable=False, max_value_len=limit)
        b[key] = value
        return b
    if where == "construct":
        return BoundedAttributes(None, {key: value}, max_value_len=limit)
    kw = {"max_span_attribute_length": limit} if where in ("set_attribute", "set_attributes", "start") else {"max_attribute_length": limit}
    tracer = make_tracer(limits=SpanLimits(**(kw if limit is not None else {})))
    ctx = SpanContext(5, 6, False)
    if where == "start":
        return tracer.start_span("s", attributes={key: value}).attributes
    if where == "init_link":
        return tracer.start_span("s", links=[Link(ctx, {key: value})]).links[0].attributes
    span = tracer.start_span("s")
    if where == "set_attribute":
        span.set_attribute(key, value)
        return span.attributes
    if where == "set_attributes":
        span.set_attributes({key: value})
        return span.attributes
    if where == "event":
        span.add_event("e", {key: value})
        return span.events[0].attributes
    span.add_link(ctx, {key: value})
    return span.links[0].attributes


PLACES = ("bounded", "construct", "start", "set_attribute", "set_attributes", "event", "link", "init_link")


@contract()
def primitive_values():
    """Every public way to add an attribute stores a primitive value unchanged, up to the length limit."""
    limit = any_limit()
    kind, v, want = any_value("v", GOOD)
    k = sym_str("key")
    assume(k != "")
    a = place(choose("where", PLACES), limit, k, v)
    check(length(a) == 1, "stored")
    check_stored(kind, a[k], want, limit, "value")


@contract()
def invalid_values_and_keys():
    """Values of other types and empty or non-string keys are not stored, and nothing raises."""
    limit = any_limit()
    if choose("badkey", 2):
        kind, v, _ = any_value("v", GOOD)
        k = choose("key", ["", 1, None, b"k", 1.5, True, ("a",)])
    else:
        kind, v, _ = any_value("v", BADTOP)
        k = sym_str("key")
    a = place(choose("where", PLACES), limit, k, v)
    check(length(a) == 0, "not stored")


KINDS = ["int", "bool", "real", "str", "bytes", "none", "badbytes", "dict", "object"]
CODES = [int, bool, float, str]


class Elements:
    """The elements of a sequence of any length: the i-th is of kind number kind(i)."""

    def __init__(self):
        self.numbers = {k: sym_fn(k, k) for k in ("int", "bool", "real", "str")}
        any_kind, usual, odd = sym_fn("kind", "int", 0, len(KINDS) - 1), choose("usual kind", 5) if not symbolic() else None, sym_fn("odd", "bool")
        self.kind = any_kind if symbolic() else lambda i: any_kind(i) if odd(i) and odd(i + 1000) else usual

    def name(self, i):
        k = self.kind(i)
        for c in range(len(KINDS) - 1):
            if is_true(k == c):
                return KINDS[c]
        return KINDS[-1]

    def at(self, i):
        k = self.name(i)
        if k in self.numbers:
            return self.numbers[k](i)
        return {"bytes": b"caf\xc3\xa9 and more", "none": None, "badbytes": b"a\xff\xfe", "dict": {"a": 1}, "object": Odd()}[k]

    def nothing(self, j):
        return both(5 <= self.kind(j), self.kind(j) <= 6)

    def of(self, j, code):
        """The element is of that type."""
        k = self.kind(j)
        return either(k == code, both(code == 3, k == 4))

    def fits(self, j, code):
        return either(self.nothing(j), self.of(j, code))

    def right(self, got, j, limit):
        """What is stored for element j."""
        k = self.name(j)
        if k in ("none", "badbytes"):
            return got is None
        if k not in TYPE:
            return False
        v = "café and more" if k == "bytes" else self.numbers[k](j)
        return type(got) is TYPE[k] and got == cut(k, v, limit)


@contract(seconds=120, max_paths=20000)
def sequences():
    """Sequences of any length with any elements: stored exactly if all elements that are not None are of one valid type, as a tuple of the same elements, cut to the limit."""
    limit = any_limit()
    e = Elements()
    seq = sym_seq("value", e.at, list if choose("list", 2) else tuple)
    n = length(seq)
    j = sym_int("j", 0, big(10**9))

    def kept(tag):
        l = ghost_list()
        # contents as the invariant says: element by element what is to be stored
        havoc_list(l, lambda t, i: None if e.name(i) in ("none", "badbytes") else cut(e.name(i), e.at(i).decode() if e.name(i) == "bytes" else e.at(i), limit))
        return l

    def inv(env, i):
        c, first = env.cleaned_seq, env.sequence_first_valid_type
        out = [length(c) == i]
        if first is None:
            out += [forall(0, i, e.nothing), True]
        else:
            out += [forall(0, i, lambda m: e.fits(m, CODES.index(first))), exists(0, i, lambda m: e.of(m, CODES.index(first)))]
        if not is_true(both(j < i, j < length(c))):
            return out + [True]
        return out + [e.right(item(c, j), j, limit)]
    loop_inv(inv, over="value", locals_={"cleaned_seq": kept, "sequence_first_valid_type": lambda tag: choose(tag, [None] + CODES)})
    b = BoundedAttributes(None, {}, immutable=False, max_value_len=limit)
    b["k"] = seq
    if "k" not in b:
        for code in range(4):
            check(exists(0, n, lambda m: neg(e.fits(m, code))), "dropped only if elements are invalid or of different types")
        return
    got = b["k"]
    check(exists(0, 4, lambda code: forall(0, n, lambda m: e.fits(m, code))) if not symbolic() else True, "stored only if all elements are of one valid type or None")
    if symbolic():
        odd = [sym_int(f"odd{code}", 0) for code in range(4)]
        check(neg(both(*[both(odd[c] < n, neg(e.fits(odd[c], c))) for c in range(4)])), "stored only if all elements are of one valid type or None")
    check(isinstance(got, tuple), "stored as a tuple")
    check(length(got) == n, "no element lost")
    if is_true(j < n):
        check(e.right(got[j], j, limit), "each element kept, undecodable bytes become None")


@contract()
def a_list_is_copied():
    """Later changes of the caller's list do not reach the stored value."""
    vals = [any_value("e" + str(i), ("int",))[1] for i in range(choose("n", 3))]
    b = BoundedAttributes(None, {}, immutable=False)
    b["k"] = vals
    got = b["k"]
    n, first = len(vals), vals[0] if vals else None
    vals.append(1)
    vals[0] = "changed"
    check(len(got) == n, "later changes of the caller's list are not seen")
    if n:
        check(b["k"][0] is got[0] and got[0] is first, "later changes of the caller's list do not reach the stored value")


@contract()
def long_sequences():
    """A homogeneous sequence of any length is stored element for element, cut to the limit (loop invariant over the cleaned prefix)."""
    limit = any_limit()
    b = BoundedAttributes(None, {}, immutable=False, max_value_len=limit)
    sort = choose("sort", ["int", "bool", "str", "real"])
    kind = {"int": int, "bool": bool, "str": str, "real": float}[sort]
    f = sym_fn("v", sort)
    want = lambda j: cut(sort, f(j), limit)
    seq = sym_seq("value", f, list if choose("list", 2) else tuple)

    def inv(env, i):
        c = env.cleaned_seq
        return [length(c) == i, forall(0, i, lambda j: item(c, j) == want(j)),
                (i == 0) if env.sequence_first_valid_type is None else env.sequence_first_valid_type is kind]
    loop_inv(inv, over="value", locals_={"cleaned_seq": any_list(sort), "sequence_first_valid_type": lambda tag: choose(tag, [None, kind])})
    b["k"] = seq
    check("k" in b, "stored")
    got = b["k"]
    check(isinstance(got, tuple), "stored as a tuple")
    check(length(got) == length(seq), "no element lost")
    check(forall(0, length(seq), lambda j: item(got, j) == want(j)), "elements kept in order")


@contract()
def stored_is_independent_of_caller():
    """Changing the caller's containers afterwards never changes what a span reports."""
    tracer = make_tracer()
    inner = [sym_int("a"), sym_int("b")]
    attrs = {"k": inner, "n": sym_int("n")}
    want_a, want_n = inner[0], attrs["n"]
    where = choose("where", ["start", "set_attributes", "event", "link", "init_link"])
    ctx = SpanContext(5, 6, False)
    if where == "start":
        span = tracer.start_span("s", attributes=attrs)
        view = lambda: span.attributes
    elif where == "init_link":
        span = tracer.start_span("s", links=[Link(ctx, attrs)])
        view = lambda: span.links[0].attributes
    else:
        span = tracer.start_span("s")
        if where == "set_attributes":
            span.set_attributes(attrs)
            view = lambda: span.attributes
        elif where == "event":
            span.add_event("e", attrs)
            view = lambda: span.events[0].attributes
        else:
            span.add_link(ctx, attrs)
            view = lambda: span.links[0].attributes
    inner[0] = 99
    inner.append(5)
    attrs["n"] = 77
    attrs["later"] = 1
    got = view()
    check(len(got) == 2, "no entry added from outside")
    check(got["k"] == (want_a, inner[1]), "the stored sequence is the one given")
    check(got["n"] == want_n, "the stored value is the one given")
