"""P06: composite propagation is the composition of its parts; default getter and setter."""
from contracts.common import *
from opentelemetry import propagate
from opentelemetry.propagators.composite import CompositePropagator
from opentelemetry.propagators.textmap import DefaultGetter, DefaultSetter, TextMapPropagator, default_getter, default_setter
from opentelemetry.baggage.propagation import W3CBaggagePropagator
from opentelemetry.trace.propagation.tracecontext import TraceContextTextMapPropagator
from opentelemetry import baggage


class Part(TextMapPropagator):
    """The i-th of arbitrarily many propagators: extraction maps the context token(i) to token(i + 1)."""

    def __init__(self, i, log, token, carrier, context, accessor, field=None):
        self.i, self.log, self.token, self.carrier, self.context, self.accessor, self.field = i, log, token, carrier, context, accessor, field

    def extract(self, carrier, context=None, getter=default_getter):
        check(context == self.token(self.i), "each part gets the context its predecessor returned")
        check(both(carrier is self.carrier, getter is self.accessor), "with the carrier and getter given")
        self.log.append(self.i)
        return self.token(self.i + 1)

    def inject(self, carrier, context=None, setter=default_setter):
        check(context is self.context, "each part injects the context given")
        check(both(carrier is self.carrier, setter is self.accessor), "with the carrier and setter given")
        self.log.append(self.i)

    @property
    def fields(self):
        return {self.field(self.i)}


def order(parts, log, extra=lambda env, i: []):
    loop_inv(lambda env, i: [length(log) == i, forall(0, i, lambda j: item(log, j) == j)] + extra(env, i), over="parts",
             modifies=[lambda: havoc_list(log, lambda tag, j: ghost_fn(tag, "int")(j))], mods=[log])


class Getter2(DefaultGetter):
    pass


class Setter2(DefaultSetter):
    pass


@contract()
def extraction_threads_the_context():
    """extract with any number of parts and whatever they return: each gets its predecessor's context, in order; the last one's is the result."""
    log, token, carrier, getter = ghost_list(), sym_fn("token", "int"), {}, Getter2()
    parts = sym_seq("parts", lambda i: Part(i, log, token, carrier, None, getter))
    order(parts, log, lambda env, i: [env.context == token(i)])
    out = CompositePropagator(parts).extract(carrier, token(0), getter=getter)
    check(out == token(length(parts)), "the result is the last one's")
    check(length(log) == length(parts), "every part once")
    check(forall(0, length(parts), lambda j: item(log, j) == j), "in order")


@contract()
def injection_uses_every_part():
    """inject with any number of parts: each once, in order, with the same context, carrier and setter."""
    log, carrier, setter, ctx = ghost_list(), {}, Setter2(), context_api.Context()
    given = choose("given", 2)
    parts = sym_seq("parts", lambda i: Part(i, log, None, carrier, ctx if given else None, setter))
    order(parts, log)
    if given:
        CompositePropagator(parts).inject(carrier, ctx, setter=setter)
    else:
        CompositePropagator(parts).inject(carrier, setter=setter)
    check(length(log) == length(parts), "every part once")
    check(forall(0, length(parts), lambda j: item(log, j) == j), "in order")


class Keyed(TextMapPropagator):
    """A propagator that writes and reads its own set of keys."""

    def __init__(self, name, keys):
        self.name, self.own = name, keys

    def extract(self, carrier, context=None, getter=default_getter):
        context = context_api.Context() if context is None else context
        for k in self.own:
            v = getter.get(carrier, k)
            if v is not None:
                context = context_api.set_value(k, self.name, context)
        return context

    def inject(self, carrier, context=None, setter=default_setter):
        for k in self.own:
            setter.set(carrier, k, self.name)

    @property
    def fields(self):
        return set(self.own)


@contract(bound="three parts of two keys")
def fields_are_the_union():
    """Up to three parts with up to two keys of any name each: the fields are the union; later parts override earlier ones."""
    n = choose("n", 4)
    parts, want = [], {}
    for i in range(n):
        own = [sym_str(f"key{i}.{j}", pool=["a", "b", "c"]) for j in range(choose(f"keys{i}", 3))]
        parts.append(Keyed(f"p{i}", own))
        for k in own:
            want[k] = f"p{i}"
    c = CompositePropagator(parts)
    check(c.fields == set(want), "the union of the parts' fields")
    carrier = {}
    c.inject(carrier)
    check(carrier == want, "a later part overrides an earlier one's key")
    out = c.extract(carrier)
    check(dict(out or {}) == want, "also in extraction")


@contract()
def real_parts():
    """Trace context and baggage together: the composite does what the two do one after the other."""
    ctx = valid_context(state=TraceState())
    value = choose("value", ["1", "x y", "", "a,b;c=%d \u00e9"])
    c = baggage.set_baggage("a", value, set_span_in_context(NonRecordingSpan(ctx), context_api.Context()))
    a, b = TraceContextTextMapPropagator(), W3CBaggagePropagator()
    one, two = {}, {}
    CompositePropagator([a, b]).inject(one, c)
    a.inject(two, c)
    b.inject(two, c)
    check(one == two, "the same carrier")
    base = context_api.Context({"k": 1})
    x = CompositePropagator([a, b]).extract(one, base)
    check(get_current_span(x).get_span_context().trace_id == ctx.trace_id, "the span context")
    check(baggage.get_baggage("a", x) == baggage.get_baggage("a", c), "the baggage")
    check(x["k"] == 1 and len(base) == 1, "nothing else changes")


@contract()
def no_parts():
    ctx = context_api.Context({"k": 1})
    c = CompositePropagator([])
    check(c.extract({}, ctx) is ctx, "the context as it is")
    carrier = {"a": "1"}
    c.inject(carrier, ctx)
    check(carrier == {"a": "1"} and c.fields == set(), "nothing written")


@contract()
def global_propagator():
    """inject and extract of the API use the propagator that was set last."""
    ctx, carrier = context_api.Context({"k": 1}), {"b": "1"}
    old = propagate.get_global_textmap()
    on_exit(lambda: propagate.set_global_textmap(old))
    propagate.set_global_textmap(Keyed("first", ["a"]))
    propagate.set_global_textmap(Keyed("second", ["b"]))
    getter, setter = Getter2(), Setter2()
    out = propagate.extract(carrier, ctx, getter=getter) if choose("own", 2) else propagate.extract(carrier, ctx)
    check(out == {"k": 1, "b": "second"}, "extract")
    propagate.inject(carrier, ctx, setter=setter) if choose("own", 2) else propagate.inject(carrier, ctx)
    check(carrier == {"b": "second"}, "inject")


@contract()
def global_functions_pass_everything_on():
    """inject and extract of the API hand the carrier, context, getter and setter given (an empty context too) to the global propagator."""
    ctx, carrier = choose("context", [context_api.Context({"k": 1}), context_api.Context(), None]), {"b": "1"}
    old = propagate.get_global_textmap()
    on_exit(lambda: propagate.set_global_textmap(old))
    token = context_api.attach(context_api.Context({"current": 1}))
    log, getter, setter, base = [], Getter2(), Setter2(), context_api.Context({"out": 1})
    propagate.set_global_textmap(Part(0, log, lambda i: ctx if i == 0 else base, carrier, ctx, getter))
    check(propagate.extract(carrier, ctx, getter=getter) is base, "the propagator's result")
    propagate.set_global_textmap(Part(1, log, None, carrier, ctx, setter))
    propagate.inject(carrier, ctx, setter=setter)
    context_api.detach(token)
    check(log == [0, 1], "each called once")


@contract()
def getter_finds_lists():
    """The default getter: the values of a key as a list, None for an absent key; keys lists the carrier's keys."""
    k, q, v, w = sym_str("key", pool=["a", "b"]), sym_str("asked", pool=["a", "b"]), sym_str("value"), sym_str("value2")
    shape = choose("shape", ["text", "list", "two", "tuple", "empty", "none", "generator", "set"])
    val = {"text": v, "list": [v], "two": [v, w], "tuple": (v, w), "empty": [], "none": None, "generator": None, "set": frozenset(["z"])}[shape]
    if shape == "generator":
        val = iter([v, w])
    carrier = {k: val, "other": "x"}
    assume(neg(k == "other"))
    assume(neg(q == "other"))
    r = default_getter.get(carrier, q)
    if shape == "none" or is_true(neg(q == k)):
        check(r is None, "None for an absent key")
    else:
        want = {"text": [v], "list": [v], "two": [v, w], "tuple": [v, w], "empty": [], "generator": [v, w], "set": ["z"]}[shape]
        check(isinstance(r, list), "a list")
        check(r == want, "the values of the key")
    check(default_getter.keys(carrier) == [k, "other"], "the carrier's keys")


@contract()
def getter_copies():
    """The list returned is not the carrier's own."""
    vals = ["1"]
    carrier = {"a": vals, **{f"k{i}": "v" for i in range(300)}}
    check(default_getter.keys(carrier) == ["a"] + [f"k{i}" for i in range(300)], "every key of a large carrier")
    r = default_getter.get(carrier, "a")
    r.append("2")
    check(vals == ["1"], "the carrier is not affected by changing the list")


@contract()
def setter_writes_that_key():
    """The default setter: exactly that key changes, in a carrier of any size."""
    vals = sym_fn("vals", "int")
    carrier = sym_odict("carrier", vals, keys=["a", "b", "c"])
    k, q, v = sym_str("key", pool=["a", "b", "c"]), sym_str("any", pool=["a", "b", "c"]), sym_int("value")
    before, had, n = carrier.get(q), k in carrier, length(carrier)
    default_setter.set(carrier, k, v)
    check(carrier.get(q) == (v if q == k else before), "exactly that key")
    check(length(carrier) == n + ite(had, 0, 1), "no other key")
    check(length(default_getter.keys(carrier)) == length(carrier), "the default getter lists every key")
