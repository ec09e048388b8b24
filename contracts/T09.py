"""T09: contexts are immutable values and activation is undone exactly."""
import contextvars
from contracts.common import *
from opentelemetry.context import Context
from opentelemetry import trace as trace_api


class Quit(BaseException):
    pass


class Trouble(Exception):
    pass


def any_ctx(name, n):
    """A context with n arbitrary entries (distinct keys)."""
    c = Context()
    ks, vs = [], []
    for i in range(n):
        k, v = sym_str(f"{name}.key{i}"), sym_int(f"{name}.val{i}")
        assume(neg(k.startswith("current-span")))
        for o in ks:
            assume(neg(o == k))
        c = context_api.set_value(k, v, c)
        ks.append(k)
        vs.append(v)
    return c, ks, vs


@contract()
def set_value_in_a_context_of_any_size():
    """set_value on a context with any number of values: a new context with only that key changed; the original as before."""
    val = sym_fn("val", "int")
    entries = sym_odict("c", val)
    c = Context(entries)
    n = length(entries)
    k, v, other = sym_str("key"), sym_int("value"), sym_str("other")
    if not symbolic() and len(entries):
        ks = list(entries)
        k, other = choose("a key", [k] + ks), choose("another key", [other] + ks)
    had, had_other = c.get(k), c.get(other)
    if choose("how", ["explicit", "current"]) == "explicit":
        current = Context({"current": 1})
        token = context_api.attach(current)
        d = context_api.set_value(k, v, c)
        check(context_api.get_current() is current, "setting a value does not change what is current")
        context_api.detach(token)
    else:
        token = context_api.attach(c)
        d = context_api.set_value(k, v)
        check(context_api.get_current() is c, "setting a value does not change what is current")
        context_api.detach(token)
    check(d is not c, "a new context")
    check(isinstance(d, Context), "a context")
    check(context_api.get_value(k, d) == v, "the value set is read")
    check(length(c) == n, "the original has no entry more or less")
    check(same(context_api.get_value(k, c), had), "the original keeps its value")
    check(same(context_api.get_value(other, c), had_other), "the original keeps its values")
    if is_true(neg(other == k)):
        check(same(context_api.get_value(other, d), had_other), "other keys are as before")
    check(length(d) == n + (1 if had is None else 0), "only that key is added")
    e = context_api.set_value(k, "later", d)
    check(context_api.get_value(k, e) == "later", "a later value is read from the later context")
    check(context_api.get_value(k, d) == v, "the derived context is immutable too")


def same(x, y):
    if x is None or y is None:
        return x is y
    return x == y


@contract()
def item_assignment_is_refused():
    entries = sym_odict("c", sym_fn("val", "int"))
    c, k = Context(entries), sym_str("key")
    if not symbolic() and len(entries):
        k = choose("a key", [k] + list(entries))
    n, had = length(entries), c.get(k)
    raised = False
    try:
        c[k] = 1
    except ValueError:
        raised = True
    check(raised, "a context refuses assignment")
    check(length(c) == n, "and stays as it was")
    check(same(c.get(k), had), "and stays as it was")


@contract()
def in_place_dict_methods_are_refused():
    """The other ways to change a dict in place."""
    c = context_api.set_value("a", 1, Context())
    how = choose("how", ["update", "pop", "del", "clear", "setdefault", "popitem"])
    try:
        if how == "update":
            c.update({"b": 2})
        elif how == "pop":
            c.pop("a")
        elif how == "del":
            del c["a"]
        elif how == "clear":
            c.clear()
        elif how == "setdefault":
            c.setdefault("b", 2)
        else:
            c.popitem()
    except Exception:
        pass
    check(len(c) == 1 and c.get("a") == 1 and c.get("b") is None, "a context never changes in place")


@contract()
def nesting_step():
    """The step of the induction over nesting: around anything that leaves the current context as it was, attaching and detaching does so too."""
    outer = context_api.get_current()
    if choose("in another", 2):
        outer = Context(sym_odict("outer", sym_fn("outer.val", "int")))
        first = context_api.attach(outer)
        on_exit(lambda: context_api.detach(first))
    c = Context(sym_odict("c", sym_fn("val", "int")))
    token = context_api.attach(c)
    check(context_api.get_current() is c, "attached means current")
    n = length(c)
    if choose("something inside", 2):
        inner = context_api.attach(choose("what", [c, outer, Context()]))
        context_api.detach(inner)
    check(context_api.get_current() is c, "the inner one is undone")
    check(length(c) == n, "unchanged")
    context_api.detach(token)
    check(context_api.get_current() is outer, "detaching restores what was current before")


@contract(bound="up to 4 levels")
def attach_detach_nesting():
    """Attaching makes a context current; detaching in reverse order restores exactly the previous one (nesting up to 4)."""
    n = choose("n", 5)
    outer = context_api.get_current()
    cs, ts = [], []
    for i in range(n):
        if i and choose("same", 2):
            c = cs[-1]
        else:
            c = context_api.set_value("k", sym_int("v"), Context())
        cs.append(c)
        ts.append(context_api.attach(c))
        check(context_api.get_current() is c, "the attached context is current")
        check(context_api.get_value("k") == c.get("k"), "values are read from the current context")
        check(context_api.get_value("k", Context()) is None, "values are read from the context given, even an empty one")
    for i in reversed(range(n)):
        context_api.detach(ts[i])
        check(context_api.get_current() is (cs[i - 1] if i else outer), "exactly the previous context is restored")
    check(context_api.get_current() is outer, "the outermost context is restored")


@contract()
def detach_never_raises():
    """Detaching with any token, in any order, twice, or with something that is no token, does not raise."""
    a = context_api.attach(Context())
    b = context_api.attach(Context())
    other = contextvars.ContextVar("other", default=None)
    foreign = other.set(1)
    for i in range(3):
        t = choose("token", ["a", "b", "foreign", "none", "text"])
        raised = False
        try:
            context_api.detach({"a": a, "b": b, "foreign": foreign, "none": None, "text": "x"}[t])
        except Exception:
            raised = True
        check(not raised, "detaching never raises")


def spans_for(kind):
    """(span to activate, recorder)"""
    rec = Recorder()
    if kind == "sdk":
        return make_tracer(rec).start_span("s", context=Context()), rec
    return NonRecordingSpan(valid_context("c")), rec


ENDS = ["normal", "exception", "base", "exit", "generator", "return"]


def leave(how):
    if how == "exception":
        raise Trouble("t")
    if how == "base":
        raise Quit()
    if how == "exit":
        raise SystemExit(1)
    if how == "generator":
        raise GeneratorExit()


@contract()
def use_span_restores():
    """use_span: the span is current inside, the previous context afterwards, however the block ends and whatever it attached; the exception passes through; ended exactly when asked."""
    kind = choose("kind", ["sdk", "nonrecording"])
    span, rec = spans_for(kind)
    how = choose("end", ENDS)
    end = choose("end_on_exit", [True, False])
    before = context_api.set_value("k", sym_int("v"), Context())
    token = context_api.attach(before)
    leak = choose("leak", 2)

    def block():
        with use_span(span, end_on_exit=end, record_exception=choose("record", [True, False]), set_status_on_exception=choose("status", [True, False])) as s:
            check(s is span, "yields the span")
            check(get_current_span() is span, "the span is current inside")
            check(context_api.get_value("k") == before.get("k"), "other values are still there inside")
            if leak:
                context_api.attach(Context())
            if how == "return":
                return 5
            leave(how)
        return None
    raised = None
    try:
        r = block()
    except BaseException as e:
        raised = e
    check(context_api.get_current() is before, "the previous context is current again")
    want = {"exception": Trouble, "base": Quit, "exit": SystemExit, "generator": GeneratorExit}.get(how)
    check((raised is None) if want is None else type(raised) is want, "the block ends as it did inside")
    if kind == "sdk":
        check(len(rec.ended) == (1 if end else 0), "ended exactly when asked")
    context_api.detach(token)


@contract()
def start_as_current_span_restores():
    """start_as_current_span as a block: the new span is current inside, the previous context afterwards, ended once unless told otherwise."""
    rec = Recorder()
    decision = choose("decision", [ALWAYS_ON, ALWAYS_OFF])
    tracer = make_tracer(rec, decision)
    how = choose("end", ENDS)
    end = choose("end_on_exit", [True, False, None])
    before = context_api.set_value("k", sym_int("v"), Context())
    token = context_api.attach(before)
    kw = {} if end is None else {"end_on_exit": end}
    seen = []

    def block():
        with tracer.start_as_current_span("s", **kw) as s:
            seen.append(s)
            check(get_current_span() is s, "the span is current inside")
            check(context_api.get_value("k") == before.get("k"), "other values are still there inside")
            if how == "return":
                return 5
            leave(how)
    raised = None
    try:
        block()
    except BaseException as e:
        raised = e
    check(context_api.get_current() is before, "the previous context is current again")
    want = {"exception": Trouble, "base": Quit, "exit": SystemExit, "generator": GeneratorExit}.get(how)
    check((raised is None) if want is None else type(raised) is want, "the block ends as it did inside")
    if decision is ALWAYS_ON:
        check(len(rec.ended) == (0 if end is False else 1), "ended once unless told otherwise")
    context_api.detach(token)


@contract()
def decorated_function():
    """A decorated function: each call runs under its own new span, returns or raises as before, and restores the context (any number of calls; two are compared)."""
    rec = Recorder()
    tracer = make_tracer(rec)
    before = context_api.set_value("k", 1, Context())
    token = context_api.attach(before)
    seen = []

    @tracer.start_as_current_span("s")
    def work(a, b=2):
        seen.append(get_current_span())
        leave(how)
        return a + b
    for i in range(2):
        how = choose("end", ENDS[:4])
        a = sym_int("a")
        r = raised = None
        try:
            r = work(a, b=3)
        except BaseException as e:
            raised = e
        check(context_api.get_current() is before, "the previous context is current again")
        check(len(seen) == i + 1, "called once")
        check(seen[i].is_recording() is False, "the call's span has ended")
        check(len(rec.ended) == i + 1, "one span per call")
        if how == "normal":
            check(r == a + 3, "returns its result")
        else:
            check(type(raised) is {"exception": Trouble, "base": Quit, "exit": SystemExit}[how], "raises what it raised")
    check(seen[0] is not seen[1], "each call has its own span")
    context_api.detach(token)


@contract(native_only=True, runs=200)
def decorated_coroutine():
    """A decorated coroutine function runs under its span until it completes, also across suspension, and restores the context."""
    import types
    rec = Recorder()
    tracer = make_tracer(rec)
    before = context_api.set_value("k", 1, Context())
    token = context_api.attach(before)
    how = choose("end", ENDS[:4])
    seen = []

    @types.coroutine
    def pause():
        yield "paused"

    @tracer.start_as_current_span("s")
    async def work(a):
        seen.append(get_current_span())
        await pause()
        seen.append(get_current_span())
        leave(how)
        return a + 1
    for i in range(2):
        c = work(5)
        check(len(rec.started) == i, "nothing starts before it is awaited")
        check(c.send(None) == "paused", "suspends")
        check(len(rec.ended) == i, "not ended while suspended")
        raised = None
        try:
            c.send(None)
        except BaseException as e:
            raised = e
        check(seen[-1] is seen[-2] and seen[-1].is_recording() is False, "one span during the whole coroutine")
        check(len(rec.ended) == i + 1, "ended when it completes")
        check(context_api.get_current() is before, "the previous context is current again")
        if how == "normal":
            check(isinstance(raised, StopIteration) and raised.value == 6, "returns its result")
        else:
            check(type(raised) is {"exception": Trouble, "base": Quit, "exit": SystemExit}[how], "raises what it raised")
    context_api.detach(token)


@contract()
def span_in_context():
    """set_span_in_context / get_current_span: the span put in is the one read, other values stay, contexts without a span give the invalid span."""
    c, ks, vs = any_ctx("c", choose("n", 3))
    span = NonRecordingSpan(any_context("s"))
    d = set_span_in_context(span, c)
    check(get_current_span(d) is span, "the span put in is read")
    check(get_current_span(Context()) is trace_api.INVALID_SPAN, "without a span the invalid span")
    for i in range(len(ks)):
        check(context_api.get_value(ks[i], d) == vs[i], "other values stay")
    check(len(c) == len(ks), "the original is unchanged")
    e = set_span_in_context(NonRecordingSpan(any_context("s2")), d)
    check(get_current_span(d) is span, "the derived context is unchanged")


@contract(native_only=True, runs=100)
def executions_are_isolated():
    """What another execution context attaches is not seen here (threads and copied contexts; native check)."""
    import threading
    before = context_api.set_value("k", sym_int("v"), Context())
    token = context_api.attach(before)
    inside = []

    def other():
        inside.append(context_api.get_current())
        context_api.attach(Context({"x": 1}))
    if choose("kind", ["thread", "copy"]) == "thread":
        t = threading.Thread(target=other)
        t.start()
        t.join()
        check(inside[0].get("k") is None, "a new thread starts empty")
    else:
        contextvars.copy_context().run(other)
        check(inside[0] is before, "a copied execution context starts with the current one")
    check(context_api.get_current() is before, "not seen here")
    context_api.detach(token)
