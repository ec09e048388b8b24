"""T03: limits, eviction order and dropped counts of attributes, events and links."""
from contracts.common import *
from opentelemetry.attributes import BoundedAttributes
from opentelemetry.sdk.util import BoundedList


def any_bounded_attributes(maxlen, name="old"):
    """A mutable BoundedAttributes in an arbitrary state within its limit."""
    b = BoundedAttributes(maxlen, {}, immutable=False)
    f = sym_fn(name + ".val", "int")
    set_attr(b, "_dict", sym_odict(name, lambda i: f(i), max_len=maxlen))
    d = sym_int("dropped", 0)
    set_attr(b, "dropped", d)
    return b, d


@contract()
def attribute_set():
    """BoundedAttributes.__setitem__ from an arbitrary state: the entry becomes the newest, the oldest goes when full, the count says so."""
    m = None if choose("nolimit", 2) else sym_int("maxlen", 0, 2**40)
    b, d = any_bounded_attributes(m)
    n = length(b)
    keys = list(b)
    old = b.copy()
    k, v = sym_str("key"), sym_int("value")
    assume(k != "")
    present = is_true(k in b)
    b[k] = v
    if m is not None and is_true(m == 0):
        check(length(b) == 0, "a limit of zero keeps nothing")
        check(b.dropped == d + 1, "the entry is counted as dropped")
        return
    after = list(b)
    check(b[k] == v, "the value read is the last one set")
    check(item(after, length(after) - 1) == k, "the entry becomes the newest")
    if m is not None:
        check(length(b) <= m, "never more than the limit")
    q = sym_str("other")
    assume(q != k)
    if present:
        check(length(b) == n, "same size when the key was present")
        check(b.dropped == d, "nothing dropped when the key was present")
        check(iff(q in b, q in old), "all other keys kept")
        if is_true(q in old):
            check(b[q] == old[q], "other values kept")
    elif m is not None and is_true(n == m):
        check(length(b) == n, "size stays at the limit")
        check(b.dropped == d + 1, "one entry counted as dropped")
        check(forall(0, n - 1, lambda i: item(after, i) == item(keys, i + 1)), "exactly the oldest entry is evicted, order kept")
        check(item(keys, 0) not in b, "the oldest entry is gone")
        if is_true(q in b):
            check(q in old, "no key out of nowhere")
            check(b[q] == old[q], "other values kept")
    else:
        check(length(b) == n + 1, "one more entry")
        check(b.dropped == d, "nothing dropped below the limit")
        check(forall(0, n, lambda i: item(after, i) == item(keys, i)), "all earlier entries kept in order")
        check(iff(q in b, q in old), "all other keys kept")
        if is_true(q in old):
            check(b[q] == old[q], "other values kept")


@contract()
def invalid_attribute_changes_nothing():
    """An attribute that is not stored evicts nothing and leaves the content as it was."""
    m = None if choose("nolimit", 2) else sym_int("maxlen", 1, 2**40)
    b, d = any_bounded_attributes(m)
    n, keys = length(b), list(b)
    old = b.copy()
    if choose("bad", 2):
        b[""] = sym_int("value")
    else:
        b[sym_str("key")] = object()
    check(length(b) == n, "size unchanged")
    check(b.dropped == d, "dropped count unchanged")
    check(forall(0, n, lambda i: item(list(b), i) == item(keys, i)), "order unchanged")
    q = sym_str("other")
    if is_true(q in old):
        check(b[q] == old[q], "values unchanged")


@contract()
def attribute_delete_and_immutability():
    m = sym_int("maxlen", 0, 2**40)
    frozen = BoundedAttributes(m, {"a": 1})
    size = length(frozen)
    act = choose("act", 3)
    raised = False
    try:
        if act == 0:
            frozen["a"] = 2
        elif act == 1:
            frozen["b"] = 2
        else:
            del frozen["a"]
    except TypeError:
        raised = True
    check(raised, "an immutable mapping refuses changes")
    check(length(frozen) == size, "and stays as it was")
    check(frozen.get("b") is None, "nothing added")


def model_set(model, dropped, m, k, v):
    """Specification of one store on a list of pairs (newest last)."""
    if m is not None and is_true(m == 0):
        return [], dropped + 1
    rest = [p for p in model if not is_true(p[0] == k)]
    if len(rest) == len(model) and m is not None and is_true(len(model) == m):
        rest = rest[1:]
        dropped = dropped + 1
    return rest + [(k, v)], dropped


@contract(bound="up to 4 attributes")
def attribute_histories():
    """Construction from a mapping followed by stores: equals the fold of the one-store specification (per history length up to 4; any keys, values and limit)."""
    m = None if choose("nolimit", 2) else sym_int("maxlen", 0, 2**40)
    n0 = choose("initial", 3)
    n1 = choose("later", 3)
    init = {}
    model, dropped = [], 0
    pool = [sym_str("k0"), sym_str("k1"), "c"]
    assume(pool[0] != "")
    assume(pool[1] != "")
    for i in range(n0):
        init[pool[i]] = sym_int("v")
    for k in list(init):
        model, dropped = model_set(model, dropped, m, k, init[k])
    b = BoundedAttributes(m, init, immutable=False)
    for i in range(n1):
        k, v = pool[2 - i], sym_int("w")
        b[k] = v
        model, dropped = model_set(model, dropped, m, k, v)
    got = list(b.items())
    check(len(got) == len(model), "size")
    for i in range(len(model)):
        check(both(got[i][0] == model[i][0], got[i][1] == model[i][1]), "entries and order")
    check(b.dropped == dropped, "dropped count")
    check(len(init) <= n0, "the caller's mapping is not changed")


def any_bounded_list(m, name="old"):
    b = BoundedList(m)
    f = sym_fn(name + ".item", "int")
    import collections
    set_attr(b, "_dq", sym_seq(name, lambda i: f(i), collections.deque, max_len=m, mutable=True, maxlen=m))
    d = sym_int("dropped", 0)
    set_attr(b, "dropped", d)
    return b, d


@contract()
def list_append():
    """BoundedList.append from an arbitrary state."""
    m = None if choose("nolimit", 2) else sym_int("maxlen", 0, 2**40)
    b, d = any_bounded_list(m)
    n, old = length(b), list(b)
    v = sym_int("v")
    b.append(v)
    new = list(b)
    if m is None or is_true(n < m):
        check(length(b) == n + 1, "one more")
        check(b.dropped == d, "nothing dropped below the limit")
        check(forall(0, n, lambda i: item(new, i) == item(old, i)), "earlier items kept in order")
        check(item(new, n) == v, "new item last")
    else:
        check(length(b) == m, "size stays at the limit")
        check(b.dropped == d + 1, "one item counted as dropped")
        if is_true(m > 0):
            check(forall(0, n - 1, lambda i: item(new, i) == item(old, i + 1)), "exactly the oldest item is dropped, order kept")
            check(item(new, m - 1) == v, "new item last")


@contract()
def list_extend():
    """BoundedList.extend and from_seq with a sequence of any length: the last items remain, the dropped count is the excess."""
    m = None if choose("nolimit", 2) else sym_int("maxlen", 0, 2**40)
    g = sym_fn("seq.item", "int")
    add = sym_seq("seq", lambda i: g(i), tuple)
    if choose("from_seq", 2):
        b, d, n, old = None, 0, 0, []
        b = BoundedList.from_seq(m, add)
    else:
        b, d = any_bounded_list(m)
        n, old = length(b), list(b)
        b.extend(add)
    new = list(b)
    total = n + length(add)
    excess = 0 if m is None else ite(total > m, total - m, 0)
    check(length(b) == total - excess, "size is everything within the limit")
    check(b.dropped == d + excess, "dropped count is the excess")
    check(forall(0, total - excess, lambda i: item(new, i) == (item(add, i + excess - n) if is_true(i + excess >= n) else item(old, i + excess))), "the newest items in order")


def any_int_odict(tag):
    f = sym_fn(tag + ".v", "int")
    return sym_odict(tag, lambda i: f(i))


def construction_loop(keys, val, lim):
    """BoundedAttributes.__init__ and what it must have kept of keys/val after i entries."""
    def kept(d, dropped, i):
        m = i if lim is None else ite(i < lim, i, lim)
        ks = list(d)
        return [length(d) == m, dropped == i - m,
                forall(0, m, lambda j: both(item(ks, j) == item(keys, i - m + j), item(list(d.values()), j) == val(i - m + j)))]
    loop_inv(lambda env, i: kept(env.self._dict, env.self.dropped, i), key="attributes:BoundedAttributes.__init__",
             modifies=[havoc_field("self", "_dict", lambda tag: any_int_odict(tag)), havoc_field("self", "dropped", fresh_int)])
    return kept


@contract()
def construction_unbounded():
    """Constructed from a mapping of any size: exactly the newest entries within the limit, in order, the rest counted as dropped."""
    lim = None if choose("nolimit", 2) else sym_int("limit", 0, 2**30)
    val = sym_fn("val", "int")
    attrs = sym_odict("attrs", lambda i: val(i))
    n, keys = length(attrs), list(attrs)
    assume(forall(0, n, lambda i: item(keys, i) != ""))
    kept = construction_loop(keys, val, lim)
    b = BoundedAttributes(lim, attrs, immutable=choose("immutable", [False, True]))
    for c in kept(b.copy(), b.dropped, n):
        check(c, "the newest entries within the limit, the rest counted")


def refill_list(b, name):
    """Put a list of the span (events, links) into an arbitrary state within the limit it was built with."""
    import collections
    m = attr(b, "_dq").maxlen
    f = sym_fn(name + ".item", "int")
    set_attr(b, "_dq", sym_seq(name, lambda i: f(i), collections.deque, max_len=m, mutable=True, maxlen=m))
    d = sym_int("dropped", 0)
    set_attr(b, "dropped", d)
    return d


def check_step(which, m, n, old, d, new, dropped):
    """One more item on a container of n items `old` with limit m; returns the position of the new item, or None."""
    if m is None or is_true(n < m):
        check(length(new) == n + 1, which + ": one more")
        check(dropped == d, which + ": nothing dropped below the limit")
        check(forall(0, n, lambda i: item(new, i) == item(old, i)), which + ": earlier items kept in order")
        return n
    check(length(new) == m, which + ": size stays at the limit")
    check(dropped == d + 1, which + ": one item counted as dropped")
    if is_true(m > 0):
        check(forall(0, m - 1, lambda i: item(new, i) == item(old, i + 1)), which + ": exactly the oldest item is dropped, order kept")
        return m - 1
    return None


@contract()
def span_one_more():
    """A span holding any number of events, links and attributes within its limits gets one more: its own limit decides, the oldest goes, the count says so, and the other containers stay as they are."""
    which = choose("which", ["event", "exception", "link", "attribute"])
    m = None if choose("nolimit", 2) else sym_int("limit", 0, 2**40)
    o = sym_int("other limit", 0, 2**40)
    U = SpanLimits.UNSET
    kw = {"max_events": U, "max_links": U, "max_span_attributes": U, "max_attributes": o, "max_event_attributes": 9, "max_link_attributes": 9}
    kw[{"event": "max_events", "exception": "max_events", "link": "max_links", "attribute": "max_span_attributes"}[which]] = U if m is None else m
    span = make_tracer(limits=SpanLimits(**kw)).start_span("s")
    v = sym_int("v")
    if which == "attribute":
        old, d = any_bounded_attributes(m)
        real = attr(span, "_attributes")
        check(both(attr(real, "maxlen") is None, m is None) if m is None else attr(real, "maxlen") == m, "attributes are limited by the limit for span attributes")
        set_attr(span, "_attributes", old)
        n, keys = length(old), list(old)
        k = sym_str("key")
        assume(k != "")
        assume(neg(k in old))
        span.set_attribute(k, v)
        at = check_step(which, m, n, keys, d, list(old), span.dropped_attributes)
        if at is not None:
            check(item(list(old), at) == k, "the attribute set is the newest")
            check(old[k] == v, "the value read is the one set")
        check(both(len(span.events) == 0, len(span.links) == 0), "no event or link appears")
        return
    b = attr(span, "_links" if which == "link" else "_events")
    d = refill_list(b, which)
    n, old = length(b), list(b)
    if which == "event":
        span.add_event("e", {"i": v})
    elif which == "exception":
        span.record_exception(ValueError("x"), {"i": v})
    else:
        span.add_link(SpanContext(5, 6, False), {"i": v})
    if which == "link":
        new, dropped = list(attr(span, "_links")), span.dropped_links
        check(both(len(span.events) == 0, span.dropped_events == 0), "no event appears")
    else:
        new, dropped = list(attr(span, "_events")), span.dropped_events
        check(both(len(span.links) == 0, span.dropped_links == 0), "no link appears")
    at = check_step(which, m, n, old, d, new, dropped)
    if at is not None:
        it = item(new, at)
        check(it.attributes["i"] == v, "the item added is the newest")
        check(it.name == ("e" if which == "event" else "exception") if which != "link" else it.context.span_id == 6, "the item added is the newest")
    check(both(len(span.attributes) == 0, span.dropped_attributes == 0), "no attribute appears")


@contract()
def initial_events():
    """Events a span is created with are limited like those added later."""
    from opentelemetry.sdk.trace import Event, _Span
    lim, other = sym_int("limit", 0, 3), sym_int("other", 0, 3)
    n = choose("n", 4)
    attrs = {"k" + str(i): sym_int("v") for i in range(n)}
    span = _Span("s", SpanContext(1, 2, False), events=[Event("e", attrs, 5)], limits=SpanLimits(max_attributes=other, max_event_attributes=lim, max_span_attributes=other, max_link_attributes=other, max_attribute_length=2))
    check(len(span.events) == 1, "one event")
    e = span.events[0]
    keep = n if is_true(lim >= n) else next(j for j in range(n) if is_true(lim == j))
    check(both(e.name == "e", e.timestamp == 5), "its name and time")
    check(len(e.attributes) == keep, "as many attributes as the limit for events allows")
    check(e.dropped_attributes == n - keep, "the rest are counted as dropped")
    for i in range(n - keep, n):
        check(e.attributes["k" + str(i)] == attrs["k" + str(i)], "the newest attributes")


@contract(bound="up to 3 items")
def span_containers():
    """A span keeps at most max_events events, max_links links and max_span_attributes attributes, newest ones, in order, and reports the rest as dropped."""
    lim = sym_int("limit", 0, 2**40)
    which = choose("which", ["attributes", "events", "links", "init_links", "init_attributes"])
    kw = {"attributes": {"max_span_attributes": lim}, "init_attributes": {"max_span_attributes": lim}, "events": {"max_events": lim},
          "links": {"max_links": lim}, "init_links": {"max_links": lim}}[which]
    tracer = make_tracer(limits=SpanLimits(**kw))
    n = choose("n", 4)
    vals = [sym_int("v") for i in range(n)]
    links = [Link(SpanContext(5, i + 1, False), {"i": vals[i]}) for i in range(n)]
    if which == "init_links":
        span = tracer.start_span("s", links=links)
    elif which == "init_attributes":
        span = tracer.start_span("s", attributes={"k" + str(i): vals[i] for i in range(n)})
    else:
        span = tracer.start_span("s")
        for i in range(n):
            if which == "attributes":
                span.set_attribute("k" + str(i), vals[i])
            elif which == "events":
                span.add_event("e" + str(i), {"i": vals[i]})
            else:
                span.add_link(links[i].context, {"i": vals[i]})
    if which in ("attributes", "init_attributes"):
        got = [(k, v) for k, v in span.attributes.items()]
        dropped = span.dropped_attributes
        want = [("k" + str(i), vals[i]) for i in range(n)]
    elif which == "events":
        got = [(e.name, e.attributes["i"]) for e in span.events]
        dropped = span.dropped_events
        want = [("e" + str(i), vals[i]) for i in range(n)]
    else:
        got = [(l.context.span_id, l.attributes["i"]) for l in span.links]
        dropped = span.dropped_links
        want = [(i + 1, vals[i]) for i in range(n)]
    keep = n if is_true(lim >= n) else next(j for j in range(n) if is_true(lim == j))
    check(len(got) == keep, "as many as the limit allows")
    check(dropped == n - keep, "dropped count is the rest")
    for i in range(keep):
        check(both(got[i][0] == want[n - keep + i][0], got[i][1] == want[n - keep + i][1]), "the most recent entries in order")
    check(both(span.dropped_attributes + span.dropped_events + span.dropped_links == n - keep), "nothing else dropped")


@contract(bound="up to 3 attributes")
def item_attribute_limits():
    """Event and link attributes are limited by their own limits, however the event or link is added."""
    lim = sym_int("limit", 0, 2**40)
    other = sym_int("other", 0, 5)
    which = choose("which", ["event", "link", "init_link", "exception"])
    kw = {"max_event_attributes": lim, "max_link_attributes": other} if which in ("event", "exception") else {"max_link_attributes": lim, "max_event_attributes": other}
    tracer = make_tracer(limits=SpanLimits(max_span_attributes=other, **kw))
    n = choose("n", 4)
    attrs = {"k" + str(i): sym_int("v") for i in range(n)}
    ctx = SpanContext(5, 6, False)
    if which == "init_link":
        span = tracer.start_span("s", links=[Link(ctx, attrs)])
        it = span.links[0]
    else:
        span = tracer.start_span("s")
        if which == "event":
            span.add_event("e", attrs)
            it = span.events[0]
        elif which == "exception":
            span.record_exception(ValueError("x"), attrs)
            it = span.events[0]
            n = n + 4
        else:
            span.add_link(ctx, attrs)
            it = span.links[0]
    keep = n if is_true(lim >= n) else next(j for j in range(n) if is_true(lim == j))
    check(len(it.attributes) == keep, "as many attributes as the limit allows")
    check(it.dropped_attributes == n - keep, "dropped attribute count")
    names = list(attrs)
    for i in range(min(keep, len(names))):
        k = names[len(names) - 1 - i]
        check(it.attributes[k] == attrs[k], "the most recent attributes with their values")


@contract()
def limits_are_separate():
    """Each SpanLimits field is the argument given for it."""
    a = [sym_int(x, 0) for x in ("a", "ev", "l", "sa", "ea", "la", "al", "sal")]
    s = SpanLimits(max_attributes=a[0], max_events=a[1], max_links=a[2], max_span_attributes=a[3], max_event_attributes=a[4], max_link_attributes=a[5],
                   max_attribute_length=a[6], max_span_attribute_length=a[7])
    got = (s.max_attributes, s.max_events, s.max_links, s.max_span_attributes, s.max_event_attributes, s.max_link_attributes, s.max_attribute_length, s.max_span_attribute_length)
    for i in range(8):
        check(got[i] == a[i], "limit as given")
    g = SpanLimits(max_attributes=a[0])
    check(both(g.max_span_attributes == a[0], g.max_event_attributes == a[0], g.max_link_attributes == a[0]), "the general limit applies where no specific one is given")


@contract()
def a_link_used_for_two_spans():
    """The same link given to two spans, of the same or different limits, at creation: each span's own limit decides what it keeps and counts, and neither changes what the other reports."""
    limits = [sym_int(f"limit{i}", 0, 3) for i in range(2)]
    values = [sym_int(f"v{i}") for i in range(3)]
    link = Link(SpanContext(5, 6, False), {"k" + str(i): values[i] for i in range(3)})
    spans = []
    for m in limits:
        spans.append(make_tracer(limits=SpanLimits(max_link_attributes=m)).start_span("s", links=[link]))
        if choose("ends", [True, False]):
            spans[-1].end()
    for m, s in zip(limits, spans):
        keep = next(k for k in range(4) if is_true(m == k))
        got = s.links[0]
        check([k for k in got.attributes] == ["k" + str(i) for i in range(3 - keep, 3)], "the newest attributes within its own limit")
        check(all([is_true(got.attributes["k" + str(i)] == values[i]) for i in range(3 - keep, 3)]), "with their values")
        check(got.dropped_attributes == 3 - keep, "the rest are counted as dropped")


@contract()
def attributes_of_another_span():
    """Attributes taken from another span's link, event or the span itself, kept there under another limit: here this span's limits decide, there nothing changes."""
    small, large = sym_int("limit", 0, 3), 3
    values = [sym_int(f"v{i}") for i in range(3)]
    other = make_tracer(limits=SpanLimits(max_link_attributes=large, max_event_attributes=large, max_span_attributes=large)).start_span("o", attributes={"k" + str(i): values[i] for i in range(3)})
    other.add_link(SpanContext(5, 6, False), {"k" + str(i): values[i] for i in range(3)})
    other.add_event("e", {"k" + str(i): values[i] for i in range(3)})
    source = choose("source", ["link", "event", "span"])
    attrs = {"link": lambda: other.links[0].attributes, "event": lambda: other.events[0].attributes, "span": lambda: other.attributes}[source]()
    span = make_tracer(limits=SpanLimits(max_link_attributes=small, max_event_attributes=small)).start_span("s", links=[Link(SpanContext(5, 7, False), attrs)])
    span.add_link(SpanContext(5, 8, False), attrs)
    span.add_event("e", attrs)
    keep = next(k for k in range(4) if is_true(small == k))
    for it in (span.links[0], span.links[1], span.events[0]):
        check([k for k in it.attributes] == ["k" + str(i) for i in range(3 - keep, 3)], "the newest attributes within its own limit")
        check(it.dropped_attributes == 3 - keep, "the rest are counted as dropped")
    other.set_attribute("k0", 0)
    other.set_attribute("k9", 0)
    for it in (span.links[0], span.links[1], span.events[0]):
        check([k for k in it.attributes] == ["k" + str(i) for i in range(3 - keep, 3)], "and stay what they are")
        check(all([is_true(it.attributes["k" + str(i)] == values[i]) for i in range(3 - keep, 3)]), "with their values")


@contract()
def reading_while_another_adds():
    """Whoever is reading attributes, events or links while others are added gets those of the moment the reading started."""
    span = make_tracer(limits=SpanLimits(max_events=2, max_links=2, max_span_attributes=2)).start_span("s")
    which = choose("which", ["events", "links"])
    add = {"events": lambda n: span.add_event(n), "links": lambda n: span.add_link(SpanContext(5, int(n), False))}[which]
    for n in "12":
        add(n)
    reading = iter(attr(span, "_events" if which == "events" else "_links"))
    got = [next(reading)] if choose("started", 2) else []
    add("3")
    got += [x for x in reading]
    check([x.name if which == "events" else str(x.context.span_id) for x in got] in (["1", "2"], ["2", "3"]), "those there were")


@contract()
def limits_of_a_provider():
    """A provider given no limits uses those of the environment, or the documented default of 128; given ones are used as given, whatever the environment says."""
    names = ["OTEL_SPAN_EVENT_COUNT_LIMIT", "OTEL_SPAN_LINK_COUNT_LIMIT", "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT", "OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT", "OTEL_LINK_ATTRIBUTE_COUNT_LIMIT"]
    values = choose("values", [[0, 1, 2, 3, 4], [5, 0, 3, 1, 0], [1, 200, 0, 0, 300]])
    how = choose("how", ["default", "environment", "given"])
    set_env(OTEL_ATTRIBUTE_COUNT_LIMIT=None, OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT=None, OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT=None)
    for n, v in zip(names, values):
        set_env(**{n: str(v) if how == "environment" else None if how == "default" else "7"})
    given = SpanLimits(max_events=values[0], max_links=values[1], max_span_attributes=values[2], max_event_attributes=values[3], max_link_attributes=values[4]) if how == "given" else None
    if how == "default":
        values = [128] * 5
    p = TracerProvider(sampler=ALWAYS_ON, resource=Resource({}), shutdown_on_exit=False, id_generator=FixedIds(), span_limits=given)
    lim = attr(p.get_tracer("t").start_span("s"), "_limits")
    got = [lim.max_events, lim.max_links, lim.max_span_attributes, lim.max_event_attributes, lim.max_link_attributes]
    check(got == values, "the limits of its spans")


@contract()
def created_with_any_number_of_links():
    """Any number of links given at creation: the newest within the limit, in order, each with its own attributes within theirs; the rest is counted."""
    m = None if choose("nolimit", 2) else sym_int("limit", 0, 2**40)
    am = choose("attribute limit", [0, 1, 2])
    U = SpanLimits.UNSET
    ids, a, b = sym_fn("id", "int", 1, big(2 ** 64 - 1)), sym_fn("a", "int"), sym_fn("b", "int")
    links = sym_seq("links", lambda i: Link(SpanContext(5, ids(i), False), {"a": a(i), "b": b(i)}))
    j = sym_int("j", 0, big(10 ** 9))

    def same(l, i):
        if l.context.trace_id != 5 or length(l.attributes) != am:
            return False
        return both(l.context.span_id == ids(i), l.dropped_attributes == 2 - am, *([l.attributes["b"] == b(i)] if am else []), *([l.attributes["a"] == a(i)] if am == 2 else []))

    def clauses(env, i):
        out = env.valid_links
        return [length(out) == i, is_true(neg(j < i)) or (is_true(j < length(out)) and same(item(out, j), j))]

    def any_links(tag):
        l = ghost_list()

        def make(t, i):
            x = ghost_fn(t + ".id", "int")(i)
            assume(both(1 <= x, x <= 2 ** 64 - 1))
            return Link(SpanContext(5, x, False), BoundedAttributes(am, {"a": ghost_fn(t + ".a", "int")(i), "b": ghost_fn(t + ".b", "int")(i)}))

        havoc_list(l, make)
        return l

    loop_inv(clauses, over="links", locals_={"valid_links": any_links})
    span = make_tracer(limits=SpanLimits(max_links=U if m is None else m, max_link_attributes=am)).start_span("s", links=links)
    n, out = length(links), list(span.links)
    keep = n if m is None else ite(n < m, n, m)
    check(length(out) == keep, "as many as the limit allows")
    check(span.dropped_links == n - keep, "the rest is counted")
    if is_true(both(j < n, j >= n - keep)):
        check(same(item(out, j - (n - keep)), j), "each in its place, the newest kept")
