"""P02: trace state - validity however built, exact add/update/delete, header round trip."""
from contracts.common import *


def check_valid(state, j, what):
    n = length(state)
    check(both(n >= 0, n <= 32), what + ": at most 32 entries")
    check(implies(both(0 <= j, j < n), lambda: ts_entry_valid(*item(state.items(), j))), what + ": every entry is valid")


@contract(seconds=120)
def built_from_any_entries():
    """TraceState(entries), any number of any pairs of texts: what it holds is valid and at most 32 entries."""
    j = sym_int("j", 0)
    k, v = sym_fn("k", "str", pool=TS_POOL_K), sym_fn("v", "str", pool=TS_POOL_V)
    es = sym_seq("entries", lambda i: (k(i), v(i)), conc_max=4)
    trace_state_loops(j)
    check_valid(TraceState(es), j, "built")


def spec(entries):
    """The entries of the trace state built from these: the valid ones, the first of each key, in order."""
    out = []
    for k, v in entries:
        if not isinstance(k, str) or not isinstance(v, str):
            continue
        if is_true(ts_entry_valid(k, v)) and not any(is_true(k == x) for x, _ in out):
            out.append((k, v))
    return out


@contract()
def built_exactly():
    """Up to three entries with any texts (or things that are no texts): exactly the valid ones, the first of each key."""
    n = choose("n", 4)
    es = []
    for i in range(n):
        k = sym_str(f"k{i}", pool=TS_POOL_K)
        v = sym_str(f"v{i}", pool=TS_POOL_V)
        if i == 0 and choose("odd", 3):
            k, v = (1, v) if choose("oddk", 2) else (k, None)
        es.append((k, v))
    s = TraceState(es)
    check(list(s.items()) == spec(es), "exactly the valid entries, the first of each key, in order")
    check(len(TraceState()) == 0 and len(TraceState(None)) == 0, "empty without entries")


@contract()
def too_many_entries():
    """More than 32 entries are refused as a whole; 32 are kept."""
    n = choose("n", [31, 32, 33, 34])
    es = [(f"k{i}", "v") for i in range(n)]
    check(list(TraceState(es).items()) == (es if n <= 32 else []), "32 entries are kept, more are refused")


def base_state():
    """A trace state with concrete keys and the size given by choice (0, 1, 3, 31, 32)."""
    n = choose("size", [0, 1, 3, 31, 32])
    vs = sym_str("v_old", pattern=TS_VALUE, pool=["1", "x y"])
    es = [("a@t", vs), ("a@u", "2"), ("b", "2"), *((f"k{i}", "v") for i in range(29))][:n]
    return TraceState(es), es


@contract()
def add_exact():
    """add: any key and value; a valid new entry goes first if there is room, anything else changes nothing."""
    s, es = base_state()
    k, v = sym_str("k", pool=TS_POOL_K + ["k3", "a@t", "a@u", "b"]), sym_str("v", pool=TS_POOL_V)
    r = s.add(k, v)
    had = any(is_true(k == x) for x, _ in es)
    if len(es) < 32 and not had and is_true(ts_entry_valid(k, v)):
        check(list(r.items()) == [(k, v)] + es, "the new entry first, the others in order")
    else:
        check(list(r.items()) == es, "an equal trace state")
    check(list(s.items()) == es, "the original is not altered")


@contract()
def update_exact():
    """update: a valid value replaces the entry and moves it to the front; a key not held is added when there is room."""
    s, es = base_state()
    k, v = sym_str("k", pool=TS_POOL_K + ["k3", "a@t", "a@u", "b"]), sym_str("v", pool=TS_POOL_V)
    r = s.update(k, v)
    rest = [(x, y) for x, y in es if not is_true(k == x)]
    if is_true(ts_entry_valid(k, v)) and len(rest) < 32:
        check(list(r.items()) == [(k, v)] + rest, "the entry first, the others in order")
    else:
        check(list(r.items()) == es, "an equal trace state")
    check(list(s.items()) == es, "the original is not altered")


@contract()
def delete_exact():
    s, es = base_state()
    k = sym_str("k", pool=TS_POOL_K + ["k3", "a@t", "a@u", "b"])
    r = s.delete(k)
    check(list(r.items()) == [(x, y) for x, y in es if not is_true(k == x)], "all entries but that one, in order")
    check(list(s.items()) == es, "the original is not altered")


@contract(seconds=120)
def changes_keep_it_valid():
    """add, update and delete on any trace state (any number of entries up to 32, any valid texts) with any arguments: still valid."""
    j = sym_int("j", 0)
    s = any_trace_state()
    n = length(s)
    trace_state_loops(j)
    k, v = sym_str("k", pool=TS_POOL_K), sym_str("v", pool=TS_POOL_V)
    op = choose("op", 3)
    r = s.add(k, v) if op == 0 else s.update(k, v) if op == 1 else s.delete(k)
    check_valid(r, j, "changed")
    check(length(s) == n, "the original keeps its entries")


@contract(seconds=120)
def parsed_is_valid():
    """from_header, any number of any texts: what results is valid and at most 32 entries."""
    j = sym_int("j", 0)
    n = choose("headers", 3)
    hs = [sym_str(f"h{i}", pool=["a=1", "a=1,b=2", "a=1, a=2", "A=1", ",", " a=1 , b = 2", "a", "=", "a=1,,b=2,", "a==", "x@y=z", "a= b"]) for i in range(n)]
    trace_state_loops(j)
    check_valid(TraceState.from_header(hs), j, "parsed")


@contract(bound="up to three entries")
def header_round_trip():
    """Writing up to three entries with any valid texts and parsing them back gives the same entries in the same order."""
    n = choose("n", 4)
    es = [(sym_str(f"k{i}", pattern=TS_KEY, pool=["a", "b", "t@v", "k" * 256]), sym_str(f"v{i}", pattern=TS_VALUE, pool=["1", " x", "~", "v" * 256])) for i in range(n)]
    for i in range(n):
        for m in range(i):
            assume(neg(es[i][0] == es[m][0]))
    s = TraceState(es)
    back = TraceState.from_header([s.to_header()])
    check(list(back.items()) == es, "the same entries in the same order")


@contract()
def full_state_round_trip():
    """The same with 32 entries, and split over two headers."""
    v = sym_str("v", pattern=TS_VALUE, pool=["1", " x"])
    es = [("a", v)] + [(f"k{i}", "v") for i in range(31)]
    s = TraceState(es)
    if choose("split", 2):
        a, b = TraceState(es[:10]), TraceState(es[10:])
        back = TraceState.from_header([a.to_header(), b.to_header()])
    else:
        back = TraceState.from_header([s.to_header()])
    check(list(back.items()) == es, "the same entries in the same order")


@contract()
def mapping_view():
    """A trace state reads as the mapping of its entries."""
    s, es = base_state()
    k = sym_str("k", pool=["a@t", "b", "zz"])
    check(len(s) == len(es), "its size")
    check(list(s) == [x for x, _ in es] and list(s.keys()) == [x for x, _ in es], "its keys in order")
    check(list(s.values()) == [y for _, y in es], "its values in order")
    check(not any(hasattr(view, m) for view in (s.keys(), s.values(), s.items(), s) for m in ("pop", "clear", "__setitem__", "__delitem__", "append")), "nothing handed out can change it")
    had = [y for x, y in es if is_true(k == x)]
    check((k in s) == bool(had), "membership")
    check(s.get(k) == (had[0] if had else None), "lookup")
