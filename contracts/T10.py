"""T10: span contexts - validity, immutability, formatting."""
import copy
import pickle

from contracts.common import *
from opentelemetry.trace import INVALID_SPAN_CONTEXT, format_span_id, format_trace_id
from opentelemetry.trace.span import DEFAULT_TRACE_OPTIONS, NonRecordingSpan, INVALID_SPAN


@contract()
def validity_and_fields():
    """SpanContext.__new__: is_valid iff both ids in range; every field is the argument."""
    t, s = sym_int("trace_id"), sym_int("span_id")
    r, f = sym_bool("remote"), any_flags()
    ts = small_trace_state() if choose("small", 2) else any_trace_state()
    c = SpanContext(t, s, r, f, ts)
    check(iff(c.is_valid, both(t >= 1, t <= TRACE_MAX, s >= 1, s <= SPAN_MAX)), "is_valid iff both ids are in range")
    check(c.trace_id == t, "trace id reported")
    check(c.span_id == s, "span id reported")
    check(c.is_remote == r, "is_remote reported")
    check(c.trace_flags == f, "trace flags reported")
    check(c.trace_state is ts, "trace state reported")


@contract()
def defaults():
    t, s = sym_int("trace_id"), sym_int("span_id")
    if choose("explicit", 2) == 0:
        c = SpanContext(t, s, False)
    else:
        c = SpanContext(t, s, False, None, None)
    check(c.trace_flags == 0, "default flags: not sampled")
    check(len(c.trace_state) == 0, "default trace state is empty")
    check(not INVALID_SPAN_CONTEXT.is_valid, "the invalid context is invalid")
    check(not INVALID_SPAN.get_span_context().is_valid, "the invalid span has an invalid context")


@contract()
def equality():
    """Equal exactly when all fields are equal."""
    a = SpanContext(sym_int("t1"), sym_int("s1"), sym_bool("r1"), any_flags("f1"), TraceState([("k", "v")]) if choose("ts1", 2) else None)
    b = SpanContext(sym_int("t2"), sym_int("s2"), sym_bool("r2"), any_flags("f2"), TraceState([("k", "v")]) if choose("ts2", 2) else None)
    same = both(a.trace_id == b.trace_id, a.span_id == b.span_id, a.is_remote == b.is_remote, a.trace_flags == b.trace_flags,
                len(a.trace_state) == len(b.trace_state))
    check(iff(a == b, same), "equal iff all fields are equal")
    check(iff(a != b, neg(same)), "unequal iff some field differs")


@contract()
def immutable():
    """Assigning or deleting any attribute or item leaves every field as it was and never succeeds."""
    t, s, r, f = sym_int("trace_id"), sym_int("span_id"), sym_bool("remote"), any_flags()
    c = SpanContext(t, s, r, f, TraceState([("k", "v")]))
    v0 = c.is_valid
    new = sym_int("new")
    n = choose("attr", ["trace_id", "span_id", "is_remote", "trace_flags", "trace_state", "is_valid", "other"])
    act = choose("act", 3)
    try:
        if act == 0:
            setattr(c, n, new)
        elif act == 1:
            delattr(c, n)
        else:
            c[0] = new
    except (AttributeError, TypeError):
        pass
    check(both(c.trace_id == t, c.span_id == s, c.is_remote == r, c.trace_flags == f), "fields unchanged after an assignment attempt")
    check(iff(c.is_valid, v0), "validity unchanged after an assignment attempt")
    check(c.trace_state.get("k") == "v", "trace state unchanged")


@contract()
def formatting_trace_id():
    t = any_trace_id()
    x = format_trace_id(t)
    check(length(x) == 32, "32 characters")
    check(re_full("[0-9a-f]{32}", x), "lower-case hexadecimal digits only")
    check(int(x, 16) == t, "parses back to the id")


@contract()
def formatting_span_id():
    t = sym_int("span_id", 0, SPAN_MAX)
    x = format_span_id(t)
    check(length(x) == 16, "16 characters")
    check(re_full("[0-9a-f]{16}", x), "lower-case hexadecimal digits only")
    check(int(x, 16) == t, "parses back to the id")


@contract()
def flags():
    """TraceFlags.sampled is bit 0."""
    v = sym_int("flags", 0, 255)
    check(iff(TraceFlags(v).sampled, v % 2 == 1), "sampled is the lowest bit")
    check(TraceFlags.get_default() == 0, "default flags are 0")
    check(TraceFlags(TraceFlags.SAMPLED).sampled, "SAMPLED is sampled")


@contract()
def non_recording_span():
    """A non-recording span reports exactly the context it was built with and ignores everything else."""
    c = any_context()
    sp = NonRecordingSpan(c)
    sp.set_attribute("k", sym_int("v"))
    sp.update_name("n")
    sp.end()
    check(sp.get_span_context() is c, "context is the given one")
    check(not sp.is_recording(), "never records")


@contract(native_only=True, runs=80)
def copies():
    """Copying and pickling keep all fields (native only: copy and pickle are C code)."""
    c = any_context()
    for d in (copy.copy(c), copy.deepcopy(c), pickle.loads(pickle.dumps(c))):
        check(d == c and d.is_valid == c.is_valid and d.is_remote == c.is_remote and d.trace_state == c.trace_state, "copy equals the original")
