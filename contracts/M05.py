"""M05: instruments accept only valid names and meaningful measurements."""
import sys
from contracts.common import *
from contracts.metrics import *
from opentelemetry import metrics as metrics_api
from opentelemetry.metrics._internal import instrument as api_instruments
from opentelemetry.metrics._internal.instrument import Instrument, _MetricsHistogramAdvisory
from opentelemetry.sdk.metrics import Meter
from opentelemetry.sdk.metrics._internal import instrument as instruments
from opentelemetry.sdk.metrics._internal.instrument import (
    _Counter, _Gauge, _Histogram, _ObservableCounter, _ObservableGauge, _ObservableUpDownCounter, _UpDownCounter)
from opentelemetry.sdk.util.instrumentation import InstrumentationScope

# Letters, digits, '_', '.', '-' and '/' after one letter: at most 255 in all.
VALID_NAME = r"[A-Za-z][A-Za-z0-9_.\-/]{0,254}"
VALID_UNIT = r"[\x00-\x7f]{0,63}"
NAMES = ["a", "A.b", "x" * 255, "x" * 256, "", "1a", "_a", "a b", "a\n", "aé", "a/b-c_d.e", " a", "ａ", "a٣", "A"]
UNITS = ["", "ms", "u" * 63, "u" * 64, "é", "\x7f", "\x80", "1\n", "By,x"]

KINDS = {"counter": _Counter, "up_down_counter": _UpDownCounter, "histogram": _Histogram, "gauge": _Gauge,
         "observable_counter": _ObservableCounter, "observable_up_down_counter": _ObservableUpDownCounter, "observable_gauge": _ObservableGauge}
SYNC = ("counter", "up_down_counter", "histogram", "gauge")


class Consumer:
    """Stands for the measurement consumer."""

    def __init__(self):
        self.got, self.registered = [], []

    def consume_measurement(self, m):
        self.got.append(m)

    def register_asynchronous_instrument(self, i):
        self.registered.append(i)


def meter(consumer=None):
    consumer = consumer if consumer is not None else Consumer()
    return Meter(InstrumentationScope("m", "1"), consumer), consumer


def create(m, kind, name, unit="", description="", **kw):
    return getattr(m, "create_" + kind)(name, unit=unit, description=description, **kw)


def direct(kind, consumer, name, unit="", description="", scope=None):
    return KINDS[kind](name, scope, consumer, unit=unit, description=description)


def raised(f):
    try:
        f()
    except Exception:
        return True
    return False


@contract()
def names_and_units():
    """Any texts: the name is accepted exactly if it is valid, the unit likewise; both are handed on unchanged."""
    name, unit = sym_str("name", pool=NAMES), sym_str("unit", pool=UNITS)
    description = sym_str("description", pool=["", "d,e"])
    r = Instrument._check_name_unit_description(name, unit, description)
    check(iff(r["name"] is not None, re_full(VALID_NAME, name)), "the name is accepted exactly if valid")
    check(iff(r["unit"] is not None, re_full(VALID_UNIT, unit)), "the unit is accepted exactly if valid")
    check(r["name"] is None or r["name"] == name, "the name as it is")
    check(r["unit"] is None or r["unit"] == unit, "the unit as it is")
    check(r["description"] == description, "the description as it is")


@contract()
def no_unit_and_description():
    """Neither unit nor description: both empty."""
    r = Instrument._check_name_unit_description(sym_str("name", pattern=VALID_NAME, pool=["a"]), None, None)
    check(r["unit"] == "" and r["description"] == "", "empty")
    check(r["name"] is not None, "accepted")


@contract(seconds=120)
def created_exactly_if_valid():
    """Every kind of instrument, any name and unit: it is created exactly if both are valid, with the name in lower case."""
    kind = choose("kind", list(KINDS))
    name, unit, description = sym_str("name", pool=NAMES), sym_str("unit", pool=UNITS), sym_str("description", pool=["", "d"])
    scope, c = InstrumentationScope("m"), Consumer()
    try:
        ins = direct(kind, c, name, unit, description, scope)
    except Exception:
        check(neg(both(re_full(VALID_NAME, name), re_full(VALID_UNIT, unit))), "refused only an invalid name or unit")
        return
    check(both(re_full(VALID_NAME, name), re_full(VALID_UNIT, unit)), "created only with a valid name and unit")
    check(ins.name == name.lower(), "its name, in lower case")
    check(ins.unit == unit, "its unit")
    check(ins.description == description, "its description")
    check(ins.instrumentation_scope is scope, "its scope")


@contract()
def the_meter_creates_it():
    """Every create method, any valid name and unit: the result is that kind of instrument with these texts, connected to the meter's consumer."""
    kind = choose("kind", list(KINDS))
    m, c = meter()
    name, unit, description = sym_str("name", pattern=VALID_NAME, pool=["a", "Ab"]), sym_str("unit", pattern=VALID_UNIT, pool=["", "ms"]), sym_str("description", pool=["", "d"])
    extra = {}
    if kind == "histogram":
        bounds = choose("bounds", [None, (1, 2.5), [], ["x"], 7])
        extra = {"explicit_bucket_boundaries_advisory": bounds}
    ins = create(m, kind, name, unit, description, **extra)
    check(type(ins) is KINDS[kind], "the kind that was asked for")
    check(both(ins.name == name.lower(), ins.unit == unit, ins.description == description), "with the texts given")
    check(ins.instrumentation_scope is attr(m, "_instrumentation_scope"), "with the meter's scope")
    check(attr(ins, "_measurement_consumer") is c, "connected to the meter's consumer")
    check([x is ins for x in c.registered] == ([] if kind in SYNC else [True]), "asynchronous instruments are registered for collection, once")
    if kind == "histogram":
        check(ins._advisory == _MetricsHistogramAdvisory(bounds if bounds in (None, (1, 2.5), []) else None), "with boundaries that are numbers")


@contract()
def the_meter_refuses_it():
    """Every create method, any invalid name or unit: refused, also the second time, and nothing is registered."""
    kind = choose("kind", list(KINDS))
    m, c = meter()
    name, unit = sym_str("name", pool=NAMES), sym_str("unit", pool=UNITS)
    assume(neg(both(re_full(VALID_NAME, name), re_full(VALID_UNIT, unit))))
    check(raised(lambda: create(m, kind, name, unit)), "refused")
    check(raised(lambda: create(m, kind, name, unit)), "refused again")
    check(c.registered == [] and len(attr(m, "_instrument_id_instrument")) == 0, "no instrument is kept")


def amount_of(tag):
    if choose(tag + ".float", 2):
        return choose(tag + ".special", [float("nan"), float("inf"), float("-inf"), -0.0]) if choose(tag + ".odd", 2) else sym_real(tag)
    return sym_int(tag)


@contract(seconds=120)
def amounts():
    """Any amount, attributes and context on any synchronous instrument: a negative one is dropped by counters and histograms without raising, any other is delivered once as it is."""
    kind = choose("kind", list(SYNC))
    c = Consumer()
    ins = direct(kind, c, "a")
    amount, at = amount_of("amount"), sym_int("now", 1, 2**63)
    set_clock(lambda: at)
    attributes = [None, {}, {"k": sym_str("v", pool=["1"])}][choose("attributes", 3)]
    given = [None, context_api.Context(), context_api.Context({"k": 1})][choose("context", 3)]
    current = context_api.Context({"current": 1})
    token = context_api.attach(current)
    on_exit(lambda: context_api.detach(token))
    args = choose("args", 2)
    op = {"counter": "add", "up_down_counter": "add", "histogram": "record", "gauge": "set"}[kind]
    if args:
        getattr(ins, op)(amount, attributes, given)
    else:
        getattr(ins, op)(amount, attributes=attributes, context=given)
    if kind in ("counter", "histogram") and is_true(amount < 0):
        check(c.got == [], "a negative amount is not delivered")
        return
    check(len(c.got) == 1, "delivered once")
    got = c.got[0]
    check(got.value is amount, "with its value")
    check(got.attributes is attributes, "with its attributes")
    check(got.context is (given if given is not None else context_api.get_current()), "with the context given, else the current one")
    check(got.instrument is ins, "as a measurement of this instrument")
    check(got.time_unix_nano == at, "with the time")


def texts(tag):
    return (sym_str(tag + ".name", pattern=VALID_NAME, pool=["a", "A", "b"]), sym_str(tag + ".unit", pattern=VALID_UNIT, pool=["", "a", "a,b"]),
            sym_str(tag + ".description", pool=["", "c", "b,c"]))


@contract(seconds=200)
def one_instrument_per_identity():
    """Two requests with any kinds, names, units and descriptions: the same instrument exactly if all agree (names up to case), registered once."""
    a, b = choose("kind", list(KINDS)), choose("other", [0, 1, 3])
    names = list(KINDS)
    b = names[(names.index(a) + b) % len(names)]
    m, c = meter()
    t, u = texts("t"), texts("u")
    i, j = create(m, a, *t), create(m, b, *u)
    same = both(a == b, t[0].lower() == u[0].lower(), t[1] == u[1], t[2] == u[2])
    check(iff(i is j, same), "the same instrument exactly if kind, name, unit and description agree")
    check(len(c.registered) == len({id(x) for x in c.registered}), "each registered once")
    check(type(j) is KINDS[b], "of the kind that was asked for")


@contract()
def names_differing_in_case():
    """A request with the name in another case: the same instrument."""
    kind = choose("kind", list(KINDS))
    m, c = meter()
    name = choose("name", ["Ab.C", "ab.C", "A"])
    i = create(m, kind, name, "u", "d")
    check(create(m, kind, name.lower(), "u", "d") is i and create(m, kind, name.upper(), "u", "d") is i, "the same instrument")


@contract(seconds=120)
def requests_race():
    """Another thread asks for the same instrument at a lock of the first request: both get the same one, registered once."""
    kind = choose("kind", list(KINDS))
    m, c = meter()
    theirs = []

    def other():
        if not theirs:
            theirs.append(None)
            theirs[0] = create(m, kind, "a", "u", "d")
    lock, at = choose("where", [("_instrument_ids_lock", 0), ("_instrument_id_instrument_lock", 0), ("_instrument_id_instrument_lock", 1)])
    if choose("asked before", 2):
        create(m, kind, "b", "u", "d")
    before = len(c.registered)
    interfere(m, lock, other, at=at, after=choose("after", 2) == 1)
    mine = create(m, kind, "a", "u", "d")
    check(create(m, kind, "a", "u", "d") is mine, "a later request gets the same")
    if theirs:
        check(theirs[0] is mine, "the other thread's is the same")
    check(len(c.registered) == before + (0 if kind in SYNC else 1), "registered once")


@contract()
def a_conflicting_advisory():
    """The same histogram with other boundaries: the first one is returned, with its own boundaries."""
    m, c = meter()
    all_ = [None, (1, 2), (1, 3), ()]
    a, b = choose("a", all_), choose("b", all_)
    i = create(m, "histogram", "a", explicit_bucket_boundaries_advisory=a)
    j = create(m, "histogram", "a", explicit_bucket_boundaries_advisory=b)
    check(i is j, "the same histogram")
    check(i._advisory == _MetricsHistogramAdvisory(a), "as it was created first")


NOOP = {"counter": "add", "up_down_counter": "add", "histogram": "record", "gauge": "set"}


@contract()
def without_an_sdk():
    """Instruments of the no-op meter take any name, unit and amount and never raise."""
    kind = choose("kind", list(KINDS))
    m = metrics_api.NoOpMeter("m")
    name, unit = sym_str("name", pool=NAMES), sym_str("unit", pool=UNITS)
    i = create(m, kind, name, unit)
    if kind in NOOP:
        check(getattr(i, NOOP[kind])(amount_of("amount"), {"k": "v"}) is None, "nothing happens")
    check(isinstance(i, Instrument), "an instrument")
