"""Building blocks of the contracts about metrics."""
import math
from pyvc.lib import *
from opentelemetry import context as context_api
from opentelemetry.sdk.metrics.export import AggregationTemporality
from opentelemetry.sdk.metrics._internal.measurement import Measurement

DELTA, CUMULATIVE = AggregationTemporality.DELTA, AggregationTemporality.CUMULATIVE
INSTRUMENT = object()


def measurement(value, time=1, attributes=None, context=None, instrument=INSTRUMENT):
    return Measurement(value, time, instrument, context_api.Context() if context is None else context, {} if attributes is None else attributes)


class FakeReservoir:
    """An exemplar reservoir that writes down what it is offered."""

    def __init__(self):
        self.offers, self.collects, self.collected, self.point_attributes, self.kw = [], 0, [object()], None, None

    def build(self, **kw):
        self.kw = kw
        return self

    def offer(self, value, time_unix_nano, attributes, context):
        self.offers.append((value, time_unix_nano, attributes, context))

    def collect(self, point_attributes):
        self.collects += 1
        self.point_attributes = point_attributes
        return self.collected


def ghost_number(tag):
    return fresh_real(tag)


def same_sum(a, b):
    """Equality up to floating-point rounding (exact in the proof, where numbers are mathematical)."""
    if symbolic():
        return a == b
    return math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-6)
