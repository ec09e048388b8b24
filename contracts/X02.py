"""X02: OTLP export retries only transient errors and gives up in bounded time."""
import gzip
import zlib
from contracts.common import *
from grpc import RpcError, StatusCode as Code
from opentelemetry.exporter.otlp.proto.common._internal import _create_exp_backoff_generator
from opentelemetry.exporter.otlp.proto.grpc import _log_exporter as glog
from opentelemetry.exporter.otlp.proto.grpc import exporter as gexp
from opentelemetry.exporter.otlp.proto.grpc import metric_exporter as gmetric
from opentelemetry.exporter.otlp.proto.grpc import trace_exporter as gtrace
from opentelemetry.exporter.otlp.proto.http import Compression
from opentelemetry.exporter.otlp.proto.http import _log_exporter as hlog
from opentelemetry.exporter.otlp.proto.http import metric_exporter as hmetric
from opentelemetry.exporter.otlp.proto.http import trace_exporter as htrace
from opentelemetry.sdk._logs.export import LogExportResult
from opentelemetry.sdk.metrics.export import Gauge, Metric, MetricExportResult, MetricsData, NumberDataPoint, ResourceMetrics, ScopeMetrics
from opentelemetry.sdk.trace.export import SpanExportResult
from opentelemetry.sdk.util.instrumentation import InstrumentationScope

WAITS = [1, 2, 4, 8, 16, 32]
ENV = dict(OTEL_EXPORTER_OTLP_ENDPOINT=None, OTEL_EXPORTER_OTLP_HEADERS=None, OTEL_EXPORTER_OTLP_TIMEOUT=None, OTEL_EXPORTER_OTLP_COMPRESSION=None, OTEL_EXPORTER_OTLP_INSECURE=None,
           OTEL_EXPORTER_OTLP_CERTIFICATE=None, OTEL_EXPORTER_OTLP_CLIENT_KEY=None, OTEL_EXPORTER_OTLP_CLIENT_CERTIFICATE=None)
SIGNALS = ("TRACES", "METRICS", "LOGS")


def clean_env(**kw):
    e = dict(ENV)
    for s in SIGNALS:
        for k in ENV:
            e[k.replace("OTLP_", "OTLP_" + s + "_")] = None
    e.update(OTEL_EXPORTER_OTLP_METRICS_TEMPORALITY_PREFERENCE=None, OTEL_EXPORTER_OTLP_METRICS_DEFAULT_HISTOGRAM_AGGREGATION=None)
    e.update(kw)
    set_env(**e)


# ---------------------------------------------------------------------------------------------------------- waits
@contract()
def waits_double_up_to_the_maximum():
    """For any maximum: the i-th wait is 2**i, never more than the maximum; without one it keeps doubling."""
    top = sym_int("max", 0)
    gen = _create_exp_backoff_generator(max_value=top) if choose("given", 2) else _create_exp_backoff_generator()
    given = gen is not None and choose("first", 12)
    last = 0
    for i in range(given + 1):
        last = next(gen)
    check(either(last == 2 ** given, both(last == top, top < 2 ** given, top > 0)), "doubling, capped")


# ----------------------------------------------------------------------------------------------------------- http
class Response:
    def __init__(self, status):
        self.status_code = status
        self.reason, self.text = "reason", "text"

    @property
    def ok(self):
        return self.status_code < 400


class Session:
    """A collector that answers the k-th request with the k-th answer."""

    def __init__(self, answer):
        self.headers, self.posts, self.closed, self.answer = {}, [], 0, answer

    def post(self, **kw):
        self.posts.append(kw)
        return self.answer(len(self.posts) - 1)

    def close(self):
        self.closed += 1


class Encoded:
    """What the encoder makes of the data."""

    def __init__(self, data):
        self.data = data

    def SerializeToString(self):
        return self.data

    SerializePartialToString = SerializeToString


HTTP = {
    "span": (htrace, "OTLPSpanExporter", "encode_spans", SpanExportResult),
    "metric": (hmetric, "OTLPMetricExporter", "encode_metrics", MetricExportResult),
    "log": (hlog, "OTLPLogExporter", "encode_logs", LogExportResult),
}


class HttpRun:
    def __init__(self, answer, kind=None, **kw):
        self.kind = kind or choose("signal", list(HTTP))
        mod, cls, encoder, self.result = HTTP[self.kind]
        self.session, self.sleeps, self.encoded = Session(answer), [], []
        self.on_sleep = None
        stub(mod, encoder, self.encode)
        stub(mod, "sleep", self.sleep)
        clean_env(**kw.pop("env", {}))
        self.exporter = getattr(mod, cls)(session=self.session, **kw)

    def encode(self, data):
        self.encoded.append(data)
        return Encoded(b"payload")

    def sleep(self, seconds):
        self.sleeps.append(seconds)
        if self.on_sleep:
            self.on_sleep()


def transient(status):
    return either(status == 408, both(500 <= status, status <= 599))


@contract()
def http_every_sequence_of_answers():
    """For any status of each answer: success exactly when accepted, nothing more sent then or after a lasting failure, the same data again after each transient one, after
    waiting twice as long each time, and a failure after the sixth."""
    statuses = [sym_int(f"status{i}", 200, 599) for i in range(6)]
    for s in statuses:
        assume(either(s < 300, s >= 400))
    run = HttpRun(lambda k: Response(statuses[k]))
    data = [object()]
    got = run.exporter.export(data)
    want, n = run.result.FAILURE, 0
    for s in statuses:
        n += 1
        if is_true(s < 300):
            want = run.result.SUCCESS
            break
        if is_true(neg(transient(s))):
            break
    check(got is want, "success exactly when accepted")
    check(len(run.session.posts) == n, "sent until accepted or refused for good, six times at most")
    failed = sum(1 for s in statuses[:n] if is_true(transient(s)))
    check(len(run.sleeps) == failed and all(a == b for a, b in zip(run.sleeps, WAITS)), "waits after each transient failure, doubling")
    check(all(p["data"] == b"payload" and p["url"] == run.exporter._endpoint for p in run.session.posts), "the same data to the same place")
    check(len(run.encoded) == 1 and run.encoded[0] is data, "the data given")


class NumberedHttpRun(HttpRun):
    def encode(self, data):
        self.encoded.append(data)
        return Encoded(b"payload%d" % len(self.encoded))


@contract()
def http_next_export_starts_anew():
    """After an export that was accepted at once or after failures, refused, or given up: the next one is tried as often and waits as long as the first would have, with its own data."""
    first, then, fails = choose("transient failures", [0, 2, 6]), choose("end", [200, 400]), choose("failures of the next", [0, 1, 5, 6])
    answers = [503] * first + ([then] if first < 6 else []) + [503] * fails + ([200] if fails < 6 else [])
    run = NumberedHttpRun(lambda k: Response(answers[k]))
    a, b = [object()], [object()]
    got = run.exporter.export(a)
    check(got is (run.result.SUCCESS if first < 6 and then == 200 else run.result.FAILURE), "success exactly when accepted")
    n = len(run.session.posts)
    check(n == min(first + 1, 6), "sent until accepted or refused for good, six times at most")
    del run.sleeps[:]
    got = run.exporter.export(b)
    check(got is (run.result.SUCCESS if fails < 6 else run.result.FAILURE), "the next one succeeds exactly when accepted")
    check(len(run.session.posts) - n == min(fails + 1, 6), "and is tried as often")
    check(run.sleeps == WAITS[:fails], "and waits as long")
    check(all(p["data"] == b"payload1" for p in run.session.posts[:n]) and all(p["data"] == b"payload2" for p in run.session.posts[n:]), "each its own data")


class Unreachable(Exception):
    pass


@contract()
def http_failing_transport_is_no_success():
    at = choose("at", 3)

    def answer(k):
        if k == at:
            raise Unreachable()
        return Response(503)

    run = HttpRun(answer)
    try:
        got = run.exporter.export([])
    except Unreachable:
        got = None
    check(got is not run.result.SUCCESS, "no success")
    check(len(run.session.posts) <= 6, "a bounded number of attempts")


@contract()
def http_nothing_after_shutdown():
    """After shutdown every export fails without contacting the collector; shutting down again changes nothing."""
    run = HttpRun(lambda k: Response(200))
    before = choose("before", 2)
    for _ in range(before):
        check(run.exporter.export([]) is run.result.SUCCESS, "works before")
    for _ in range(1 + choose("again", 3)):
        run.exporter.shutdown()
    check(run.session.closed == 1, "closed once")
    for _ in range(2):
        check(run.exporter.export([]) is run.result.FAILURE, "fails after")
    check(len(run.session.posts) == before and run.sleeps == [], "nothing sent, no waiting")
    check(run.exporter.force_flush(), "nothing to flush")


@contract()
def http_body_headers_and_settings():
    """What arrives decompresses to the encoded data and is labelled so; endpoint, timeout and headers are those configured, the signal's own before the general ones."""
    comp = choose("compression", [None, Compression.NoCompression, Compression.Gzip, Compression.Deflate])
    how = choose("how", ["argument", "environment", "signal"])
    kind = choose("signal", list(HTTP))
    sig = {"span": "TRACES", "metric": "METRICS", "log": "LOGS"}[kind]
    path = {"span": "v1/traces", "metric": "v1/metrics", "log": "v1/logs"}[kind]
    where = choose("where", ["default", "argument", "general", "general/", "signal"])
    env, kw = {}, {}
    if comp is not None:
        if how == "argument":
            kw["compression"] = comp
        elif how == "environment":
            env["OTEL_EXPORTER_OTLP_COMPRESSION"] = comp.value
        else:
            env["OTEL_EXPORTER_OTLP_COMPRESSION"] = "none" if comp is Compression.Gzip else "gzip"
            env[f"OTEL_EXPORTER_OTLP_{sig}_COMPRESSION"] = comp.value
    t = sym_int("timeout", 1, 10 ** 6)
    if how == "argument":
        kw["timeout"], kw["headers"] = t, {"h": "v"}
    elif how == "environment":
        env.update(OTEL_EXPORTER_OTLP_TIMEOUT="7", OTEL_EXPORTER_OTLP_HEADERS="h=v")
    else:
        env.update({"OTEL_EXPORTER_OTLP_TIMEOUT": "7", f"OTEL_EXPORTER_OTLP_{sig}_TIMEOUT": "8", "OTEL_EXPORTER_OTLP_HEADERS": "x=y", f"OTEL_EXPORTER_OTLP_{sig}_HEADERS": "h=v"})
    if where == "argument":
        kw["endpoint"] = "http://c/x"
    elif where == "signal":
        env[f"OTEL_EXPORTER_OTLP_{sig}_ENDPOINT"] = "http://c/x"
    elif where != "default":
        env["OTEL_EXPORTER_OTLP_ENDPOINT"] = "http://c/" if where == "general/" else "http://c"
    run = HttpRun(lambda k: Response(200), kind, env=env, **kw)
    check(run.exporter.export([]) is run.result.SUCCESS, "accepted")
    p, h = run.session.posts[0], run.session.headers
    label = h.get("Content-Encoding")
    body = p["data"]
    if label == "gzip":
        body = gzip.decompress(body)
    elif label == "deflate":
        body = zlib.decompress(body)
    check(label == (None if comp in (None, Compression.NoCompression) else comp.value), "labelled as configured")
    check(body == b"payload", "the encoded data")
    check(p["timeout"] == (t if how == "argument" else 7 if how == "environment" else 8), "the timeout")
    check(h["h"] == "v" and "x" not in h and h["Content-Type"] == "application/x-protobuf", "the headers")
    check(p["url"] == ("http://c/x" if where in ("argument", "signal") else "http://localhost:4318/" + path if where == "default" else "http://c/" + path), "the endpoint")


# ----------------------------------------------------------------------------------------------------------- grpc
class Failure(RpcError):
    def __init__(self, code, trailing=()):
        self._code, self._trailing = code, trailing

    def code(self):
        return self._code

    def trailing_metadata(self):
        return self._trailing

    def details(self):
        return "details"


class Channel:
    def __init__(self):
        self.closed = 0

    def close(self):
        self.closed += 1


class Client:
    """A collector; a call over a closed channel raises, as the real one does."""

    def __init__(self, channel, answer):
        self.channel, self.answer, self.calls = channel, answer, []

    def Export(self, request, metadata=None, timeout=None):
        if self.channel.closed:
            raise ValueError("Cannot invoke RPC on closed channel!")
        self.calls.append((request, metadata, timeout))
        return self.answer(len(self.calls) - 1)


GRPC = {
    "span": (gtrace, "OTLPSpanExporter", "encode_spans", SpanExportResult),
    "metric": (gmetric, "OTLPMetricExporter", "encode_metrics", MetricExportResult),
    "log": (glog, "OTLPLogExporter", "encode_logs", LogExportResult),
}


class RetryDelay:
    seconds, nanos = 0, 0


class Retry:
    """Stands in for google.rpc.RetryInfo: the delay is whatever was put into `named`."""

    named = (0, 0)

    def __init__(self):
        self.retry_delay = RetryDelay()

    def ParseFromString(self, data):
        check(data == b"retry", "the bytes of the trailer")
        self.retry_delay.seconds, self.retry_delay.nanos = Retry.named


class GrpcRun:
    def __init__(self, answer, kind=None, **kw):
        self.kind = kind or choose("signal", list(GRPC))
        mod, cls, encoder, self.result = GRPC[self.kind]
        self.channel, self.sleeps, self.encoded, self.on_sleep = Channel(), [], [], None
        self.channels = []
        stub(mod, encoder, self.encode)
        stub(gexp, "sleep", self.sleep)
        stub(gexp, "RetryInfo", Retry)
        stub(gexp, "insecure_channel", self.make_channel)
        clean_env(**kw.pop("env", {}))
        c = getattr(mod, cls)
        stub(c, "_stub", self.make_client)
        self.client = Client(self.channel, answer)
        self.exporter = c(insecure=True, **kw)

    def make_channel(self, endpoint, compression=None):
        self.channels.append((endpoint, compression))
        return self.channel

    def make_client(self, channel):
        return self.client

    def encode(self, data):
        self.encoded.append(data)
        return "request"

    def sleep(self, seconds):
        self.sleeps.append(seconds)
        if self.on_sleep:
            self.on_sleep()


TRANSIENT = [Code.CANCELLED, Code.DEADLINE_EXCEEDED, Code.RESOURCE_EXHAUSTED, Code.ABORTED, Code.OUT_OF_RANGE, Code.UNAVAILABLE, Code.DATA_LOSS]
LASTING = [Code.UNKNOWN, Code.INVALID_ARGUMENT, Code.NOT_FOUND, Code.ALREADY_EXISTS, Code.PERMISSION_DENIED, Code.UNAUTHENTICATED, Code.FAILED_PRECONDITION, Code.UNIMPLEMENTED,
           Code.INTERNAL]


@contract()
def grpc_every_sequence_of_answers():
    """The same for gRPC: any number of transient failures (each code in each place), then acceptance or a lasting failure."""
    n = choose("transient failures", 7)
    grpc_answers(n, choose("code", 7), choose("end", ["accepted"] + LASTING) if n < 6 else None, None)


@contract()
def grpc_delay_named_by_the_collector():
    """A delay the collector names with a failure replaces that one wait."""
    n = 1 + choose("transient failures", 6)
    grpc_answers(n, 0, choose("end", ["accepted", Code.INTERNAL]) if n < 6 else None, choose("named", n))


def grpc_answers(n, k, end, named):
    trailing = choose("trailer", ["only", "among others"]) if named is not None else None
    Retry.named = (sym_int("seconds", 0, 10 ** 6), sym_int("nanos", 0, 10 ** 9 - 1))

    def answer(i):
        if i < n:
            meta = ()
            if i == named:
                meta = (("google.rpc.retryinfo-bin", b"retry"),)
                if trailing == "among others":
                    meta = (("a", "b"),) + meta + (("z", "y"),)
            raise Failure(TRANSIENT[(k + i) % 7], meta)
        check(end is not None, "no more than six attempts")
        if end != "accepted":
            raise Failure(end)

    run = GrpcRun(answer)
    data = [object()]
    got = run.exporter.export(data)
    check(got is (run.result.SUCCESS if end == "accepted" else run.result.FAILURE), "success exactly when accepted")
    check(len(run.client.calls) == n + (1 if n < 6 else 0), "sent until accepted or refused for good, six times at most")
    check(len(run.sleeps) == n, "a wait after each transient failure")
    for i, s in enumerate(run.sleeps):
        if i == named:
            check(s == Retry.named[0] + Retry.named[1] / 1e9, "as long as the collector asks for")
        else:
            check(s == WAITS[i], "doubling")
    check(all(d is data for d in run.encoded), "the same data")
    check(all(c == ("request", run.exporter._headers, run.exporter._timeout) for c in run.client.calls), "with the headers and timeout configured")
    check(not run.exporter._export_lock.locked(), "ready for the next export")


class NumberedGrpcRun(GrpcRun):
    def encode(self, data):
        self.encoded.append(data)
        return data


@contract()
def grpc_next_export_starts_anew():
    """The same for gRPC."""
    first, then, fails = choose("transient failures", [0, 2, 6]), choose("end", [None, Code.INTERNAL]), choose("failures of the next", [0, 1, 5, 6])
    answers = [Code.UNAVAILABLE] * first + ([then] if first < 6 else []) + [Code.ABORTED] * fails + ([None] if fails < 6 else [])

    def answer(k):
        if answers[k] is not None:
            raise Failure(answers[k])
    run = NumberedGrpcRun(answer)
    a, b = [object()], [object()]
    got = run.exporter.export(a)
    check(got is (run.result.SUCCESS if first < 6 and then is None else run.result.FAILURE), "success exactly when accepted")
    n = len(run.client.calls)
    check(n == min(first + 1, 6), "sent until accepted or refused for good, six times at most")
    del run.sleeps[:]
    got = run.exporter.export(b)
    check(got is (run.result.SUCCESS if fails < 6 else run.result.FAILURE), "the next one succeeds exactly when accepted")
    check(len(run.client.calls) - n == min(fails + 1, 6), "and is tried as often")
    check(run.sleeps == WAITS[:fails], "and waits as long")
    check(all(c[0] is a for c in run.client.calls[:n]) and all(c[0] is b for c in run.client.calls[n:]), "each its own data")


@contract()
def grpc_other_exceptions_are_no_success():
    def answer(i):
        raise Unreachable()

    run = GrpcRun(answer)
    try:
        got = run.exporter.export([])
    except Unreachable:
        got = None
    check(got is not run.result.SUCCESS, "no success")
    check(len(run.client.calls) <= 6, "a bounded number of attempts")
    check(not run.exporter._export_lock.locked(), "ready for the next export")


@contract()
def grpc_nothing_after_shutdown():
    run = GrpcRun(lambda k: None)
    before = choose("before", 2)
    for _ in range(before):
        check(run.exporter.export([]) is run.result.SUCCESS, "works before")
    for _ in range(1 + choose("again", 3)):
        run.exporter.shutdown()
    check(run.channel.closed == 1, "closed once")
    for _ in range(2):
        check(run.exporter.export([]) is run.result.FAILURE, "fails after")
    check(len(run.client.calls) == before and run.sleeps == [], "nothing sent, no waiting")
    check(not run.exporter._export_lock.locked(), "no lock left behind")
    check(run.exporter.force_flush(), "nothing to flush")


@contract()
def grpc_shutdown_while_an_export_waits_for_the_lock():
    """Another thread shuts down right before an export takes the lock (before any attempt): it fails without an attempt over the closed channel."""
    at = choose("at", 3)

    def answer(i):
        raise Failure(Code.UNAVAILABLE)

    run = GrpcRun(answer)
    interfere(run.exporter, "_export_lock", run.exporter.shutdown, at)
    check(run.exporter.export([]) is run.result.FAILURE, "fails")
    check(len(run.client.calls) == at, "no attempt after the shutdown")
    check(not run.exporter._export_lock.locked(), "no lock left behind")


@contract()
def grpc_shutdown_that_cannot_wait():
    """Shut down while an export waits to retry, longer than shutdown does: no further attempt, the export fails, and the lock stays the export's until it is done."""
    at = choose("at", 6)

    def answer(i):
        raise Failure(Code.UNAVAILABLE)

    run = GrpcRun(answer)

    def on_sleep():
        if len(run.sleeps) == at + 1:
            held = run.exporter._export_lock.locked()
            if choose("twice", 2):
                run.exporter._export_lock.locked()
            if run.kind == "span":
                run.exporter.shutdown()
            else:
                run.exporter.shutdown(timeout_millis=choose("timeout", [1, 5]))
            check(run.exporter._export_lock.locked() == held, "the lock is not taken from the export")

    run.on_sleep = on_sleep
    if not symbolic():
        stub(run.exporter, "_export_lock", TimesOut())
    check(run.exporter.export([]) is run.result.FAILURE, "fails")
    check(len(run.client.calls) == at + 1, "no attempt after the shutdown")
    check(not run.exporter._export_lock.locked(), "no lock left behind")


class TimesOut:
    """A lock whose timed acquisition gives up at once when it is held (the real one would wait that long)."""

    def __init__(self):
        self.held = False

    def acquire(self, blocking=True, timeout=-1):
        if self.held:
            return False
        self.held = True
        return True

    def release(self):
        if not self.held:
            raise RuntimeError("release unlocked lock")
        self.held = False

    def locked(self):
        return self.held

    def __enter__(self):
        return self.acquire()

    def __exit__(self, *a):
        self.release()


def number_metrics(n):
    points = [NumberDataPoint({}, 1, 2, i) for i in range(n)]
    return MetricsData([ResourceMetrics(Resource({}), [ScopeMetrics(InstrumentationScope("s"), [Metric("m", "", "", Gauge(points))], "")], "")])


@contract()
def grpc_metrics_in_batches():
    """Split into batches, each is sent; success exactly when every one is accepted."""
    n, size = choose("points", 5), choose("size", [1, 2, 10])
    refused = choose("refused", 5)

    def answer(i):
        if i == refused:
            raise Failure(Code.INVALID_ARGUMENT)

    run = GrpcRun(answer, "metric", max_export_batch_size=size)
    got = run.exporter.export(number_metrics(n))
    batches = -(-n // size)
    check(len(run.client.calls) == batches, "each batch is sent once")
    check(got is (run.result.FAILURE if refused < batches else run.result.SUCCESS), "success exactly when all are accepted")
    sent = [p.value for d in run.encoded for rm in d.resource_metrics for sm in rm.scope_metrics for m in sm.metrics for p in m.data.data_points]
    check(sent == list(range(n)), "every point once")


@contract()
def grpc_settings():
    """Endpoint, headers and timeout are those configured, the signal's own before the general ones."""
    kind = choose("signal", list(GRPC))
    sig = {"span": "TRACES", "metric": "METRICS", "log": "LOGS"}[kind]
    how = choose("how", ["default", "argument", "general", "signal"])
    env, kw = {}, {}
    if how == "argument":
        kw = dict(endpoint="http://c:1/x", headers=choose("form", [(("h", "v"),), {"h": "v"}, "h=v"]), timeout=8)
    elif how in ("general", "signal"):
        env = dict(OTEL_EXPORTER_OTLP_ENDPOINT="http://c:1", OTEL_EXPORTER_OTLP_HEADERS="h=v", OTEL_EXPORTER_OTLP_TIMEOUT="8")
        if how == "signal":
            env = {k: "9" if "TIMEOUT" in k else "x=y" if "HEADERS" in k else "http://other:1" for k in env}
            env.update({f"OTEL_EXPORTER_OTLP_{sig}_ENDPOINT": "http://c:1", f"OTEL_EXPORTER_OTLP_{sig}_HEADERS": "h=v", f"OTEL_EXPORTER_OTLP_{sig}_TIMEOUT": "8"})
    run = GrpcRun(lambda k: None, kind, env=env, **kw)
    check(run.exporter.export([]) is run.result.SUCCESS, "accepted")
    _, metadata, timeout = run.client.calls[0]
    check(run.channels[0][0] == ("localhost:4317" if how == "default" else "c:1"), "the endpoint")
    check(timeout == (10 if how == "default" else 8), "the timeout")
    names = [k for k, _ in metadata]
    check(("h" in names) == (how != "default") and "x" not in names and "user-agent" in names, "the headers")
