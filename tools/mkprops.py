"""Regenerates /verif/properties.jsonl (the list of properties is edited here)."""
import json, os
API="opentelemetry-api/src/opentelemetry/"; SDK="opentelemetry-sdk/src/opentelemetry/sdk/"
EX="exporter/opentelemetry-exporter-"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))
T=SDK+"trace/__init__.py"; TE=SDK+"trace/export/__init__.py"; SP=API+"trace/span.py"
p("T01","An ended span never changes and ends exactly once",
 "Once a span has ended, no operation on it changes anything it reports: name, attributes, events, links, status and start and end times stay as they were, and it reports itself as not recording. Ending it again has no effect, so span processors are told about the end of a recording span exactly once, after its end time is fixed, and the explicit end time (or the clock's, when none is given) is what it reports.",
 ["inputs","histories"],"every span state, every operation with every argument, any sequence of operations after the end",
 "Tests call a few mutators after end() with one value each; the claim is about every operation, argument and state.",
 [T,SP],[("ended guard under the span's lock",T+": Span.set_attributes/_add_event/_add_link/update_name/set_status/end")],
 [("end time","None until ended, then fixed",T+": Span._end_time")],["span getters","processor on_end"])
p("T02","Span status precedence and exception recording",
 "A span's status, once OK, never changes; setting UNSET never changes it; any other setting replaces it, and a description is kept only with ERROR. When a block managed by a span (as context manager or made current) raises, the exception reaches the caller unchanged, an exception event is recorded and the status becomes ERROR exactly when the span was configured to do so, and the span is ended exactly when so configured.",
 ["inputs","histories"],"every sequence of status updates, every exception, every combination of the recording options",
 "Tests sample a handful of status pairs and one exception type; the precedence must hold for all sequences and option combinations.",
 [T,API+"trace/status.py",API+"trace/__init__.py"],[("status lattice",T+": Span.set_status"),("exit handling",T+": Span.__exit__, "+API+"trace/__init__.py: use_span, Span.__exit__")])
p("T03","Span limits: sizes, eviction order and drop counts",
 "However attributes, events and links are added, a span never holds more of them than its configured limits and an event or link never more attributes than its limit. What is kept is the most recently set entries in order, the value read for a key is the last one set, and the reported dropped counts equal the number of entries discarded because of the limits.",
 ["inputs","histories","configurations"],"every limit (including none and zero), every sequence of insertions, updates and deletions",
 "Tests fill one container of one size; conservation (kept + dropped = inserted) must be an invariant over every history and limit.",
 [API+"attributes/__init__.py",SDK+"util/__init__.py",T],[("bounded ordered dict",API+"attributes/__init__.py: BoundedAttributes.__setitem__"),("bounded deque",SDK+"util/__init__.py: BoundedList.append/extend, BoundedDict.__setitem__"),("limits wiring",T+": Span.__init__, _add_event, _add_link")],
 [("dropped","number of evicted entries",API+"attributes/__init__.py: BoundedAttributes.dropped")],["span.attributes","dropped_* properties"])
p("T04","Only valid, immutable attribute values are ever stored",
 "Whatever value and key a caller passes, setting an attribute never raises, and a stored value is a string, boolean, integer or float, or a tuple of one of these types (with None allowed inside), equal to the caller's value except that strings are cut to the length limit and bytes are decoded. Values that are not of these types, mixed-type sequences and empty or non-string keys are not stored, and changing the caller's list afterwards does not change the stored value.",
 ["inputs","configurations"],"every key and value of any type, every sequence length, every length limit",
 "The value space is unbounded and heterogeneous; tests sample a dozen shapes.",
 [API+"attributes/__init__.py"],[("value cleaning",API+"attributes/__init__.py: _clean_attribute, _clean_attribute_value, BoundedAttributes.__setitem__")],obs=["BoundedAttributes mapping interface"])
p("T05","New spans: identity, parentage and sampling outcome",
 "A span started under a valid parent has the parent's trace id and records that parent; without a valid parent it starts a new trace with a valid fresh trace id; its span id is valid and newly generated. The sampled flag of its context is set exactly when the sampler decided to record and sample, it records exactly when the decision says so, processors see the start of exactly the recording spans, and the sampler's attributes and trace state are those of the span.",
 ["inputs","configurations"],"every parent context (absent, valid, invalid, remote, local, any flags), every sampler decision, every id the generator returns, every span kind, attribute and link set",
 "Tests combine a few parents with a few samplers; the relation must hold for each combination and any 128/64-bit id.",
 [T,SDK+"trace/id_generator.py",API+"trace/__init__.py"],[("span creation",T+": Tracer.start_span"),("id generation",SDK+"trace/id_generator.py: RandomIdGenerator")])
p("T06","Samplers decide by their published rule",
 "A ratio sampler's decision depends only on the low 64 bits of the trace id and its ratio, samples everything at 1 and nothing at 0, and anything sampled at a ratio is sampled at every higher ratio. A parent-based sampler uses the root sampler when there is no valid parent and otherwise the delegate chosen by the parent's remote and sampled flags, and built-in samplers pass on the parent's trace state and attach the given attributes only when they sample.",
 ["inputs","configurations"],"every 128-bit trace id, every ratio in [0,1], every parent context and delegate combination",
 "2^128 ids and a continuum of ratios; tests try a few constants.",
 [SDK+"trace/sampling.py"],[("ratio bound",SDK+"trace/sampling.py: TraceIdRatioBased"),("delegation",SDK+"trace/sampling.py: ParentBased.should_sample"),("configuration",SDK+"trace/sampling.py: _get_from_env_or_default")])
p("T07","Span processors all see every span, in registration order",
 "Every registered span processor is called exactly once for each start and each end of a recording span with that span and the parent context, in registration order; a processor added later sees only later events. Shutdown reaches every processor, and flushing succeeds only if every processor flushed successfully within the overall deadline, stopping at the first failure in the sequential variant.",
 ["inputs","histories"],"every number of processors, every pattern of flush results and elapsed times",
 "Tests use two mock processors; the guarantee ranges over any number of processors and outcomes.",
 [T],[("fan-out",T+": SynchronousMultiSpanProcessor, ConcurrentMultiSpanProcessor")],[("processor tuple","registered processors, replaced not mutated",T+": _span_processors")])
p("T08","Span export pipelines deliver each sampled span at most once, in order",
 "Of the ended spans handed to a simple or batching span processor, exactly the sampled ones reach the exporter, each once and in end order; a batch is never larger than the configured maximum, and while the queue is full the newest or oldest loss is limited to what exceeds its capacity. Draining or flushing exports everything queued at that moment, an exporter that raises never breaks the processor, after shutdown nothing more is accepted, and the exporter runs with instrumentation suppressed and the caller's context restored.",
 ["inputs","histories","fault_sequences","configurations"],"every queue content and length, every batch size, every exporter failure pattern, every constructor configuration",
 "Tests use fixed queue sizes and a mock exporter; the batching loop must be right for every queue length and batch size.",
 [TE,SDK+"trace/export/in_memory_span_exporter.py"],[("queue and batch loop",TE+": BatchSpanProcessor.on_end/_export/_export_batch/_drain_queue"),("validation",TE+": BatchSpanProcessor._validate_arguments"),("simple export",TE+": SimpleSpanProcessor.on_end")],
 [("queue","ended sampled spans not yet exported",TE+": BatchSpanProcessor.queue"),("spans_list","batch buffer",TE+": BatchSpanProcessor.spans_list")],["SpanExporter.export calls"])
p("T09","Contexts are immutable values and activation is undone exactly",
 "A context never changes after it is created: setting a value returns a new context that differs only in that key and leaves the original as it was. Attaching makes a context current and detaching with the returned token restores exactly the previous one, detaching never raises, and making a span current for a block or a decorated call restores the previous context when it ends, normally or by an exception.",
 ["inputs","histories"],"every context, key and value, every nesting, every way a block can end",
 "Tests check one or two keys and one nesting level.",
 [API+"context/__init__.py",API+"context/context.py",API+"context/contextvars_context.py",API+"trace/__init__.py",API+"util/_decorator.py",T],[("copy on write",API+"context/__init__.py: set_value; "+API+"context/context.py: Context"),("token restore",API+"context/contextvars_context.py"),("span activation",API+"trace/__init__.py: use_span; "+T+": Tracer.start_as_current_span")])
p("T10","Span contexts: validity, immutability and formatting",
 "A span context is valid exactly when its trace id is in 1..2^128-1 and its span id in 1..2^64-1; it cannot be changed after creation, reports the values it was built with, and equals another exactly when all its fields are equal. Formatted ids are always lower-case hexadecimal of exactly 32 and 16 digits that parse back to the same number.",
 ["inputs"],"every pair of integers as ids, every flags value, every trace state",
 "Boundary values of a 128-bit space and every attempted mutation cannot be enumerated by examples.",
 [SP],[("validity",SP+": SpanContext.__new__"),("immutability",SP+": SpanContext.__setattr__/__delattr__"),("formatting",SP+": format_trace_id, format_span_id")])
p("T11","Global providers are set once and proxies forward to them",
 "The first tracer, meter or logger provider that is set globally stays the global one whatever is set later. Tracers, meters and instruments obtained before a provider is set start delegating to the real one once it is set, with the name, version, schema, attributes, unit and description they were created with, and do nothing before.",
 ["histories","inputs"],"every order of get, create and set operations, every argument",
 "Tests check one order for each signal; the delegation table spans all instrument kinds and arguments.",
 [API+"trace/__init__.py",API+"metrics/_internal/__init__.py",API+"metrics/_internal/instrument.py",API+"_logs/_internal/__init__.py",API+"util/_once.py"],[("set-once",API+"util/_once.py: Once.do_once"),("proxies",API+"trace/__init__.py: ProxyTracerProvider/ProxyTracer; "+API+"metrics/_internal: _ProxyMeter, _Proxy instruments; "+API+"_logs/_internal: ProxyLogger")])
TC=API+"trace/propagation/tracecontext.py"
p("P01","W3C trace context: lossless round trip, strict parsing",
 "Injecting any valid span context and extracting from the result yields a remote span context with the same trace id, span id, trace flags and trace state entries; an invalid span context injects nothing. Extracting never raises whatever the headers contain, and leaves the context unchanged when the traceparent header is absent or not a well-formed one with a supported version and non-zero ids.",
 ["inputs"],"every valid span context, every header text",
 "Header text is an unbounded input space; tests list a dozen malformed headers.",
 [TC,SP],[("parse",TC+": extract"),("format",TC+": inject")],obs=["carrier contents","extracted span context"])
p("P02","Trace state is always valid, bounded and immutable",
 "A trace state never holds an invalid key or value, a duplicate key or more than 32 entries, however it was built; adding, updating and deleting return a new state with exactly that change (an added or updated entry first, all others in order) or an equal one when the request is invalid or impossible, and never alter the original. Writing a trace state as a header and parsing it back yields the same entries in the same order.",
 ["inputs","histories"],"every key and value text, every sequence of operations, every header text",
 "Grammar and capacity must hold over arbitrary strings and histories.",
 [SP],[("operations",SP+": TraceState.__init__/add/update/delete/to_header/from_header"),("grammar",SP+": _KEY_PATTERN, _VALUE_PATTERN")])
BG=API+"baggage/__init__.py"; BP=API+"baggage/propagation/__init__.py"
p("P03","Baggage is immutable, isolated and survives propagation",
 "Setting, removing or clearing baggage returns a new context that differs from the given one in exactly that, and the mapping handed out cannot be modified. Injecting baggage with valid keys and string values and extracting it yields the same entries; extraction never raises and ignores malformed entries and headers beyond the size limits (8192 bytes, 180 entries, 4096 bytes per entry) without disturbing the valid ones.",
 ["inputs","histories"],"every baggage content, every header text",
 "Header texts and key/value texts are unbounded.",
 [BG,BP],[("copy on write",BG+": set_baggage/remove_baggage/clear"),("header codec",BP+": W3CBaggagePropagator")])
B3="propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py"
p("P04","B3 propagation round trips and rejects malformed ids",
 "Injecting a valid span context in B3 single- or multi-header form and extracting it yields a remote span context with the same trace id, span id and sampled decision. Extraction never raises, produces a span context only from well-formed non-zero hexadecimal ids, and otherwise leaves an existing context unchanged.",
 ["inputs"],"every span context, every header combination and text",
 "Arbitrary header texts and 128-bit ids.",[B3],[("extract/inject",B3+": B3MultiFormat.extract, inject; B3SingleFormat.inject")])
JG="propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py"
p("P05","Jaeger propagation round trips and rejects malformed ids",
 "Injecting a valid span context and baggage in Jaeger form and extracting it yields a remote span context with the same trace id, span id and sampled decision and the same baggage. Extraction never raises and never puts an invalid span context in the context, whatever the headers contain.",
 ["inputs"],"every span context, baggage and header text","Arbitrary header texts and 128-bit ids.",
 [JG],[("extract/inject",JG+": JaegerPropagator.extract, inject, _extract_baggage, _parse_uber_trace_id_header")])
p("P06","Composite propagation runs every propagator, in order",
 "A composite propagator injects with every propagator and extracts by threading the context through every propagator in order, so the result is the composition of the parts; its fields are the union of theirs. The default getter finds a key's values as a list whatever the carrier holds and the default setter writes exactly the given key.",
 ["inputs","configurations"],"every number and order of propagators, every carrier","Any list of propagators and any carrier content.",
 [API+"propagators/composite.py",API+"propagators/textmap.py",API+"propagate/__init__.py"],[("composition",API+"propagators/composite.py: CompositePropagator"),("carrier access",API+"propagators/textmap.py: DefaultGetter, DefaultSetter")])
AG=SDK+"metrics/_internal/aggregation.py"
p("M01","Sums and last values are conserved across collections",
 "For a synchronous sum, the deltas collected add up to the total measured, every cumulative collection reports the total measured since the start, and the intervals reported are contiguous and never overlap; asynchronous sums report the last observed total (cumulative) or the change since the previous one (delta). A gauge reports the latest measured value, and no point is produced when nothing was measured where the temporality requires none.",
 ["histories","inputs"],"every sequence of measurements and collections, every value, every temporality combination",
 "Conservation is a property of the whole history of measurements and collections; tests replay a few.",
 [AG],[("sum",AG+": _SumAggregation.aggregate/collect"),("last value",AG+": _LastValueAggregation")],[("_value/_previous_value","current interval and running total",AG+": _SumAggregation")],["data points"])
p("M02","Explicit histograms place and conserve every measurement",
 "Each measurement is counted in exactly one bucket, the one whose half-open range (lower, upper] contains it, and the count, sum, minimum and maximum of a point are those of exactly the measurements of its interval. The bucket counts always add up to the count, there is one more bucket than boundaries, delta points partition the measurements and cumulative points cover all of them with contiguous intervals. A histogram has the boundaries of its view, else those advised for this instrument, else the default ones.",
 ["inputs","histories"],"every boundary list, every measurement value, every sequence of measurements and collections",
 "Bucket edges and conservation over arbitrary boundaries and histories cannot be sampled.",
 [AG],[("bucket search",AG+": _ExplicitBucketHistogramAggregation.aggregate"),("collection",AG+": _ExplicitBucketHistogramAggregation.collect")],[("_current_value/_previous_value","bucket counts of the interval / before it",AG)],["HistogramDataPoint"])
EH=SDK+"metrics/_internal/exponential_histogram/"
p("M03","Exponential histograms conserve counts and respect scale bounds",
 "Every finite measurement is counted exactly once, in the zero count or in the bucket of its sign whose range at the current scale contains its magnitude; rescaling and merging keep every count, each sign uses at most the configured number of buckets, and the scale stays within its limits and never grows within an interval. The count, sum, minimum and maximum of a point are those of exactly its measurements, and the mapping from values to bucket indexes is monotonic with buckets covering the whole floating-point range.",
 ["inputs","histories"],"every finite measurement magnitude and sign, every maximum size and scale, every history of measurements and collections",
 "Index arithmetic with wrap-around and rescaling has far too many states for examples.",
 [AG,EH+"buckets.py",EH+"mapping/__init__.py",EH+"mapping/exponent_mapping.py",EH+"mapping/logarithm_mapping.py"],[("aggregate/merge",AG+": _ExponentialBucketHistogramAggregation"),("bucket storage",EH+"buckets.py: Buckets"),("index mapping",EH+"mapping/*: map_to_index")])
VM=SDK+"metrics/_internal/_view_instrument_match.py"
p("M04","Measurements are routed to exactly the matching streams and series",
 "A measurement reaches every metric stream whose view matches its instrument, or the default stream when none does, and within a stream exactly the series whose attributes equal the measurement's attributes restricted to the view's attribute keys. Every matching condition given in a view must hold, a dropping view produces nothing, and different metric readers never influence each other's data.",
 ["inputs","configurations","histories"],"every set of views and criteria, every instrument, every attribute set, every number of readers",
 "The matching table is a cross product of criteria, instruments and attribute sets.",
 [VM,SDK+"metrics/_internal/metric_reader_storage.py",SDK+"metrics/_internal/view.py",SDK+"metrics/_internal/measurement_consumer.py"],[("matching",SDK+"metrics/_internal/view.py: View._match"),("routing",SDK+"metrics/_internal/metric_reader_storage.py: consume_measurement, _get_or_init_view_instrument_match"),("series",VM+": consume_measurement")])
p("M05","Instruments accept only valid names and meaningful measurements",
 "Counters and histograms never accept a negative measurement and never raise on one; other instruments accept any number. An instrument is created exactly when its name starts with a letter, continues with at most 254 letters, digits, '_', '.', '-' or '/' and its unit is ASCII of at most 63 characters, an identical later request returns the same instrument, and any accepted measurement is delivered once with its value, attributes and context.",
 ["inputs","histories"],"every name, unit and description text, every amount, every creation order",
 "Names and units are arbitrary strings; amounts arbitrary numbers.",
 [SDK+"metrics/_internal/instrument.py",SDK+"metrics/_internal/__init__.py",API+"metrics/_internal/instrument.py",API+"metrics/_internal/__init__.py"],[("validation",API+"metrics/_internal/instrument.py: _check_name_unit_description"),("measurement guards",SDK+"metrics/_internal/instrument.py: Counter.add, Histogram.record"),("registration",API+"metrics/_internal/__init__.py: Meter._register_instrument; "+SDK+"metrics/_internal/__init__.py: Meter.create_*")])
p("M06","Observable callbacks are each run once per collection and isolated",
 "Each collection runs every registered callback of every observable instrument exactly once with the collection's options and delivers each observation once, as a measurement of that instrument with its value and attributes. A callback that raises loses only its own observations, and generator callbacks are resumed once per collection until exhausted.",
 ["inputs","histories","fault_sequences"],"every number of instruments and callbacks, every pattern of callback failures, functions and generators",
 "Failure patterns over arbitrary callback sets.",
 [SDK+"metrics/_internal/instrument.py",SDK+"metrics/_internal/measurement_consumer.py"],[("callbacks",SDK+"metrics/_internal/instrument.py: _Asynchronous.callback"),("collection",SDK+"metrics/_internal/measurement_consumer.py: collect")])
EXR=SDK+"metrics/_internal/exemplar/"
p("M07","Exemplars are genuine, bounded and filtered",
 "A point carries an exemplar only for measurements the exemplar filter admits, never more than the reservoir's capacity, and each exemplar repeats the value, time and trace identity of one actual measurement of the interval and only those attributes the series dropped. Reading the exemplars empties the reservoir so none is reported twice, and a histogram's bucket reservoir keeps the last measurement of each bucket.",
 ["inputs","histories"],"every measurement history, reservoir size, random choice and filter",
 "Random selection and arbitrary histories.",
 [EXR+"exemplar_reservoir.py",EXR+"exemplar_filter.py",VM],[("reservoirs",EXR+"exemplar_reservoir.py"),("filters",EXR+"exemplar_filter.py")])
p("M08","Metric readers and provider: collection and shutdown life cycle",
 "Shutting a metrics provider down shuts every registered reader down exactly once and a second shutdown has no further effect; a failing reader does not keep the others from being shut down or flushed and the failure is reported. A reader may be registered with at most one provider, a shut-down periodic reader has delivered a final collection to its exporter before shutting it down, and every batch it exports runs with instrumentation suppressed.",
 ["histories","fault_sequences"],"every number of readers, every failure pattern, every order of calls","Failure patterns over arbitrary reader sets.",
 [SDK+"metrics/_internal/__init__.py",SDK+"metrics/_internal/export/__init__.py"],[("shutdown",SDK+"metrics/_internal/__init__.py: MeterProvider.shutdown/force_flush"),("periodic reader",SDK+"metrics/_internal/export/__init__.py: PeriodicExportingMetricReader")])
LG=SDK+"_logs/_internal/__init__.py"; LE=SDK+"_logs/_internal/export/__init__.py"
p("L01","Log records keep their content, trace identity and limits",
 "Every record logged through the logging bridge is emitted once with its formatted message, mapped severity, nanosecond timestamp, exception details, extra attributes and the current span's trace id, span id and flags. Severity mapping is total and monotonic over all logging levels, and attribute limits on log records are enforced like those of spans.",
 ["inputs","configurations"],"every level number, message, extra attribute set, exception and current span","Arbitrary records and levels.",
 [LG,API+"_logs/severity/__init__.py"],[("bridge",LG+": LoggingHandler._translate, emit"),("severity",API+"_logs/severity/__init__.py: std_to_otel"),("limits",LG+": LogRecord, LogLimits")])
p("L02","Log export pipelines deliver each record once, in order",
 "Every emitted record reaches every registered log processor once in registration order, and the exporter behind a simple or batching processor exactly once in emission order, in batches never larger than configured. Draining or flushing exports everything queued, exporter exceptions are contained, and nothing is accepted after shutdown.",
 ["inputs","histories","fault_sequences"],"every queue content, batch size, number of processors and exporter failure pattern","Unbounded queues and failure patterns.",
 [LG,LE],[("fan-out",LG+": SynchronousMultiLogRecordProcessor, ConcurrentMultiLogRecordProcessor"),("batching",LE+": BatchLogRecordProcessor")])
RS=SDK+"resources/__init__.py"
p("R01","Resource merging: the updating side wins, schema conflicts are safe",
 "Merging a resource with another keeps every attribute of both, with the other's value wherever both define a key, except that a service name of the other that is missing is filled by defaults at creation; neither input changes. The merged schema URL is the only non-empty one or the common one, and when they differ the merge yields the original resource unchanged.",
 ["inputs"],"every pair of attribute mappings and schema URLs","Arbitrary mappings.",
 [RS],[("merge",RS+": Resource.merge, Resource.create"),("detectors",RS+": get_aggregated_resources, OTELResourceDetector")])
p("R02","Configuration: explicit arguments beat environment beats defaults",
 "A limit or batching option given explicitly is used as given, otherwise the signal-specific and then the general environment value, otherwise the documented default; invalid or negative values are rejected with an error or replaced by the default as documented, never silently misread. Header lists from the environment are parsed into exactly their well-formed pairs and malformed pairs are skipped.",
 ["configurations","inputs"],"every combination of arguments and environment values, every text","Cross product of sources and arbitrary texts.",
 [T,LG,TE,LE,API+"util/re.py"],[("limits",T+": SpanLimits; "+LG+": LogLimits"),("batching defaults",TE+": BatchSpanProcessor._default_*; "+LE),("headers",API+"util/re.py: parse_env_headers")])
OC=EX+"otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/"
p("X01","OTLP encoding of spans and logs is complete and faithful",
 "Every span or log record of a batch appears exactly once in the encoded request, under its own resource and instrumentation scope and in order, with identical ids, parent, names, times, kind, status, flags, severity, body, events, links and dropped counts. Every attribute value keeps its type and content, and an attribute that cannot be encoded is skipped without losing anything else.",
 ["inputs"],"every batch of spans and log records, every attribute value","Arbitrary batches and values; tests encode one fixed batch.",
 [OC+"__init__.py",OC+"trace_encoder/__init__.py",OC+"_log_encoder/__init__.py"],[("value encoding",OC+"__init__.py: _encode_value, _encode_attributes"),("grouping",OC+"trace_encoder: _encode_resource_spans; _log_encoder: _encode_resource_logs")])
p("X02","OTLP export retries only transient errors and gives up in bounded time",
 "An export call returns success exactly when the collector accepted the data, sends nothing more after acceptance or a non-transient failure, and retries transient failures only, with the same data, after waits that double each time (or that the collector names), up to a bounded number of attempts. After shutdown every export fails without contacting the collector, and shutting down again changes nothing.",
 ["fault_sequences","histories"],"every sequence of collector responses","Response sequences are unbounded; tests try one or two.",
 [EX+"otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py",EX+"otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py",EX+"otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py",EX+"otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py",OC+"__init__.py"],[("retry loops","OTLPExporterMixin._export; _export_serialized_spans; OTLPMetricExporter.export; OTLPLogExporter.export"),("backoff",OC+"__init__.py: _create_exp_backoff_generator")])
p("X03","Prometheus exposition: valid names, cumulative buckets, no lost series",
 "Every exported metric and label name uses only characters Prometheus allows, label values are strings that represent the attribute values, and every data point appears as a series with its labels and value: monotonic sums as counters, gauges and non-monotonic sums as gauges, histograms with cumulative bucket counts ending in +Inf. The +Inf bucket equals the point's total count.",
 ["inputs"],"every metric name, unit, attribute set and data point","Arbitrary names and values.",
 [EX+"prometheus/src/opentelemetry/exporter/prometheus/__init__.py",EX+"prometheus/src/opentelemetry/exporter/prometheus/_mapping.py"],[("names",EX+"prometheus _mapping.py: sanitize_*, map_unit"),("translation","_CustomCollector._translate_to_prometheus, _convert_buckets")])
p("X04","Zipkin encoding keeps identity, timing and tags within limits",
 "Each span is encoded once with its trace id, id, parent id, name, kind, and its start and duration in microseconds rounded to nearest; a missing parent is omitted. Tags repeat every representable attribute, resource attribute, scope, error status and dropped count, with no value longer than the configured maximum, and events become annotations in order.",
 ["inputs","configurations"],"every span and tag length limit","Arbitrary spans and limits.",
 [EX+"zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py",EX+"zipkin-json/src/opentelemetry/exporter/zipkin/json/v2/__init__.py",EX+"zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py"],[("encoding","Encoder._extract_tags_from_span, JsonV2Encoder._encode_span, JsonV1Encoder._encode_span")])
p("X05","OTLP encoding of metrics is complete and faithful",
 "Every data point of every metric appears exactly once in the encoded request, under its own resource, scope and metric, with its attributes, times, value (integer or floating), count, sum, minimum, maximum, buckets, scale and exemplars unchanged, and with the metric's temporality and monotonicity. The exporter's temporality preference selects the documented temporality for each instrument kind, and splitting into batches neither loses nor duplicates a point and respects the maximum size.",
 ["inputs","configurations"],"every metrics payload, every preference setting, every batch size","Arbitrary payloads; tests encode fixed examples.",
 [OC+"metrics_encoder/__init__.py",EX+"otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py"],[("encoding",OC+"metrics_encoder: _encode_metric, _encode_exemplars, OTLPMetricExporterMixin"),("splitting","OTLPMetricExporter._split_metrics_data")])
SH="shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"
p("S01","OpenTracing shim preserves tracing semantics",
 "A span started through the shim is a child of the given parent, else of the first usable reference, else of the active span unless ignored, with the given tags, links and start time converted from seconds to nanoseconds; activating a scope makes its span current and closing it restores the previous one and ends the span when so requested. Operations on the shim act on the underlying span, and baggage set on one span shim never leaks into a context created earlier.",
 ["inputs","histories"],"every combination of parent, references, active span and options","Combinations of parent sources and options.",
 [SH,"shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/util.py"],[("shim","TracerShim.start_span, start_active_span, ScopeShim, SpanShim")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
