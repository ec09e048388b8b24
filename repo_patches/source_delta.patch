From 8d7a3a2e08db1caae7648894386a4ecc51993a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 01/35] fix: inject nothing for an invalid span context

The propagators only recognised the INVALID_SPAN_CONTEXT constant, so a
context with, say, a valid trace id and a zero span id was written to the
carrier.
---
 .../src/opentelemetry/trace/propagation/tracecontext.py       | 2 +-
 .../src/opentelemetry/propagators/b3/__init__.py              | 4 ++--
 .../src/opentelemetry/propagators/jaeger/__init__.py          | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
index af16a08..12180bc 100644
--- a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
+++ b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
@@ -98,7 +98,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
         """
         span = trace.get_current_span(context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
         traceparent_string = f"00-{format_trace_id(span_context.trace_id)}-{format_span_id(span_context.span_id)}-{span_context.trace_flags:02x}"
         setter.set(carrier, self._TRACEPARENT_HEADER_NAME, traceparent_string)
diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 1bbc361..875e9cf 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -136,7 +136,7 @@ class B3MultiFormat(TextMapPropagator):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
@@ -175,7 +175,7 @@ class B3SingleFormat(B3MultiFormat):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 6b6eb8f..0889951 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -77,7 +77,7 @@ class JaegerPropagator(TextMapPropagator):
     ) -> None:
         span = trace.get_current_span(context=context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         # Non-recording spans do not have a parent
-- 
2.43.0


From a77c171393ec5808e6939807bbfa5d6823b2466b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 02/35] fix: refuse a traceparent header with a trailing
 newline

`$` also matches before a newline at the end of the text.
---
 .../src/opentelemetry/trace/propagation/tracecontext.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
index 12180bc..fd7afdd 100644
--- a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
+++ b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
@@ -29,7 +29,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
     _TRACESTATE_HEADER_NAME = "tracestate"
     _TRACEPARENT_HEADER_FORMAT = (
         "^[ \t]*([0-9a-f]{2})-([0-9a-f]{32})-([0-9a-f]{16})-([0-9a-f]{2})"
-        + "(-.*)?[ \t]*$"
+        + "(-.*)?[ \t]*\\Z"
     )
     _TRACEPARENT_HEADER_FORMAT_RE = re.compile(_TRACEPARENT_HEADER_FORMAT)
 
-- 
2.43.0


From 65be5e31c2159af8da8439044c6a45d87a05684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 03/35] fix: keep a full trace state when updating a key it
 does not have

The 33 entries made TraceState drop all of them.
---
 opentelemetry-api/src/opentelemetry/trace/span.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opentelemetry-api/src/opentelemetry/trace/span.py b/opentelemetry-api/src/opentelemetry/trace/span.py
index 6e54dfc..5acb807 100644
--- a/opentelemetry-api/src/opentelemetry/trace/span.py
+++ b/opentelemetry-api/src/opentelemetry/trace/span.py
@@ -329,6 +329,13 @@ class TraceState(typing.Mapping[str, str]):
                 "Invalid key/value pair (%s, %s) found.", key, value
             )
             return self
+        # There can be a maximum of 32 pairs
+        if (
+            key not in self._dict
+            and len(self) >= _TRACECONTEXT_MAXIMUM_TRACESTATE_KEYS
+        ):
+            _logger.warning("There can't be more 32 key/value pairs.")
+            return self
         prev_state = self._dict.copy()
         prev_state.pop(key, None)
         new_state = [(key, value), *prev_state.items()]
-- 
2.43.0


From a853a573e67bd757ad3effed81cb5b2a1cf1f24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 04/35] fix: keep encoded whitespace of baggage names and
 values

The whitespace around a list member is not part of it, but whitespace that
was percent-encoded is.
---
 .../src/opentelemetry/baggage/propagation/__init__.py         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
index 49fb378..2923ff4 100644
--- a/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/baggage/propagation/__init__.py
@@ -93,8 +93,8 @@ class W3CBaggagePropagator(textmap.TextMapPropagator):
                 _logger.warning("Invalid baggage entry: `%s`", entry)
                 continue
 
-            name = unquote_plus(name).strip()
-            value = unquote_plus(value).strip()
+            name = unquote_plus(name.strip())
+            value = unquote_plus(value.strip())
 
             context = set_baggage(
                 name,
-- 
2.43.0


From 7fa7ddac6d4dd5cdc974f799c31a3fb0a617021b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 05/35] fix: refuse B3 ids that are zero or not hexadecimal

The ids were compared with the invalid id as text, and \d matches every
Unicode digit.
---
 .../src/opentelemetry/propagators/b3/__init__.py         | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 875e9cf..fa5f5bc 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -43,8 +43,8 @@ class B3MultiFormat(TextMapPropagator):
     SAMPLED_KEY = "x-b3-sampled"
     FLAGS_KEY = "x-b3-flags"
     _SAMPLE_PROPAGATE_VALUES = {"1", "True", "true", "d"}
-    _trace_id_regex = re_compile(r"[\da-fA-F]{16}|[\da-fA-F]{32}")
-    _span_id_regex = re_compile(r"[\da-fA-F]{16}")
+    _trace_id_regex = re_compile(r"[0-9a-fA-F]{16}|[0-9a-fA-F]{32}")
+    _span_id_regex = re_compile(r"[0-9a-fA-F]{16}")
 
     def extract(
         self,
@@ -105,6 +105,11 @@ class B3MultiFormat(TextMapPropagator):
 
         trace_id = int(trace_id, 16)
         span_id = int(span_id, 16)
+        if (
+            trace_id == trace.INVALID_TRACE_ID
+            or span_id == trace.INVALID_SPAN_ID
+        ):
+            return context
         options = 0
         # The b3 spec provides no defined behavior for both sample and
         # flag values set. Since the setting of at least one implies
-- 
2.43.0


From 0eedef6e7937d0bb9e0d10fb788cf6f462b3a44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 06/35] fix: refuse Jaeger ids that are negative or too large

---
 .../propagators/jaeger/__init__.py            | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 0889951..9036905 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -53,21 +53,18 @@ class JaegerPropagator(TextMapPropagator):
         context = self._extract_baggage(getter, carrier, context)
 
         trace_id, span_id, flags = _parse_trace_id_header(header)
-        if (
-            trace_id == trace.INVALID_TRACE_ID
-            or span_id == trace.INVALID_SPAN_ID
-        ):
+        span_context = trace.SpanContext(
+            trace_id=trace_id,
+            span_id=span_id,
+            is_remote=True,
+            trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
+        )
+        if not span_context.is_valid:
             return context
 
-        span = trace.NonRecordingSpan(
-            trace.SpanContext(
-                trace_id=trace_id,
-                span_id=span_id,
-                is_remote=True,
-                trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
-            )
+        return trace.set_span_in_context(
+            trace.NonRecordingSpan(span_context), context
         )
-        return trace.set_span_in_context(span, context)
 
     def inject(
         self,
-- 
2.43.0


From 0babc264bf778fdca353023455d2338b799b5266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:14 +0000
Subject: [PATCH 07/35] fix: extract Jaeger baggage as it was injected

Only the leading prefix of a header name is removed, encoded whitespace is
kept, and a header without a value is skipped instead of failing.
---
 .../src/opentelemetry/propagators/jaeger/__init__.py        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 9036905..5c809f2 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -117,9 +117,11 @@ class JaegerPropagator(TextMapPropagator):
         ]
         for key in baggage_keys:
             value = _extract_first_element(getter.get(carrier, key))
+            if value is None:
+                continue
             context = baggage.set_baggage(
-                key.replace(self.BAGGAGE_PREFIX, ""),
-                urllib.parse.unquote(value).strip(),
+                key[len(self.BAGGAGE_PREFIX) :],
+                urllib.parse.unquote(value.strip()),
                 context=context,
             )
         return context
-- 
2.43.0


From 037623137a8e782b221ba31abdeb50ac43799131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 08/35] fix: keep a view's histogram boundaries independent
 between instruments

ExplicitBucketHistogramAggregation without boundaries stored the advisory
boundaries of the first instrument it was used for and applied them to
every later one, and failed for instruments that have no advisory.
---
 .../sdk/metrics/_internal/aggregation.py          | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 8443d95..7280295 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1387,18 +1387,21 @@ class ExplicitBucketHistogramAggregation(Aggregation):
                 AggregationTemporality.CUMULATIVE
             )
 
-        if self._boundaries is None:
-            self._boundaries = (
-                instrument._advisory.explicit_bucket_boundaries
-                or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
-            )
+        boundaries = self._boundaries
+        if boundaries is None:
+            # Only histograms have advisory boundaries. They must not be kept:
+            # the same view may match several instruments.
+            advisory = getattr(instrument, "_advisory", None)
+            boundaries = (
+                advisory and advisory.explicit_bucket_boundaries
+            ) or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
 
         return _ExplicitBucketHistogramAggregation(
             attributes,
             instrument_aggregation_temporality,
             start_time_unix_nano,
             reservoir_factory(_ExplicitBucketHistogramAggregation),
-            self._boundaries,
+            boundaries,
             self._record_min_max,
         )
 
-- 
2.43.0


From ab1d1bd9b81e23eb68c37a8416549cafc4650215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:39 +0000
Subject: [PATCH 09/35] fix: merge exponential histograms when no earlier value
 had the same sign

Cumulative collection raised "Incorrect merge scale" (or left the new
buckets positioned around index 0) when the previous collections had only
zeros or values of the other sign.
---
 .../sdk/metrics/_internal/aggregation.py              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 7280295..fad9125 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1145,16 +1145,19 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
             if current_bucket == 0:
                 continue
 
-            # Not considering the case where len(previous_buckets) == 0. This
-            # would not happen because self._previous_point is only assigned to
-            # an ExponentialHistogramDataPoint object if self._count != 0.
-
             current_index = current_buckets.index_base + current_bucket_index
             if current_index > current_buckets.index_end:
                 current_index -= len(current_buckets.counts)
 
             index = current_index >> current_change
 
+            if len(previous_buckets) == 0:
+                # The previous collections had no values of this sign, so
+                # these buckets have no position yet.
+                previous_buckets.index_start = index
+                previous_buckets.index_end = index
+                previous_buckets.index_base = index
+
             if index < previous_buckets.index_start:
                 span = previous_buckets.index_end - index
 
-- 
2.43.0


From 83bca4fc5b8323f20c3a8f97690c5f76420362c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:45 +0000
Subject: [PATCH 10/35] fix: do not keep a mapping whose scale was refused

The second request for a scale outside the limits returned an
uninitialised mapping instead of being refused like the first.
---
 .../_internal/exponential_histogram/mapping/__init__.py     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py
index 387b1d1..c8af3fb 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exponential_histogram/mapping/__init__.py
@@ -29,8 +29,10 @@ class Mapping(ABC):
             # classes having the same instance of cls._mappings and
             # cls._mappings_lock.
             if scale not in cls._mappings:
-                cls._mappings[scale] = super().__new__(cls)
-                cls._mappings[scale]._init(scale)
+                # Only keep the mapping if the scale is valid.
+                mapping = super().__new__(cls)
+                mapping._init(scale)
+                cls._mappings[scale] = mapping
 
         return cls._mappings[scale]
 
-- 
2.43.0


From 92cdc14619a9a84900941519eaa52500c2535ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:41 +0000
Subject: [PATCH 11/35] fix: keep a series' attributes apart from the caller's
 dictionary and lists

The attributes given with a measurement were kept as they are, so changing
the dictionary afterwards changed the attributes of the series, and a list
among them made recording raise (unhashable type).
---
 .../_internal/_view_instrument_match.py       | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index be81d70..7fa360f 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -91,16 +91,15 @@ class _ViewInstrumentMatch:
     def consume_measurement(
         self, measurement: Measurement, should_sample_exemplar: bool = True
     ) -> None:
-        if self._view._attribute_keys is not None:
-            attributes = {}
-
-            for key, value in (measurement.attributes or {}).items():
-                if key in self._view._attribute_keys:
-                    attributes[key] = value
-        elif measurement.attributes is not None:
-            attributes = measurement.attributes
-        else:
-            attributes = {}
+        # A copy, since the series is identified by these attributes even if
+        # the caller changes its dictionary or lists afterwards. Lists are
+        # turned into tuples to be hashable.
+        attributes = {
+            key: tuple(value) if isinstance(value, list) else value
+            for key, value in (measurement.attributes or {}).items()
+            if self._view._attribute_keys is None
+            or key in self._view._attribute_keys
+        }
 
         aggr_key = frozenset(attributes.items())
 
-- 
2.43.0


From f57f149faaa2d8e65523a224450816aee7c400c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 12/35] fix: create an instrument once, whatever requests came
 before or meanwhile

A request that arrived while another thread was creating the same
instrument, or after one for the same name with spaces around it was
refused, raised a KeyError.
---
 .../sdk/metrics/_internal/__init__.py         | 101 +++++++++++++-----
 1 file changed, 74 insertions(+), 27 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index faa0959..98cd35a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -105,7 +105,11 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # missing while another thread is creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[
+                        status.instrument_id
+                    ]
 
         instrument = _Counter(
             name,
@@ -116,8 +120,9 @@ class Meter(APIMeter):
         )
 
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_up_down_counter(
         self, name, unit="", description=""
@@ -139,7 +144,11 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # missing while another thread is creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[
+                        status.instrument_id
+                    ]
 
         instrument = _UpDownCounter(
             name,
@@ -150,8 +159,9 @@ class Meter(APIMeter):
         )
 
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_observable_counter(
         self,
@@ -177,7 +187,11 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # missing while another thread is creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[
+                        status.instrument_id
+                    ]
 
         instrument = _ObservableCounter(
             name,
@@ -188,11 +202,16 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            registered = self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+
+        if registered is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return registered
 
     def create_histogram(
         self,
@@ -244,7 +263,11 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # missing while another thread is creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[
+                        status.instrument_id
+                    ]
 
         instrument = _Histogram(
             name,
@@ -255,8 +278,9 @@ class Meter(APIMeter):
             explicit_bucket_boundaries_advisory,
         )
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_gauge(self, name, unit="", description="") -> APIGauge:
         status = self._register_instrument(name, _Gauge, unit, description)
@@ -274,7 +298,11 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # missing while another thread is creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[
+                        status.instrument_id
+                    ]
 
         instrument = _Gauge(
             name,
@@ -285,8 +313,9 @@ class Meter(APIMeter):
         )
 
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            return self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
 
     def create_observable_gauge(
         self, name, callbacks=None, unit="", description=""
@@ -308,7 +337,11 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # missing while another thread is creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[
+                        status.instrument_id
+                    ]
 
         instrument = _ObservableGauge(
             name,
@@ -319,11 +352,16 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            registered = self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+
+        if registered is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return registered
 
     def create_observable_up_down_counter(
         self, name, callbacks=None, unit="", description=""
@@ -345,7 +383,11 @@ class Meter(APIMeter):
             )
         if status.already_registered:
             with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
+                # missing while another thread is creating it
+                if status.instrument_id in self._instrument_id_instrument:
+                    return self._instrument_id_instrument[
+                        status.instrument_id
+                    ]
 
         instrument = _ObservableUpDownCounter(
             name,
@@ -356,11 +398,16 @@ class Meter(APIMeter):
             description,
         )
 
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
-            return instrument
+            registered = self._instrument_id_instrument.setdefault(
+                status.instrument_id, instrument
+            )
+
+        if registered is instrument:
+            self._measurement_consumer.register_asynchronous_instrument(
+                instrument
+            )
+        return registered
 
 
 def _get_exemplar_filter(exemplar_filter: str) -> ExemplarFilter:
-- 
2.43.0


From 0a52687153e3e953ef0cd9c191f8c61208aab427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 13/35] fix: tell instruments apart whose units or descriptions
 contain commas

A counter with unit "a,b" and description "c" was returned for a request
with unit "a" and description "b,c".
---
 .../src/opentelemetry/metrics/_internal/__init__.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 2319d8d..1e19819 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -252,8 +252,9 @@ class Meter(ABC):
         the registered instrument advisory.
         """
 
-        instrument_id = ",".join(
-            [name.strip().lower(), type_.__name__, unit, description]
+        # units and descriptions may contain any separator
+        instrument_id = repr(
+            (name.strip().lower(), type_.__name__, unit, description)
         )
 
         already_registered = False
-- 
2.43.0


From 01a3a4a1193c3139b2c8f7fd958fb9077f57bf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 14/35] fix: keep an empty context given with a measurement

An empty context is false, so it was replaced with the current one.
---
 .../sdk/metrics/_internal/instrument.py            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index b01578f..9639c90 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -142,7 +142,11 @@ class _Asynchronous:
                         api_measurement.value,
                         time_unix_nano=time_ns(),
                         instrument=self,
-                        context=api_measurement.context or get_current(),
+                        context=(
+                            api_measurement.context
+                            if api_measurement.context is not None
+                            else get_current()
+                        ),
                         attributes=api_measurement.attributes,
                     )
             except Exception:  # pylint: disable=broad-exception-caught
@@ -174,7 +178,7 @@ class Counter(_Synchronous, APICounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -198,7 +202,7 @@ class UpDownCounter(_Synchronous, APIUpDownCounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -266,7 +270,7 @@ class Histogram(_Synchronous, APIHistogram):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -290,7 +294,7 @@ class Gauge(_Synchronous, APIGauge):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
-- 
2.43.0


From 72b4f66fe649b9094cbbe88ec3c2ea57a00cb34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 15/35] fix: accept generator callbacks that yield nothing

---
 .../src/opentelemetry/sdk/metrics/_internal/instrument.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index 9639c90..2d40416 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -116,8 +116,8 @@ class _Asynchronous:
         if callbacks is not None:
             for callback in callbacks:
                 if isinstance(callback, Generator):
-                    # advance generator to it's first yield
-                    next(callback)
+                    # advance generator to it's first yield, if it has any
+                    next(callback, None)
 
                     def inner(
                         options: CallbackOptions,
-- 
2.43.0


From c1d4326aaa89b7786fab7d460471ccdfb9d4c330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 16/35] fix: do not attribute an exemplar to the trace of the
 measurement it replaced

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py      | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 22d1ee9..641f60b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -114,6 +114,10 @@ class ExemplarBucket:
             span_context = span.get_span_context()
             self.__span_id = span_context.span_id
             self.__trace_id = span_context.trace_id
+        else:
+            # do not keep those of the measurement that is replaced
+            self.__span_id = None
+            self.__trace_id = None
 
         self.__offered = True
 
-- 
2.43.0


From e6787a2781a39e9889594f99cf00b57186be4c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:36 +0000
Subject: [PATCH 17/35] fix: keep an exemplar's attributes apart from the
 caller's dictionary

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 641f60b..9910fa0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -108,7 +108,10 @@ class ExemplarBucket:
         """
         self.__value = value
         self.__time_unix_nano = time_unix_nano
-        self.__attributes = attributes
+        # the caller may change its attributes before they are collected
+        self.__attributes = (
+            dict(attributes) if isinstance(attributes, Mapping) else attributes
+        )
         span = trace.get_current_span(context)
         if span != INVALID_SPAN:
             span_context = span.get_span_context()
-- 
2.43.0


From ce66b94e0b8b6b4757fa18781520df12e2430b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:49 +0000
Subject: [PATCH 18/35] fix: keep the periodic reader running when a collection
 fails

---
 .../src/opentelemetry/sdk/metrics/_internal/export/__init__.py  | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 52c6833..e954190 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -528,6 +528,8 @@ class PeriodicExportingMetricReader(MetricReader):
                     interval_secs,
                     exc_info=True,
                 )
+            except Exception:  # pylint: disable=broad-exception-caught
+                _logger.exception("Exception while collecting metrics")
         # one last collection below before shutting down completely
         try:
             self.collect(timeout_millis=self._export_interval_millis)
-- 
2.43.0


From d18640e66cf5510517ecd6b4b8a3cb8b879ca37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 19/35] fix: collect once more when a reader without a timer is
 shut down

---
 .../sdk/metrics/_internal/export/__init__.py              | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index e954190..edfcfe4 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -531,8 +531,11 @@ class PeriodicExportingMetricReader(MetricReader):
             except Exception:  # pylint: disable=broad-exception-caught
                 _logger.exception("Exception while collecting metrics")
         # one last collection below before shutting down completely
+        self._final_collect(self._export_interval_millis)
+
+    def _final_collect(self, timeout_millis: float) -> None:
         try:
-            self.collect(timeout_millis=self._export_interval_millis)
+            self.collect(timeout_millis=timeout_millis)
         except MetricsTimeoutError:
             _logger.warning(
                 "Metric collection timed out.",
@@ -570,6 +573,9 @@ class PeriodicExportingMetricReader(MetricReader):
         self._shutdown_event.set()
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
+        else:
+            # without periodic collection there is no thread to do it
+            self._final_collect((deadline_ns - time_ns()) / 10**6)
         self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
-- 
2.43.0


From 41c9f9cddea0295dc3d49f61cdc6383be99e9a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:29 +0000
Subject: [PATCH 20/35] fix: count the dropped attributes of a log record that
 kept none

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 302ca1e..a64240d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -250,7 +250,8 @@ class LogRecord(APILogRecord):
 
     @property
     def dropped_attributes(self) -> int:
-        if self.attributes:
+        # none may be left because all were dropped
+        if isinstance(self.attributes, BoundedAttributes):
             return self.attributes.dropped
         return 0
 
-- 
2.43.0


From a286ef499b97388cc5d6ae27f8a4d8ed42aa4be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:14 +0000
Subject: [PATCH 21/35] fix: name the service of a created resource also when
 schema URLs differ

---
 opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 752b906..db9818b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -233,7 +233,9 @@ class Resource:
             if process_executable_name:
                 default_service_name += ":" + process_executable_name
             resource = resource.merge(
-                Resource({SERVICE_NAME: default_service_name}, schema_url)
+                Resource(
+                    {SERVICE_NAME: default_service_name}, resource.schema_url
+                )
             )
         return resource
 
-- 
2.43.0


From 79833c2d77e6e4b21f01a7a3c0243d26d98f9778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 22/35] fix: encode log records without trace identity or
 severity

LogRecord allows its trace id, span id, trace flags and severity number to be
None, but encoding such a record raised and lost the whole batch.
---
 .../proto/common/_internal/_log_encoder/__init__.py  | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 9cd4484..2f23a3d 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -40,12 +40,12 @@ def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
 def _encode_log(log_data: LogData) -> PB2LogRecord:
     span_id = (
         None
-        if log_data.log_record.span_id == 0
+        if not log_data.log_record.span_id
         else _encode_span_id(log_data.log_record.span_id)
     )
     trace_id = (
         None
-        if log_data.log_record.trace_id == 0
+        if not log_data.log_record.trace_id
         else _encode_trace_id(log_data.log_record.trace_id)
     )
     body = log_data.log_record.body
@@ -54,12 +54,16 @@ def _encode_log(log_data: LogData) -> PB2LogRecord:
         observed_time_unix_nano=log_data.log_record.observed_timestamp,
         span_id=span_id,
         trace_id=trace_id,
-        flags=int(log_data.log_record.trace_flags),
+        flags=int(log_data.log_record.trace_flags or 0),
         body=_encode_value(body, allow_null=True),
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-        severity_number=log_data.log_record.severity_number.value,
+        severity_number=(
+            None
+            if log_data.log_record.severity_number is None
+            else log_data.log_record.severity_number.value
+        ),
     )
 
 
-- 
2.43.0


From 011663f5d8a113dd9fd2b19c64a2d1f27a25e221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:54 +0000
Subject: [PATCH 23/35] fix: keep the batch when the body of a log record
 cannot be encoded

A body of a type the protocol has no value for, which LoggingHandler passes
through, made encode_logs raise, so that every other record of the batch was
lost too.
---
 .../common/_internal/_log_encoder/__init__.py   | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 2f23a3d..d54a95d 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -11,8 +11,9 @@
 # WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 # See the License for the specific language governing permissions and
 # limitations under the License.
+import logging
 from collections import defaultdict
-from typing import List, Sequence
+from typing import Any, List, Optional, Sequence
 
 from opentelemetry.exporter.otlp.proto.common._internal import (
     _encode_attributes,
@@ -25,6 +26,7 @@ from opentelemetry.exporter.otlp.proto.common._internal import (
 from opentelemetry.proto.collector.logs.v1.logs_service_pb2 import (
     ExportLogsServiceRequest,
 )
+from opentelemetry.proto.common.v1.common_pb2 import AnyValue as PB2AnyValue
 from opentelemetry.proto.logs.v1.logs_pb2 import LogRecord as PB2LogRecord
 from opentelemetry.proto.logs.v1.logs_pb2 import (
     ResourceLogs,
@@ -32,11 +34,22 @@ from opentelemetry.proto.logs.v1.logs_pb2 import (
 )
 from opentelemetry.sdk._logs import LogData
 
+_logger = logging.getLogger(__name__)
+
 
 def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
     return ExportLogsServiceRequest(resource_logs=_encode_resource_logs(batch))
 
 
+def _encode_body(body: Any) -> Optional[PB2AnyValue]:
+    # pylint: disable=broad-exception-caught
+    try:
+        return _encode_value(body, allow_null=True)
+    except Exception as error:
+        _logger.exception("Failed to encode log body: %s", error)
+        return None
+
+
 def _encode_log(log_data: LogData) -> PB2LogRecord:
     span_id = (
         None
@@ -55,7 +68,7 @@ def _encode_log(log_data: LogData) -> PB2LogRecord:
         span_id=span_id,
         trace_id=trace_id,
         flags=int(log_data.log_record.trace_flags or 0),
-        body=_encode_value(body, allow_null=True),
+        body=_encode_body(body),
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-- 
2.43.0


From 74aee68f3e98941e83d624682423efc1f421d7fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 24/35] fix: release the export lock in shutdown only when it
 was acquired

When an export held the lock for longer than the timeout, for example while
waiting to retry, shutdown released the lock it did not hold and that export
then raised RuntimeError.
---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py   | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 4be75c5..3a0596c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -357,10 +357,11 @@ class OTLPExporterMixin(
             logger.warning("Exporter already shutdown, ignoring call")
             return
         # wait for the last export if any
-        self._export_lock.acquire(timeout=timeout_millis / 1e3)
+        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)
         self._shutdown = True
         self._channel.close()
-        self._export_lock.release()
+        if acquired:
+            self._export_lock.release()
 
     @property
     @abstractmethod
-- 
2.43.0


From fa73dc980d5a0679dbaf8b00e394b6cc5a00e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 25/35] fix: do not export over a channel closed while waiting
 for the lock

An export that passed the shutdown check before waiting for the export lock
used the closed channel, which raises ValueError, instead of failing.
---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 3a0596c..f49d685 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -294,6 +294,10 @@ class OTLPExporterMixin(
                 return self._result.FAILURE
 
             with self._export_lock:
+                # shut down while waiting for the lock
+                if self._shutdown:
+                    return self._result.FAILURE
+
                 try:
                     self._client.Export(
                         request=self._translate_data(data),
-- 
2.43.0


From 91bf77c08c7625941688d380a488726304d37949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:10 +0000
Subject: [PATCH 26/35] fix: shut down the OTLP HTTP metric exporter

Unlike the span and log exporters, it went on contacting the collector after
shutdown and never closed its session.
---
 .../otlp/proto/http/metric_exporter/__init__.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 00f429e..ac1fb7b 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -164,6 +164,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         self._common_configuration(
             preferred_temporality, preferred_aggregation
         )
+        self._shutdown = False
 
     def _export(self, serialized_data: bytes):
         data = serialized_data
@@ -197,6 +198,12 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         timeout_millis: float = 10_000,
         **kwargs,
     ) -> MetricExportResult:
+        # After the call to Shutdown subsequent calls to Export are
+        # not allowed and should return a Failure result.
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring batch")
+            return MetricExportResult.FAILURE
+
         serialized_data = encode_metrics(metrics_data)
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
@@ -226,7 +233,11 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         return MetricExportResult.FAILURE
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
-        pass
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring call")
+            return
+        self._session.close()
+        self._shutdown = True
 
     @property
     def _exporting(self) -> str:
-- 
2.43.0


From dd78e9d419ac594472bb3c14b596ff1c60906f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:51 +0000
Subject: [PATCH 27/35] fix: Prometheus exporter joins the values of attributes
 whose names become the same label

---
 .../exporter/prometheus/__init__.py           | 27 +++++++++++--------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 475cfb1..a522bc2 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -235,12 +235,9 @@ class _CustomCollector:
             metric_unit = map_unit(metric.unit)
 
             for number_data_point in metric.data.data_points:
-                label_keys = []
-                label_values = []
-
-                for key, value in sorted(number_data_point.attributes.items()):
-                    label_keys.append(sanitize_attribute(key))
-                    label_values.append(self._check_value(value))
+                labels = self._labels(number_data_point.attributes)
+                label_keys = list(labels.keys())
+                label_values = list(labels.values())
 
                 per_metric_family_ids.append(
                     "|".join(
@@ -370,15 +367,23 @@ class _CustomCollector:
             return dumps(value, default=str)
         return str(value)
 
+    def _labels(self, attributes: Attributes) -> Dict[str, str]:
+        """Sanitize the attribute names according to Prometheus rule. The values of
+        attributes that end up with the same name are joined with ";", in the
+        order of the original names.
+        """
+        labels = {}
+        for key, value in sorted(attributes.items()):
+            name = sanitize_attribute(key)
+            text = self._check_value(value)
+            labels[name] = f"{labels[name]};{text}" if name in labels else text
+        return labels
+
     def _create_info_metric(
         self, name: str, description: str, attributes: Dict[str, str]
     ) -> InfoMetricFamily:
         """Create an Info Metric Family with list of attributes"""
-        # sanitize the attribute names according to Prometheus rule
-        attributes = {
-            sanitize_attribute(key): self._check_value(value)
-            for key, value in attributes.items()
-        }
+        attributes = self._labels(attributes)
         info = InfoMetricFamily(name, description, labels=attributes)
         info.add_metric(labels=list(attributes.keys()), value=attributes)
         return info
-- 
2.43.0


From 206e14c29271b6f71bc4dec8789432bb7ec66883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:51 +0000
Subject: [PATCH 28/35] fix: Prometheus exporter skips unsupported metrics
 without losing the whole collection

---
 .../src/opentelemetry/exporter/prometheus/__init__.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index a522bc2..ddd85a8 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -224,6 +224,12 @@ class _CustomCollector:
                     metrics.append(metric)
 
         for metric in metrics:
+            if not isinstance(metric.data, (Sum, Gauge, Histogram)):
+                _logger.warning(
+                    "Unsupported metric data. %s", type(metric.data)
+                )
+                continue
+
             label_values_data_points = []
             label_keys_data_points = []
             values = []
@@ -355,10 +361,6 @@ class _CustomCollector:
                         ),
                         sum_value=value["sum"],
                     )
-                else:
-                    _logger.warning(
-                        "Unsupported metric data. %s", type(metric.data)
-                    )
 
     # pylint: disable=no-self-use
     def _check_value(self, value: Union[int, float, str, Sequence]) -> str:
-- 
2.43.0


From 5d797762d93d642fa2ec827bc425ed1e0f1745a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:51 +0000
Subject: [PATCH 29/35] fix: Zipkin V1 encoder accepts the default of no tag
 length limit

---
 .../src/opentelemetry/exporter/zipkin/json/v1/__init__.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
index c44a2dd..5014c21 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
@@ -27,7 +27,11 @@ class V1Encoder(Encoder):
     ) -> List[Dict]:
         binary_annotations = []
         for tag_key, tag_value in self._extract_tags_from_span(span).items():
-            if isinstance(tag_value, str) and self.max_tag_value_length > 0:
+            if (
+                isinstance(tag_value, str)
+                and self.max_tag_value_length is not None
+                and self.max_tag_value_length > 0
+            ):
                 tag_value = tag_value[: self.max_tag_value_length]
             binary_annotations.append(
                 {
-- 
2.43.0


From b2e351fc963b3484bfb6cc732e88328e7f8a0914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 30/35] fix: Zipkin encoder omits the version of a scope
 without one instead of sending null

---
 .../exporter/zipkin/encoder/__init__.py            | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
index bb90daa..80dced3 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
@@ -199,12 +199,18 @@ class Encoder(abc.ABC):
         if span.resource:
             tags.update(self._extract_tags_from_dict(span.resource.attributes))
         if span.instrumentation_scope is not None:
+            scope_tags = {
+                NAME_KEY: span.instrumentation_scope.name,
+                VERSION_KEY: span.instrumentation_scope.version,
+                _SCOPE_NAME_KEY: span.instrumentation_scope.name,
+                _SCOPE_VERSION_KEY: span.instrumentation_scope.version,
+            }
+            # a scope may have no version, and a tag must not be null
             tags.update(
                 {
-                    NAME_KEY: span.instrumentation_scope.name,
-                    VERSION_KEY: span.instrumentation_scope.version,
-                    _SCOPE_NAME_KEY: span.instrumentation_scope.name,
-                    _SCOPE_VERSION_KEY: span.instrumentation_scope.version,
+                    key: value
+                    for key, value in scope_tags.items()
+                    if value is not None
                 }
             )
         if span.status.status_code is not StatusCode.UNSET:
-- 
2.43.0


From e861b8f8491925710348d2264e011e8aff8a412a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:13 +0000
Subject: [PATCH 31/35] fix: Zipkin encoder keeps scope and status tags within
 the tag length limit

---
 .../opentelemetry/exporter/zipkin/encoder/__init__.py    | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
index 80dced3..a638431 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py
@@ -231,6 +231,15 @@ class Encoder(abc.ABC):
         if span.dropped_links:
             tags.update({"otel.dropped_links_count": str(span.dropped_links)})
 
+        if (
+            self.max_tag_value_length is not None
+            and self.max_tag_value_length > 0
+        ):
+            tags = {
+                key: value[: self.max_tag_value_length]
+                for key, value in tags.items()
+            }
+
         return tags
 
     def _extract_annotations_from_events(
-- 
2.43.0


From 41ea14e39cbf2734806f616ee720db95d664469d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 32/35] fix: OpenTracing shim prefers references to the active
 span and sees spans activated by OpenTelemetry

---
 .../opentelemetry/shim/opentracing_shim/__init__.py  | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 8f4935e..1b84b96 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -646,12 +646,9 @@ class TracerShim(Tracer):
             An already-started :class:`SpanShim` instance.
         """
 
-        # Use active span as parent when no explicit parent is specified.
-        if not ignore_active_span and not child_of:
-            child_of = self.active_span
-
-        # Use the specified parent or the active span if possible. Otherwise,
-        # use a `None` parent, which triggers the creation of a new trace.
+        # Use the specified parent if possible, else the first valid reference,
+        # else the active span. Otherwise, use a `None` parent, which triggers
+        # the creation of a new trace.
         parent = child_of.unwrap() if child_of else None
         if isinstance(parent, OtelSpanContext):
             parent = NonRecordingSpan(parent)
@@ -665,6 +662,9 @@ class TracerShim(Tracer):
         if valid_links and parent is None:
             parent = NonRecordingSpan(valid_links[0].context)
 
+        if parent is None and not ignore_active_span:
+            parent = get_current_span()
+
         parent_span_context = set_span_in_context(parent)
 
         # The OpenTracing API expects time values to be `float` values which
-- 
2.43.0


From 2f2ebd16caec0872b17b9ce75d1dfdfc45fb034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 33/35] fix: OpenTracing shim start_active_span ignores the
 active span when told to

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py   | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 1b84b96..504fc56 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -594,14 +594,6 @@ class TracerShim(Tracer):
             :class:`ScopeManagerShim`.
         """
 
-        current_span = get_current_span()
-
-        if (
-            child_of is None
-            and current_span.get_span_context() is not INVALID_SPAN_CONTEXT
-        ):
-            child_of = SpanShim(None, None, current_span)
-
         span = self.start_span(
             operation_name=operation_name,
             child_of=child_of,
-- 
2.43.0


From 74b78d085bb1beb7be9979d00d238ab91fe865c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:04 +0000
Subject: [PATCH 34/35] fix: honour empty advisory histogram boundaries under a
 view without its own

A view with an explicit bucket histogram aggregation without boundaries used
the default boundaries for an instrument that advises an empty list, while the
default aggregation honours that advice.
---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py  | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index fad9125..fb22128 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1394,10 +1394,10 @@ class ExplicitBucketHistogramAggregation(Aggregation):
         if boundaries is None:
             # Only histograms have advisory boundaries. They must not be kept:
             # the same view may match several instruments.
+            # Without any, the aggregation uses the default boundaries.
             advisory = getattr(instrument, "_advisory", None)
-            boundaries = (
-                advisory and advisory.explicit_bucket_boundaries
-            ) or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
+            if advisory is not None:
+                boundaries = advisory.explicit_bucket_boundaries
 
         return _ExplicitBucketHistogramAggregation(
             attributes,
-- 
2.43.0


From 717a5749a1c920770f7b409d7ab08e80ee4e2f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:21 +0000
Subject: [PATCH 35/35] fix: a span limits links of its own and leaves the
 given ones as they are

---
 .../src/opentelemetry/sdk/trace/__init__.py     | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 3ac4580..3bbe5fa 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -829,13 +829,18 @@ class Span(trace_api.Span, ReadableSpan):
         valid_links = []
         for link in links:
             if link and _is_valid_link(link.context, link.attributes):
-                # pylint: disable=protected-access
-                link._attributes = BoundedAttributes(
-                    self._limits.max_link_attributes,
-                    link.attributes,
-                    max_value_len=self._limits.max_attribute_length,
+                # A link of its own, since the given one may be used for
+                # other spans, too.
+                valid_links.append(
+                    trace_api.Link(
+                        link.context,
+                        BoundedAttributes(
+                            self._limits.max_link_attributes,
+                            link.attributes,
+                            max_value_len=self._limits.max_attribute_length,
+                        ),
+                    )
                 )
-                valid_links.append(link)
 
         return BoundedList.from_seq(self._limits.max_links, valid_links)
 
-- 
2.43.0

