"""How each property is decided, in a few sentences (text of DESIGN.md)."""
D = {
"T01": "From an arbitrary ended span (arbitrary name, status, attributes, events, links, times), every public operation is called with arbitrary arguments and everything the span reports is compared with before; a second thread's `end` is let in at the lock of every operation (before it and between the check and the write); `end` itself establishes the representation invariant. Induction over histories: the invariant 'ended => frozen' is preserved by every operation.",
"T02": "`set_status` from any reachable status as a transition relation; the block-managing functions over all combinations of their flags, exception classes and nesting, exception identity compared.",
"T03": "`BoundedAttributes`, `BoundedList` and `Span` as data structures with a representation invariant (sizes within the limits, newest entries, dropped count = excess) that one operation from an arbitrary state preserves; construction from a mapping of any size by loop invariant; creation with any number of links, and links used for several spans. Histories are bounded cross-checks of the fold.",
"T04": "`_clean_attribute` through every public way to add an attribute, with any value of each type; sequences of any length, with elements of any mixture of types, by a loop invariant over the cleaned prefix; the result is a tuple of its own.",
"T05": "`Tracer.start_span` for any parent (remote, local, invalid, ended), any sampler result and any generated ids, two decisions of one tracer included; `RandomIdGenerator` by a loop invariant over its retry loop.",
"T06": "The ratio sampler's decision as a formula over the trace id and ratio; monotonicity as a relational contract over two samplers; delegation with arbitrary delegates.",
"T07": "Any number of processors with loop invariants (ghost counters of calls, order), a later one registered after any number; the deadline arithmetic with an arbitrary clock; the concurrent variant against the thread-pool contract (a task runs once, `wait` waits for the futures it is given), also with the events of two threads on one processor.",
"T08": "Loop invariants over `_export_batch`, the drain loop and flush service for a queue of any length; a scheduler contract for the worker thread; fork by its registered handler; exporter failing at will. Histories of up to 4 spans as bounded cross-check of the whole pipeline.",
"T09": "Contexts of any size (a context is a dict subclass backed by a symbolic map); token discipline by nesting contracts. KNOWN-FINDING: the inherited dict methods change a context in place.",
"T10": "All ids as integers without range; formatting proved by arithmetic on digits; copy/pickle run natively.",
"T11": "The set-once protocol with interference at the lock; proxies for tracers, meters, loggers and all seven instrument kinds. KNOWN-FINDING: meter attributes are dropped by the proxy (pinned by existing tests).",
"P01": "Header texts are arbitrary strings: the extraction condition is proved equivalent to the specification's regular expression (automata back end), round trip for all ids, flags and trace states; a propagator used before for arbitrary other requests answers the same.",
"P02": "Entries are arbitrary texts; any number by loop invariant, exact results for small numbers; every operation preserves validity from any valid state.",
"P03": "Baggage of any size for set/remove/clear; header parsing for any text (safety) and, by a loop invariant following an arbitrary name, for any number of members of any form (exactness: each name is bound to the last valid member's value); up to three members in order as bounded cross-check; limits at their exact boundary.",
"P04": "As P01 for both B3 forms, used-before included.",
"P05": "As P01 for Jaeger, with baggage headers, used-before included.",
"P06": "Any number of parts by loop invariant, ghost composition function.",
"M01": "The aggregations as state machines with a ghost total; any history by an invariant over the state; a concurrent collection at every lock; any number of series, with and without points, by a loop invariant over a collection.",
"M02": "Any ascending boundaries; bucket choice by the half-open range; conservation as invariant over measurements and collections.",
"M03": "Index functions for every finite double at every scale (exact arithmetic on mantissa and exponent). The bucket array with storage of any size, any rotation, position and counts: loop invariants over halving, growing, reading, one measurement, one merge and one collection from any state at any scale. Histories of up to three measurements remain as bounded cross-checks.",
"M04": "View matching over all six conditions with fnmatch modelled for its pattern language; streams and series; independence of readers.",
"M05": "Name and unit grammar by automata over all texts; all create methods; registration with interference.",
"M06": "Any number of callbacks, observations, instruments by loop invariants; generators resumed once; failing callbacks.",
"M07": "Reservoirs with arbitrary random choices, attributes of any number, filters over all contexts, aggregation hand-over.",
"M08": "Any number of readers (loop invariant), arbitrary failures, the ticker thread under the scheduler contract.",
"L01": "All integer levels; all record fields; limits as T03.",
"L02": "As T08 for logs, plus fan-out as T07, events of two threads included.",
"R01": "Attributes of any number by a loop-free symbolic mapping merge; detectors and environment members of any number by loop invariant.",
"R02": "Arguments and environment texts arbitrary: the precedence function is the oracle; header lists for any text (safety) and any number of members of any form (exactness by a loop invariant following an arbitrary name).",
"X01": "Value encoding by structural induction (`nested_values` stubs the recursive call with its contract); attributes, events, links and scopes of any number by loop invariants over the message lists; spans and log records of any number in their resource and scope groups, a group for an arbitrary key followed through the nested dictionaries.",
"X02": "A collector answering arbitrarily for each attempt; the waits recorded; shutdown at each point; an export after any other starts its waits anew.",
"X03": "Name sanitising proved over all texts (automata); buckets of any number; any number of points of a metric of each kind by invariants over the four parallel lists and the family dictionary (one family, one series per point, in order); different label sets and metrics as bounded cross-checks.",
"X04": "Rounding over all integers, tags of any number, JSON of sequences per length.",
"X05": "As X01 for the four kinds of points of any number, exemplars, exponential buckets; any number of metrics in a scope; splitting a metric of any number of points at any batch size, the generator suspended in its loop while the consumer counts the points, with bounded arrangements of empty metrics, scopes and resources beside it.",
"S01": "All combinations of parent arguments, reference lists, times; scope nesting; baggage isolation.",
}
