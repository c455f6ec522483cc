#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json and bin/engines.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
SDK = "opentelemetry-sdk/src"
API = "opentelemetry/src"
def prop(id, title, statement, over, text, why, files, mech, engines, level="model_checking", technique=None, note=None, observe=None, state=None, na=None, rule=None, assumptions=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, engines=engines,
                  level=level, technique=technique, note=note, observe=observe, state=state, na=na, rule=rule, assumptions=assumptions or []))

MC = "stateless model checking of the real code: exhaustive preemption-bounded schedule exploration under a controlled scheduler that replaces std's threads, locks, atomics, channels and clock"
SEQ = "bounded exhaustive enumeration of operation sequences and inputs on the real code, each step compared with an executable reference model"
MCN = "Every schedule of the listed scenarios up to the reported number of deviations (preemptions, early timers) is executed on the unmodified crates; sequentially consistent memory is assumed; scenario sizes (threads, operations, queue sizes) are the bound."
SEQN = "Every sequence/input of the stated finite alphabet up to the reported depth is executed on the unmodified crates; values outside the alphabet are not covered. The reference model is trusted."

prop("C01", "Batch span processing neither loses, duplicates nor invents spans",
 "Every sampled span that ends before shutdown is called is handed to the exporter exactly once by the time shutdown reports success, unless the configured queue was full when it ended; nothing else is ever exported. No export call exceeds the configured maximum batch size, is empty, or overlaps another, and a span is exported without further calls once a full batch has gathered or the scheduled delay has passed, even when the exporter is slow or fails.",
 ["schedules", "configurations", "fault_sequences"], "all interleavings of threads ending spans with the background worker, timers and control calls; all queue/batch sizes; any exporter failure or stall",
 "the unit tests end a handful of spans from one thread and look at one schedule; loss and counter races need particular interleavings of producers, worker and timer",
 [f"{SDK}/trace/span_processor.rs"], [("bounded queue, control channel and batch counter", f"{SDK}/trace/span_processor.rs BatchSpanProcessor::on_end / get_spans_and_export")], ["mc"], observe=["exporter calls", "SpanProcessor::on_end"])
prop("C02", "Batch span flush and shutdown are complete, final and never hang",
 "When force_flush or shutdown of a batch span processor reports success, every span that ended before the call (and was not dropped on a full queue) has been exported, and a failed export it waited for is reported as an error. Shutdown succeeds at most once, shuts the exporter down exactly once after the last export, and every later flush or shutdown reports that it is already shut down; nothing is exported afterwards. Calls against a stalled exporter return a timeout instead of hanging.",
 ["schedules", "configurations", "fault_sequences"], "all interleavings of concurrent flush, shutdown and span-ending threads; any backlog size; exporter errors, stalls and shutdown errors",
 "tests call flush and shutdown sequentially with fewer spans than a batch",
 [f"{SDK}/trace/span_processor.rs"], [("control messages with reply channels and timeouts", f"{SDK}/trace/span_processor.rs force_flush / shutdown")], ["mc"])
prop("C03", "Batch log processing neither loses, duplicates nor invents records",
 "Every log record emitted before shutdown is called is handed to the exporter exactly once by the time shutdown reports success, unless the configured queue was full when it was emitted; nothing else is ever exported. No export call exceeds the configured maximum batch size, is empty, or overlaps another, and a record is exported without further calls once a full batch has gathered or the scheduled delay has passed, even when the exporter is slow or fails.",
 ["schedules", "configurations", "fault_sequences"], "all interleavings of emitting threads with the background worker, timers and control calls; all queue/batch sizes; any exporter failure or stall",
 "the unit tests emit from one thread and observe one schedule; the producer/worker counter race needs a preemption inside emit",
 [f"{SDK}/logs/batch_log_processor.rs"], [("bounded queue, control channel and batch counter", f"{SDK}/logs/batch_log_processor.rs emit / get_logs_and_export")], ["mc"])
prop("C04", "Batch log flush and shutdown are complete, final and never hang",
 "When force_flush or shutdown of a batch log processor reports success, every record emitted before the call (and not dropped on a full queue) has been exported, and a failed export it waited for is reported as an error. Shutdown succeeds at most once, shuts the exporter down exactly once after the last export, and every later flush or shutdown reports that it is already shut down; nothing is exported afterwards. Calls against a stalled exporter return a timeout instead of hanging.",
 ["schedules", "configurations", "fault_sequences"], "all interleavings of concurrent flush, shutdown and emitting threads; any backlog size; exporter errors, stalls and shutdown errors",
 "tests call flush and shutdown sequentially with few records",
 [f"{SDK}/logs/batch_log_processor.rs"], [("control messages with reply channels and timeouts", f"{SDK}/logs/batch_log_processor.rs force_flush / shutdown")], ["mc"])
prop("C05", "Simple processors export each item synchronously, once, one at a time",
 "A simple span or log processor hands each sampled span, or each emitted record, to its exporter exactly once before the recording call returns, whatever other threads do. Exporter calls of one simple processor never overlap, and after shutdown has returned no record reaches a simple log processor's exporter. Spans that are not sampled are never exported.",
 ["schedules", "fault_sequences"], "all interleavings of recording and shutdown threads; exporter errors",
 "tests use one thread; overlap and post-shutdown export need concurrent callers",
 [f"{SDK}/trace/span_processor.rs", f"{SDK}/logs/simple_log_processor.rs"], [("exporter mutex and shutdown flag", f"{SDK}/logs/simple_log_processor.rs emit; {SDK}/trace/span_processor.rs SimpleSpanProcessor")], ["mc"])
prop("C06", "Tracer provider shutdown is exactly once and final, for all clones",
 "Whatever clones and tracers exist and however threads race, the processors of a tracer provider are shut down exactly once: by the first explicit shutdown or, failing that, when the last handle is dropped; later shutdowns report that it is already shut down. Processor failures are reported, not swallowed, and do not keep other processors from being flushed or shut down. Once shutdown has completed, spans started from any tracer of that provider are not recording and reach no processor, and every span ended before reaches every processor once, in registration order.",
 ["schedules", "histories", "configurations"], "all interleavings of start/end/shutdown/drop over clones and tracers; any number of processors; any subset failing",
 "tests exercise single-threaded orders only",
 [f"{SDK}/trace/provider.rs", f"{SDK}/trace/tracer.rs", f"{SDK}/trace/span.rs"], [("shutdown flag compare-and-swap and Drop of the shared inner", f"{SDK}/trace/provider.rs")], ["mc"])
prop("C07", "Logger provider shutdown is exactly once and final, for all clones",
 "Whatever clones and loggers exist and however threads race, the processors of a logger provider are shut down exactly once: by the first explicit shutdown or, failing that, when the last handle is dropped; later shutdowns report that it is already shut down. Processor failures are reported, not swallowed, and do not keep other processors from being flushed or shut down. Every record emitted before shutdown reaches every processor exactly once, in registration order, and loggers obtained after shutdown are inert.",
 ["schedules", "histories", "configurations"], "all interleavings of emit/flush/shutdown/drop over clones and loggers; any number of processors; any subset failing",
 "tests exercise single-threaded orders only",
 [f"{SDK}/logs/logger_provider.rs", f"{SDK}/logs/logger.rs"], [("shutdown flag and Drop of the shared inner", f"{SDK}/logs/logger_provider.rs")], ["mc"])
prop("C08", "Meter provider shutdown is exactly once and final, for all clones",
 "Whatever clones, meters and instruments exist and however threads race, every reader of a meter provider is shut down exactly once: by the first explicit shutdown or, failing that, when the last handle is dropped; later shutdowns report an error. Reader failures are reported and do not keep other readers from being flushed or shut down. After shutdown instruments stay safe to use and new meters are inert.",
 ["schedules", "histories", "configurations"], "all interleavings of measure/flush/shutdown/drop over clones; any number of readers; any subset failing",
 "tests exercise single-threaded orders only",
 [f"{SDK}/metrics/meter_provider.rs", f"{SDK}/metrics/pipeline.rs"], [("shutdown flag and Drop of the shared inner", f"{SDK}/metrics/meter_provider.rs")], ["mc"])
prop("C09", "A span shared between threads loses no update and ends exactly once",
 "When several threads use the same active span through its context, every attribute, event, link and status set before the span ends appears in the exported span exactly once, and the span is handed to each processor exactly once no matter how many threads end it or drop it. Nothing set after the span ended is exported and no call panics or deadlocks.",
 ["schedules"], "all interleavings of concurrent mutation, end and drop of one span",
 "tests use one thread per span",
 [f"{API}/trace/context.rs", f"{SDK}/trace/span.rs"], [("mutex around the shared span, take-once span data", f"{API}/trace/context.rs SpanRef; {SDK}/trace/span.rs ensure_ended_and_exported")], ["mc"])
prop("C10", "Concurrent measurements are counted exactly once across collections",
 "Measurements recorded from any number of threads while collections run are never lost, counted twice or attributed to another attribute set: with cumulative temporality each collected total lies between the measurements completed before and those started before the collection, never goes back for monotonic counters, and ends at the exact total; with delta temporality the collected values of an attribute set add up to exactly what was recorded. A gauge reports a value that was recorded and not superseded by one completed earlier.",
 ["schedules"], "all interleavings of recording threads with collections, with and without attributes, for every synchronous instrument kind and both temporalities",
 "tests record and collect from one thread or sample a few random schedules",
 [f"{SDK}/metrics/internal/mod.rs", f"{SDK}/metrics/internal/sum.rs", f"{SDK}/metrics/internal/histogram.rs", f"{SDK}/metrics/internal/last_value.rs"], [("value map with sharded trackers, drain on delta collect", f"{SDK}/metrics/internal/mod.rs ValueMap")], ["mc"])
prop("C11", "Every collected data point is internally consistent under concurrency",
 "In every collected histogram the bucket counts add up to the count, and count, sum, minimum and maximum describe one set of recorded measurements; an exported point always stems from at least one measurement. A delta interval in which an attribute set was not measured has no point for it.",
 ["schedules"], "all interleavings of recording threads with collections, for explicit and exponential histograms, gauges and sums",
 "tests collect when nothing is recording",
 [f"{SDK}/metrics/internal/histogram.rs", f"{SDK}/metrics/internal/exponential_histogram.rs", f"{SDK}/metrics/internal/mod.rs"], [("per-tracker mutex, has_no_attribute flag", f"{SDK}/metrics/internal/mod.rs")], ["mc"])
prop("C12", "The cardinality limit is never exceeded and overflow keeps totals exact",
 "For any sequence or interleaving of measurements, one instrument reports at most its configured limit of distinct non-empty attribute sets plus the empty set and one overflow set; sets admitted before the limit was reached keep their own points, and every other measurement is added to the overflow point, so the total over all points is exact. With delta temporality the limit starts afresh for each interval.",
 ["schedules", "histories", "configurations"], "all interleavings and orders of measurements around the limit, limits of 1 to 3 and the default, both temporalities",
 "tests check one order with the default limit",
 [f"{SDK}/metrics/internal/mod.rs"], [("is_under_cardinality_limit and overflow attribute set", f"{SDK}/metrics/internal/mod.rs ValueMap::measure")], ["mc"])
prop("C13", "The periodic reader exports on schedule, on flush and finally on shutdown",
 "A periodic reader exports collected metrics once per interval, whether or not it is flushed in between, never concurrently with itself, and force_flush and shutdown export everything measured before the call and report a failed export. Shutdown succeeds at most once, shuts its exporter down exactly once after the last export, nothing is exported afterwards, later calls report an error, and a shutdown against a stalled exporter times out instead of hanging.",
 ["schedules", "configurations", "fault_sequences"], "all interleavings of measuring, flushing and shutting-down threads with the interval timer; exporter failures and stalls",
 "tests use real time and one order",
 [f"{SDK}/metrics/periodic_reader.rs"], [("worker thread with control channel", f"{SDK}/metrics/periodic_reader.rs")], ["mc"])
prop("C14", "Concurrent creation of the same instrument feeds one stream",
 "However many threads or meters of the same scope create an instrument with the same name, kind, unit and description, all their measurements land in one exported stream exactly once, and two different scopes or kinds never share one. Creating meters and instruments concurrently with collection never deadlocks, and no instrument created before a collection is missing from it.",
 ["schedules"], "all interleavings of meter and instrument creation, measurement and collection",
 "tests create instruments sequentially",
 [f"{SDK}/metrics/meter_provider.rs", f"{SDK}/metrics/meter.rs", f"{SDK}/metrics/pipeline.rs"], [("meter map and inserter caches behind mutexes", f"{SDK}/metrics/pipeline.rs Inserter::cached_aggregator")], ["mc"])
prop("C15", "Global providers and propagators are replaced atomically",
 "Threads that obtain tracers, meters, or the propagator from the global registry while another thread replaces them observe either the old or the new one, whole, and the new one once the replacement has returned; uses before any installation are inert. Replacing the tracer provider hands back the one it replaced, so that exactly one caller can shut it down. Replacing them never deadlocks, and tracers obtained earlier keep working with the provider they came from.",
 ["schedules"], "all interleavings of set and get over the global registries",
 "tests set globals once",
 [f"{API}/global/trace.rs", f"{API}/global/metrics.rs", f"{API}/global/propagation.rs"], [("RwLock-protected process-wide providers", f"{API}/global")], ["mc"])
prop("C16", "Async-runtime batch processors deliver, bound and flush like the threaded ones",
 "The batch span and log processors that run on an async runtime hand every item recorded before shutdown to the exporter exactly once unless their queue was full, in batches no larger than configured, on a full batch, on each scheduled delay, on flush and on shutdown. A flush or shutdown that reports success has exported everything recorded before it, and export timeouts and failures never block or duplicate later exports.",
 ["schedules", "fault_sequences", "configurations"], "all interleavings of producers, flush, shutdown, timers and export completion; concurrent-export limits 1 and 2; export errors and timeouts",
 "tests run on tokio with real time and few schedules",
 [f"{SDK}/trace/span_processor_with_async_runtime.rs", f"{SDK}/logs/log_processor_with_async_runtime.rs"], [("message channel, ticker stream and export task set", f"{SDK}/trace/span_processor_with_async_runtime.rs")], ["mc"])
prop("C17", "The async-runtime periodic reader exports on schedule, flush and shutdown",
 "The periodic reader that runs on an async runtime exports collected metrics once per interval, and a flush or shutdown that reports success has exported everything measured before the call, with export failures reported. Shutdown succeeds at most once, nothing is exported after it, and later calls report an error instead of hanging.",
 ["schedules", "fault_sequences"], "all interleavings of measuring, flushing, shutdown, ticks and export completion, with failing exports",
 "tests run on tokio with real time",
 [f"{SDK}/metrics/periodic_reader_with_async_runtime.rs"], [("worker future with message stream", f"{SDK}/metrics/periodic_reader_with_async_runtime.rs")], ["mc"])
prop("C18", "The current context follows attach and detach in any order, per thread",
 "After any sequence of attaching contexts and dropping their guards, in any order and to any depth up to the documented maximum, the current context of a thread is the most recently attached one whose guard is still alive, or the empty context if there is none. Threads never influence each other's current context, derived contexts never change the ones they came from, and values and the active span are found exactly when they were set in the context or inherited.",
 ["histories", "schedules"], "all sequences of attach and out-of-order drop up to a depth, on several threads; all value operations",
 "tests cover a few fixed orders",
 [f"{API}/context.rs"], [("context stack with id-based pop", f"{API}/context.rs ContextStack")], ["api"])
prop("C19", "Futures, streams and sinks run under their context and leave none behind",
 "Every poll of a future, stream or sink that was given a context runs with exactly that context as current, wherever and however often it is polled, and the previously current context is restored after each poll and after completion, cancellation or panic. Telemetry suppression entered in a scope holds for everything nested in it and ends exactly with it.",
 ["histories", "schedules"], "all poll/drop/migration sequences of up to three wrapped futures over two threads",
 "tests poll one future on one thread",
 [f"{API}/trace/context.rs", f"{API}/context/future_ext.rs", f"{API}/context.rs"], [("attach during poll", f"{API}/context/future_ext.rs")], ["api"])
prop("C20", "Baggage behaves as a bounded map of entries with metadata",
 "After any sequence of insertions, replacements and removals, baggage contains exactly the entries a map would contain, with the metadata given last, as long as the documented limits on entry count and total size allow; an insertion that would break a limit or has an invalid name leaves it unchanged. Length and iteration agree with lookup, and a context carries exactly the baggage set on it or inherited, until cleared.",
 ["histories", "inputs"], "all operation sequences up to a depth over colliding keys and sizes around every limit",
 "tests insert a few entries and hit each limit once",
 [f"{API}/baggage.rs"], [("size accounting on insert/remove", f"{API}/baggage.rs Baggage::insert_with_metadata")], ["api"])
prop("C21", "Baggage survives injection and extraction and bad headers are contained",
 "Injecting baggage and extracting the carrier again yields the same entries, values and metadata for all names and values that baggage accepts, of any content. Malformed members of a received header are skipped without affecting the well-formed ones, and no header can cause a panic or exceed the baggage limits.",
 ["inputs"], "all entry sets over an alphabet with separators, percent signs, whitespace, Unicode; all header strings up to a length over the delimiter alphabet",
 "tests use a table of examples",
 [f"{SDK}/propagation/baggage.rs"], [("percent encoding", f"{SDK}/propagation/baggage.rs")], ["api"])
prop("C22", "Trace state is a validated, ordered, most-recent-first list",
 "After any sequence of inserts, updates and deletes, a trace state contains exactly the entries a most-recently-updated-first list would contain, in that order, and its header form parses back to itself; the original is never changed. An insert or parse whose key or value has characters or a length the W3C grammar forbids is rejected as an error, one that the grammar allows is accepted.",
 ["histories", "inputs"], "all operation sequences up to a depth; all short key/value strings over a grammar-covering alphabet",
 "tests use a few examples",
 [f"{API}/trace/span_context.rs"], [("TraceState VecDeque operations and validation", f"{API}/trace/span_context.rs")], ["api"])
prop("C23", "W3C trace context round-trips and rejects malformed headers",
 "Injecting any valid span context and extracting the carrier again yields the same trace id, span id, sampled flag and trace state, marked remote. A traceparent header that violates the W3C format (length, hex case, zero ids, version ff, missing parts) leaves the context it is extracted into unchanged, and no header can cause a panic.",
 ["inputs"], "all valid contexts over boundary ids and flags; all single and double mutations of valid headers over a grammar-covering alphabet",
 "tests use a table of examples",
 [f"{SDK}/propagation/trace_context.rs"], [("header split and hex parsing", f"{SDK}/propagation/trace_context.rs")], ["api"])
prop("C24", "Jaeger trace headers round-trip and reject malformed input",
 "Injecting any valid span context in Jaeger format and extracting it again yields the same ids and sampling decision, marked remote, including through a custom header name, and headers with the baggage prefix appear in the trace state with the same keys and values. Malformed headers leave the context unchanged and never cause a panic; short ids are padded, over-long ids rejected.",
 ["inputs"], "all valid contexts over boundary ids and flags; all small mutations of valid headers",
 "tests use a table of examples",
 ["opentelemetry-jaeger-propagator/src/propagator.rs"], [("uber-trace-id parsing", "opentelemetry-jaeger-propagator/src/propagator.rs")], ["api"])
prop("C25", "B3 headers round-trip in every encoding and reject malformed input",
 "For the single-header, multi-header and combined encodings, injecting any valid span context and extracting it again yields the same ids and the same sampling decision (sampled, not sampled, debug, deferred), marked remote. Malformed headers leave the context unchanged and never cause a panic, and an extractor that accepts both encodings prefers a valid single header.",
 ["inputs"], "all encodings and all contexts over boundary ids and flags; all small mutations of valid headers",
 "tests use a table of examples",
 ["opentelemetry-zipkin/src/propagator/mod.rs"], [("B3 parsing", "opentelemetry-zipkin/src/propagator/mod.rs")], ["api"])
prop("C26", "Composite propagation applies every propagator and only their fields",
 "A composite propagator injects exactly what its parts inject, writes only the header names it declares, and extracts so that each part sees the result of the ones before it: for every set and order of propagators the extracted context is the composition of the individual extractions. An absent or invalid header for one part never discards what another part or the base context provides.",
 ["inputs", "configurations"], "all subsets and orders of the available propagators with all combinations of valid, invalid and absent headers",
 "tests compose two fixed propagators",
 [f"{API}/propagation/composite.rs"], [("fold over propagators", f"{API}/propagation/composite.rs")], ["api"])
prop("C27", "An exported span records exactly what was done to it, within its limits",
 "For any sequence of span operations, the exported span contains exactly the attributes, events and links given before it ended, in order, up to the configured limits with exact counts of what was dropped, the final name, kind, explicit or measured times, and the status resulting from the status precedence rules (Ok is final, otherwise the last error set wins, Unset never replaces). Operations after the end, and on spans that are not recording, have no effect.",
 ["histories", "configurations"], "all operation sequences up to a depth over the full span API, limits 0 to 2 and defaults",
 "tests check each operation alone",
 [f"{SDK}/trace/span.rs", f"{SDK}/trace/tracer.rs", f"{SDK}/trace/span_limit.rs", f"{API}/trace/mod.rs"], [("span data and limits", f"{SDK}/trace/span.rs; {SDK}/trace/tracer.rs")], ["sdk"])
prop("C28", "Spans form correct trees: trace ids, parents and ids are right for every history",
 "A span started under an active valid parent, local or remote, has the parent's trace id, its span id as parent and its trace state; a span without one, or with the parent ignored, starts a new trace with no parent. Ids are valid and distinct, and starting or ending spans never changes which context is current except through explicit attachment.",
 ["histories", "configurations"], "all sequences of start, attach, detach, end and remote parents up to a depth",
 "tests check a few fixed trees",
 [f"{SDK}/trace/tracer.rs", f"{API}/trace/tracer.rs", f"{SDK}/trace/id_generator/mod.rs"], [("SdkTracer::build_with_context", f"{SDK}/trace/tracer.rs")], ["sdk"])
prop("C29", "Sampling decisions follow the configured sampler for every parent and trace id",
 "For every sampler configuration and parent situation, a span is recorded and exported exactly when the sampler's definition says so, its sampled flag tells the same, and a parent-based sampler follows its parent, or passes on all that the sampler it delegates to answers. Ratio sampling depends only on the trace id, never, always and monotonically in the ratio: an id sampled at one ratio is sampled at every higher one, and the share of ids sampled matches the ratio.",
 ["inputs", "configurations"], "all samplers nested to depth two, all parent situations, trace ids and ratios at every boundary",
 "tests sample random trace ids statistically",
 [f"{SDK}/trace/sampler.rs", f"{SDK}/trace/tracer.rs"], [("Sampler::should_sample", f"{SDK}/trace/sampler.rs")], ["sdk"])
prop("C30", "Log records carry exactly what was set on them, and their trace context",
 "For any sequence of setters, the record handed to every processor and exporter has the last value set for each field and all attributes ever added, in order and however many, and is not altered for later processors except by what an earlier one changes. A record emitted while a span is active carries that span's trace id, span id and flags unless set explicitly; otherwise none. Severities have the numbers, names and order of the log data model.",
 ["histories"], "all setter sequences up to a depth, attribute counts around the inline capacity, all active-span situations, one to three processors of which some mutate",
 "tests check few counts and one processor",
 [f"{SDK}/logs/record.rs", f"{SDK}/growable_array.rs", f"{SDK}/logs/logger.rs"], [("inline/overflow attribute storage", f"{SDK}/growable_array.rs")], ["sdk"])
prop("C31", "Counters and up-down counters report exact sums for every history",
 "For any sequence of additions and collections over any attribute sets, every collected sum point equals the exact sum of what the reference arithmetic prescribes for its attribute set: since the start for cumulative, since the last collection for delta, per reader independently. Monotonicity, temporality, start and collection times are labelled correctly and intervals join without gap or overlap.",
 ["histories", "configurations"], "all sequences of add and collect up to a depth over three attribute sets, u64/i64/f64, both temporalities, one or two readers",
 "tests check short fixed sequences",
 [f"{SDK}/metrics/internal/sum.rs", f"{SDK}/metrics/internal/mod.rs"], [("Sum aggregate", f"{SDK}/metrics/internal/sum.rs")], ["met"])
prop("C32", "Explicit-bucket histograms count every measurement in its bucket",
 "For any boundaries and any sequence of measurements and collections, every collected point has, per attribute set, the exact count, sum, minimum and maximum of the measurements of its interval, and each measurement lies in the bucket whose boundaries enclose it (upper bound inclusive). Configured or advised boundaries are used as given, unsorted, infinite or invalid ones are handled as documented, and suppressing sum or min/max leaves the rest exact.",
 ["histories", "inputs", "configurations"], "all sequences up to a depth over values at, next to and between boundaries; several boundary lists; both temporalities",
 "tests use a few values",
 [f"{SDK}/metrics/internal/histogram.rs"], [("partition_point over bounds", f"{SDK}/metrics/internal/histogram.rs")], ["met"])
prop("C33", "Exponential histograms keep every measurement within the scale's error bound",
 "For any sequence of measurements and collections, every collected exponential point has exact count, sum, minimum, maximum and zero count, at most the configured number of buckets per sign, and bucket counts equal to what placing each measurement of the interval at the reported scale gives. The scale is the finest one, between the minimum and the configured maximum, at which the measurements of the interval fit. No finite measurement, however extreme, panics; with three or more buckets none is lost, and with fewer a measurement that fits at no scale is left out of the whole point.",
 ["histories", "inputs", "configurations"], "all sequences up to a depth over magnitudes from subnormal to maximum, signs, powers of two and neighbours; several sizes and scales",
 "tests use a table of examples",
 [f"{SDK}/metrics/internal/exponential_histogram.rs"], [("downscaling and bucket index", f"{SDK}/metrics/internal/exponential_histogram.rs")], ["met"])
prop("C34", "Gauges report the last recorded value of every attribute set",
 "For any sequence of recordings and collections, a gauge point holds the value recorded last for its attribute set: among all recordings for cumulative readers, and among those since the previous collection for delta readers, which report no point for a set that was not recorded.",
 ["histories", "configurations"], "all sequences of record and collect up to a depth over three attribute sets, integer and float values, both temporalities",
 "tests check short fixed sequences",
 [f"{SDK}/metrics/internal/last_value.rs"], [("LastValue aggregate", f"{SDK}/metrics/internal/last_value.rs")], ["met"])
prop("C35", "Delta and cumulative readers of the same history agree",
 "For every instrument kind and any history, running totals of what a delta reader reports equal what a cumulative reader of the same provider reports at the same points, and the low-memory preference uses delta exactly for the kinds it is documented for. One reader's collections never change what another reader sees.",
 ["histories", "configurations"], "all sequences of measure, collect A, collect B up to a depth, for every instrument kind",
 "tests look at one reader at a time",
 [f"{SDK}/metrics/internal/aggregate.rs", f"{SDK}/metrics/instrument.rs", f"{SDK}/metrics/pipeline.rs"], [("per-pipeline aggregation state", f"{SDK}/metrics/pipeline.rs")], ["met"])
prop("C36", "Measurements are grouped by attribute set, not by how it is written",
 "Measurements whose attributes are the same set of keys and values land in one data point whatever their order, and measurements whose sets differ in any key, value or value type land in different points; the point carries exactly that set. This holds for every instrument kind and every collection, including empty sets, arrays, values that only differ in type, and sets in which an attribute is written twice with one value. (NaN values, which equal nothing, are left open.)",
 ["inputs", "histories"], "all pairs of attribute lists of up to three attributes over three keys and four value types, in all orders, and all pairs of 25 values of every type, for every instrument kind, both temporalities, two rounds",
 "tests check one permutation",
 [f"{SDK}/metrics/internal/mod.rs", f"{SDK}/metrics/mod.rs", f"{API}/common.rs"], [("sorted, deduplicated attribute key", f"{SDK}/metrics/internal/mod.rs sort_and_dedup")], ["met"])
prop("C37", "Views select, rename, filter, re-aggregate and drop exactly as configured",
 "For every set of views, an instrument produces exactly one stream per distinct matching view outcome and the default stream if none matches; names, units, descriptions, attribute filters and aggregations of the view apply to exactly the instruments its criteria match, including wildcards, and dropped instruments export nothing. Attribute filtering merges measurements without losing any. (What conflicting views make of one stream identity is left open.)",
 ["configurations", "histories"], "all single views and pairs of views over 27 criteria and 17 stream overrides, triples over a smaller set, against six instruments of three meters and two readers; all wildcard patterns up to a length against all names",
 "tests check one view at a time",
 [f"{SDK}/metrics/view.rs", f"{SDK}/metrics/pipeline.rs", f"{SDK}/metrics/internal/aggregate.rs"], [("view resolution in the inserter", f"{SDK}/metrics/pipeline.rs Inserter::instrument")], ["met"])
prop("C38", "Instrument identity and validation are exact",
 "Instruments with the same scope, name (ignoring case), kind, unit and description feed one stream, and instruments that differ in any of these never mix their values. Names and units that violate the documented syntax yield inert instruments that export nothing, valid ones always work, and no name, unit or boundary list causes a panic.",
 ["inputs", "configurations"], "all pairs of instrument definitions over a small alphabet; all names over a syntax-covering alphabet up to a length plus boundary lengths",
 "tests check a table of names",
 [f"{SDK}/metrics/meter.rs", f"{SDK}/metrics/pipeline.rs"], [("instrument id cache and validation", f"{SDK}/metrics/meter.rs validate_instrument_name")], ["met"])
prop("C39", "Observable instruments report what their callbacks observe at each collection",
 "At each collection every registered callback runs exactly once per reader collection, and the points reported for an observable counter, up-down counter or gauge are exactly what the callbacks observed in that collection, converted to differences against the reader's previous collection for delta readers and labelled with the time of the collection and the start of the stream or interval. Observations are grouped by attribute set regardless of attribute order, and sets not observed do not gain values.",
 ["histories", "configurations"], "all sequences of collections in which callbacks observe any of a small set of values over three attribute sets, both temporalities, one or two instruments and callbacks",
 "tests check fixed sequences",
 [f"{SDK}/metrics/internal/precomputed_sum.rs", f"{SDK}/metrics/internal/last_value.rs", f"{SDK}/metrics/pipeline.rs"], [("callbacks run by produce, precomputed sums", f"{SDK}/metrics/pipeline.rs; {SDK}/metrics/internal/precomputed_sum.rs")], ["met"])
prop("C40", "Resources merge by precedence and keep one value per key",
 "For any combination of attributes, schema URLs, detectors and merges, a resource holds exactly one value per key, the one from the source of highest precedence, and lookup, length and iteration agree; schema URLs follow the documented conflict rule. Environment-provided attributes and service names are honoured with the documented precedence and malformed entries never panic or hide well-formed ones.",
 ["inputs", "configurations"], "all merges of up to three resources over two keys and schema URLs; all environment strings up to a length over the delimiter alphabet",
 "tests check a few merges",
 [f"{SDK}/resource/mod.rs", f"{SDK}/resource/env.rs"], [("Resource::merge and builder", f"{SDK}/resource/mod.rs")], ["sdk"])
prop("C41", "Environment configuration is honoured, code overrides it, bad values are ignored",
 "For every supported environment variable of the batch processors, span limits, sampler and periodic reader, a valid value takes effect, an invalid or absent one leaves the documented default, and a value set in code overrides the environment. A batch size is never effectively larger than the queue size, and no value (short of exhausting memory) causes a panic.",
 ["configurations", "inputs"], "every variable with unset, valid, boundary and malformed values, with and without code overrides, observed through behaviour",
 "tests check some variables once",
 [f"{SDK}/trace/span_processor.rs", f"{SDK}/logs/batch_log_processor.rs", f"{SDK}/trace/config.rs", f"{SDK}/metrics/periodic_reader.rs"], [("init_from_env_vars", f"{SDK}/trace/span_processor.rs BatchConfigBuilder")], ["sdk"])
prop("C42", "Telemetry keeps its instrumentation scope and resource",
 "Every exported span, log record and metric carries exactly the scope (name, version, schema URL, attributes) of the tracer, logger or meter that produced it and the provider's resource, two scopes that are equal in all parts are one scope and scopes that differ in any part stay apart, for every sequence in which they are obtained and used.",
 ["histories", "configurations"], "all sequences of obtaining and using tracers, loggers and meters over scopes that differ in one part; all sequences of up to 3 (4) collections of any subsets of five instruments in three scopes, into new and reused memory",
 "tests use one scope",
 [f"{SDK}/trace/provider.rs", f"{SDK}/logs/logger_provider.rs", f"{SDK}/metrics/meter_provider.rs", f"{API}/common.rs"], [("scope equality and meter cache", f"{API}/common.rs InstrumentationScope")], ["sdk"])
prop("C43", "OTLP trace requests carry every span unchanged and grouped by scope",
 "For any batch of spans, the OTLP request contains every span exactly once under its resource and its instrumentation scope, with ids, parent, kind, name, times, attributes of every value type, events, links, dropped counts, status, flags and trace state unchanged. The entries made for z-pages (latency, running, error) say the same as far as they have a place for it.",
 ["inputs"], "all batches of up to three spans over two scopes with every field at its boundary values",
 "tests check one batch",
 ["opentelemetry-proto/src/transform/trace.rs", "opentelemetry-proto/src/transform/common.rs", "opentelemetry-proto/src/transform/tracez.rs"], [("group_spans_by_resource_and_scope", "opentelemetry-proto/src/transform/trace.rs")], ["wire"])
prop("C44", "OTLP log requests carry every record unchanged and grouped by scope",
 "For any batch of log records, the OTLP request contains every record exactly once under its resource and its instrumentation scope (or the target that replaces it), with times, severity, body, attributes of every value type nested to any depth, event name, ids and flags unchanged; absent fields stay absent and no record causes a panic.",
 ["inputs"], "all batches of up to three records over two scopes and targets with every field absent, present and at its boundary values",
 "tests check one batch",
 ["opentelemetry-proto/src/transform/logs.rs", "opentelemetry-proto/src/transform/common.rs"], [("group_logs_by_resource_and_scope", "opentelemetry-proto/src/transform/logs.rs")], ["wire"])
prop("C45", "OTLP metric requests carry every data point unchanged",
 "For any collected metrics, the OTLP request contains every metric, data point and exemplar of every aggregation exactly once under its resource and scope, with name, unit, description, temporality, monotonicity, times, attributes, values, counts, sums, minima, maxima, boundaries, scales, offsets and bucket counts unchanged, wherever the format can represent them.",
 ["inputs"], "all aggregation kinds and number types with values at their boundaries",
 "tests check no full request",
 ["opentelemetry-proto/src/transform/metrics.rs"], [("From<&ResourceMetrics>", "opentelemetry-proto/src/transform/metrics.rs")], ["wire"])
prop("C46", "OTLP HTTP export sends each batch once, as configured, and reports the outcome",
 "Each export makes exactly one HTTP POST with the configured endpoint, headers, content type and timeout and a body that decodes to exactly the exported batch under the resource set last. The endpoint, headers and timeout set in code, in the signal's environment variable and in the general one are combined with the documented precedence; an empty variable counts as not set, and another signal's variables have no effect. The export reports success exactly when the server answered with a success status; a lost connection, a refused request or a server that stalls beyond the timeout is a failure, and after shutdown no request is made.",
 ["inputs", "configurations", "fault_sequences"], "all combinations of endpoint, header, timeout and protocol settings from code and environment; all response statuses and transport failures in all sequences up to a depth, for all three signals, with a custom client and with the built-in one",
 "tests check configuration resolution for single variables",
 ["opentelemetry-otlp/src/exporter/http/mod.rs", "opentelemetry-otlp/src/exporter/http/trace.rs", "opentelemetry-otlp/src/exporter/http/logs.rs", "opentelemetry-otlp/src/exporter/http/metrics.rs", "opentelemetry-otlp/src/span.rs", "opentelemetry-otlp/src/exporter/mod.rs"], [("HttpExporterBuilder and OtlpHttpClient", "opentelemetry-otlp/src/exporter/http/mod.rs")], ["wire"])
prop("C47", "Bridged log and tracing events arrive complete and with the right severity",
 "Every event logged through the log or tracing facades that is enabled produces exactly one OpenTelemetry record with the message as body, the mapped severity, the target, and every field as an attribute of the corresponding type and value; disabled or suppressed events produce none. Integers that do not fit become strings, an error field becomes exception.message; with the corresponding features structured values arrive as maps and lists, the source location as attributes, and events inside a tracing span carry the ids of that span.",
 ["inputs", "configurations"], "all levels, all field types at boundary values, up to three fields, all filter settings, both with and without the optional features",
 "tests check a few events",
 ["opentelemetry-appender-log/src/lib.rs", "opentelemetry-appender-tracing/src/layer.rs"], [("field visitor and severity mapping", "opentelemetry-appender-tracing/src/layer.rs")], ["bridge", "bridges"])
prop("C48", "Zipkin export represents every span faithfully",
 "Each batch is posted once, as one JSON list with one Zipkin span per span, in order. Each has the span's trace and span id, its parent id exactly when it has a parent, its name, its kind, start and duration in microseconds, one annotation per event, every attribute except 'error' and the scope's name and version as tags, the status as otel.status_code and an error tag exactly when the status is an error, and the configured address and the resource's service name as local endpoint. The endpoint set in code precedes the environment variable, which precedes the default; the timeout of the environment bounds the export. An export succeeds exactly when the server accepted it.",
 ["inputs", "configurations", "fault_sequences"], "all spans that differ from a base span in up to three (thorough: four) of 20 fields over boundary values; all batches of up to 5 (7) spans of 7 kinds; all endpoint and timeout settings; all response statuses and all sequences of answers up to a depth",
 "tests check a few examples",
 ["opentelemetry-zipkin/src/exporter/model/mod.rs", "opentelemetry-zipkin/src/exporter/mod.rs", "opentelemetry-zipkin/src/exporter/uploader.rs", "opentelemetry-zipkin/src/exporter/env.rs"], [("into_zipkin_span", "opentelemetry-zipkin/src/exporter/model/mod.rs")], ["wire"])
prop("C49", "Prometheus exposition shows every metric exactly once with its current value",
 "Every scrape of the registry is readable and shows, for every instrument and attribute set measured so far, exactly one sample with the current total, last value or cumulative buckets, sum and count. Names are sanitized, prefixed with the namespace and suffixed with unit and _total as configured; attributes become valid labels, equal ones merged; scope labels, scope info, target info and selected resource labels appear exactly as configured. Of conflicting definitions of one name the first keeps its type and help on every later scrape and nothing else is affected. After shutdown a scrape shows nothing.",
 ["inputs", "configurations", "histories"], "all combinations of exporter options, instrument kinds, names, units, label names and values over small alphabets; all histories of measurements, scrapes, flush and shutdown up to depth 6 (7); all sets of up to 3 (4) conflicting definitions",
 "tests compare fixed files, and most are ignored",
 ["opentelemetry-prometheus/src/lib.rs", "opentelemetry-prometheus/src/config.rs", "opentelemetry-prometheus/src/utils.rs", "opentelemetry-prometheus/src/resource_selector.rs"], [("Collector::collect", "opentelemetry-prometheus/src/lib.rs")], ["prom"])
prop("C50", "In-memory exporters return exactly what was exported since the last reset",
 "For any sequence of export, read, reset and shutdown on the in-memory exporters for spans, logs and metrics and their clones, reading returns exactly the items exported since the last reset, in order, unless shutdown or reset was configured to clear them.",
 ["histories"], "all operation sequences up to a depth over two clones",
 "tests read once",
 [f"{SDK}/trace/in_memory_exporter.rs", f"{SDK}/logs/in_memory_exporter.rs", f"{SDK}/metrics/in_memory_exporter.rs"], [("shared vectors behind mutexes", f"{SDK}/trace/in_memory_exporter.rs")], ["sdk"])

prop("C51", "OTLP gRPC export sends each batch once, as configured, and reports the outcome",
 "Each export makes exactly one unary call to the OTLP service of its signal at the configured endpoint, with the configured metadata, compression and timeout and a message that decodes to exactly the exported batch under the resource set last. Settings from code, the signal's environment variable and the general one are combined with the documented precedence; an empty variable counts as not set, an unknown compression is an error, and another signal's variables have no effect. The export reports success exactly when the server answered with status OK; any other status, a lost or refused connection or a server that stalls beyond the timeout is a failure, and after shutdown no call is made.",
 ["inputs", "configurations", "fault_sequences"], "all combinations of endpoint, metadata, interceptor, compression and timeout settings from code and environment; all gRPC statuses, HTTP failures and connection losses in all sequences up to a depth, for all three signals",
 "tests check configuration resolution for single variables and never run an export against a server",
 ["opentelemetry-otlp/src/exporter/tonic/mod.rs", "opentelemetry-otlp/src/exporter/tonic/trace.rs", "opentelemetry-otlp/src/exporter/tonic/logs.rs", "opentelemetry-otlp/src/exporter/tonic/metrics.rs", "opentelemetry-otlp/src/exporter/mod.rs"], [("TonicExporterBuilder::build_channel", "opentelemetry-otlp/src/exporter/tonic/mod.rs")], ["wire"])
prop("C52", "HTTP clients deliver requests and responses unchanged and never hang",
 "Each HTTP client implementation (hyper, reqwest, blocking reqwest) sends a request exactly once with its method, path, query, headers and body unchanged and returns a success response with its status, headers and body unchanged; an error status is never reported as success, and a connection that is refused, closed early or stalls at any point of the response, beyond the timeout where one is configured, is an error.",
 ["inputs", "fault_sequences"], "all combinations of methods, paths, headers and body sizes; all success and error statuses with plain and chunked bodies; all sequences of connection failures up to a depth; a stall at every stage of the response",
 "there are no tests of the clients",
 ["opentelemetry-http/src/lib.rs"], [("HttpClient::send_bytes implementations", "opentelemetry-http/src/lib.rs")], ["wire"])

prop("C53", "The remote sampler applies the last good strategy and polls only while in use",
 "A Jaeger remote sampler asks its server once per update interval, by GET at the configured endpoint with exactly the configured service name, and decides by the last strategy received: a probability, one per span name, or a rate limit. A failed poll or an answer without a strategy changes nothing, and until the first good answer the default sampler answers. A rate limit admits at most the bucket size at once and refills continuously at the configured rate, for any number of threads. Polling ends when the last handle of the sampler is dropped; an empty endpoint or service name is refused.",
 ["histories", "schedules", "fault_sequences", "configurations"], "all sequences of server answers, sampling calls, waits, clock changes and limit changes up to a depth; all endpoints and service names of a small alphabet; all orders of dropping the handles; all interleavings of sampling threads with polls and drops",
 "tests cover the bucket at whole seconds and the deserialization of one response",
 [f"{SDK}/trace/sampler/jaeger_remote/sampler.rs", f"{SDK}/trace/sampler/jaeger_remote/sampling_strategy.rs", f"{SDK}/trace/sampler/jaeger_remote/rate_limit.rs", f"{SDK}/trace/sampler/jaeger_remote/remote.rs"], [("Inner::update / should_sample, LeakyBucket", f"{SDK}/trace/sampler/jaeger_remote/sampling_strategy.rs")], ["sdk", "mc"])

prop("C54", "The stdout exporters print everything they are given, once, until shutdown",
 "For any sequence of exports, a stdout exporter prints every span, log record or metric of a batch exactly once, in order and whole: its scope, names, ids, times and status, body and severity, each attribute with its value, each event, link and data point with its values, counts and buckets, and nothing that was not given. The resource set last is printed with the first batch of spans or logs and with every batch of metrics; metrics use the configured temporality, cumulative by default. After shutdown an export fails and prints nothing. (The layout is left open, and the points of exponential histograms are not printed.)",
 ["inputs", "histories"], "all sequences of exports, resource changes and shutdown up to depth 4 (6); all combinations of present and absent fields, attribute types and numbers of events, links, points and buckets over small ranges",
 "there are no tests of what is printed",
 ["opentelemetry-stdout/src/trace/exporter.rs", "opentelemetry-stdout/src/logs/exporter.rs", "opentelemetry-stdout/src/metrics/exporter.rs"], [("print_spans / print_logs / print_metrics", "opentelemetry-stdout/src")], ["sout"])
prop("C55", "Exporting never feeds itself: telemetry made by exporters is suppressed",
 "Whatever an exporter does while a batch span processor, a batch log processor or a periodic reader calls it on its own thread (export, shutdown, new resource), or a simple log processor exports through it, spans it starts are not recording and logs it emits are not enabled and reach no processor, even in a context derived from the current one and with the very provider it serves. The application's own threads are never suppressed by it: everything they record is exported exactly once, and exporting comes to an end.",
 ["schedules", "fault_sequences"], "all interleavings of recording and flushing threads with the workers of all three signals, whose exporters are instrumented with the providers they serve, succeeding or failing",
 "tests check suppression only on the thread that entered it; a missing one shows as an endless stream of exports or a deadlock, and only with an instrumented exporter",
 [f"{SDK}/trace/span_processor.rs", f"{SDK}/logs/batch_log_processor.rs", f"{SDK}/logs/simple_log_processor.rs", f"{SDK}/metrics/periodic_reader.rs", f"{SDK}/trace/tracer.rs", f"{SDK}/logs/logger.rs", f"{API}/context.rs"], [("enter_telemetry_suppressed_scope on every worker thread", f"{SDK}/trace/span_processor.rs; {SDK}/logs/batch_log_processor.rs; {SDK}/logs/simple_log_processor.rs; {SDK}/metrics/periodic_reader.rs")], ["mc"])
prop("C56", "OTLP/JSON messages read back as what they were written from",
 "Any OTLP message of the three signals, and any answer, written as JSON and read again is the same message, whatever attribute values, bodies, ids, times, counts, bounds and one-ofs it has, and however the text is laid out; the numbers of a value may come as JSON numbers or as strings; members which are not known are ignored; and members left out mean the default, in all messages which may be read so (finite numbers and no exemplars in metrics, see C45; the values of arrays and key-value lists, exemplars, points of exponential histograms and answers must have all of theirs).",
 ["inputs"], "the messages of all spans, log records and metrics of C43 to C45's enumerations, all values nested to depth 3 (5), all answers; each as written, laid out differently, with unknown members and without defaults",
 "the tests read back a few hand-written texts",
 ["opentelemetry-proto/src/proto.rs", "opentelemetry-proto/src/proto/tonic"], [("serializers", "opentelemetry-proto/src/proto.rs"), ("serde attributes", "opentelemetry-proto/src/proto/tonic/*.rs")], ["wire"])
prop("C57", "Ids, keys, values and scopes are the same however they are written and stored",
 "Trace and span ids survive conversion to and from bytes and hexadecimal in either case, and only hexadecimal texts that fit are read as ids; trace flags behave as a set of bits; a span context is valid exactly when both ids are nonzero. A key or text is equal, ordered and hashed by its content alone, whether static, owned or shared, and is found by its text in maps. A value keeps its type and content in every conversion and has one text form; attributes are equal exactly when key, type and content are (NaN aside), scopes exactly when name, version, schema URL and attributes in any order are, and equals have equal hashes.",
 ["inputs"], "all ids with one byte of any value or one bit set or clear; all texts up to length 3 (4) over 21 characters as ids; all pairs of flags; all pairs of texts up to length 2 (3) in all representations; all pairs of values of all types with arrays to length 2 (3); all pairs of 837 (more) scopes",
 "tests try three ids and a few values; hashing and equality across representations and types are sampled",
 [f"{API}/trace_context.rs", f"{API}/trace/span_context.rs", f"{API}/common.rs", f"{API}/logs/record.rs"], [("TraceId / SpanId / TraceFlags", f"{API}/trace_context.rs"), ("OtelString, KeyValue and InstrumentationScope Eq / Hash", f"{API}/common.rs")], ["api"])
prop("C58", "Without an SDK the API does nothing and passes the context on",
 "As long as no SDK is installed, a span started from any tracer is not recording and has exactly the span context of its parent (the current or the given context, local or remote, valid or not), whatever is done to it or set on its builder; making it current, in_span and detaching keep the current context right, and injecting it sends on the trace that came in. No instrument of any kind or name fails, and no callback is kept or called; loggers are disabled; the propagator writes nothing and returns the context it is given.",
 ["histories", "inputs"], "all histories of remote parents, spans, contexts, attaching and detaching up to depth 4 to 5 (5 to 7) with each of six ways to get a tracer; all kinds of instruments with valid and invalid names; all combinations of given and current contexts",
 "tests try a handful of contexts",
 [f"{API}/trace/noop.rs", f"{API}/metrics/noop.rs", f"{API}/logs/noop.rs", f"{API}/global/trace.rs", f"{API}/global/propagation.rs", f"{API}/trace/context.rs"], [("NoopTracer / NoopSpan / NoopTextMapPropagator", f"{API}/trace/noop.rs"), ("BoxedTracer / BoxedSpan", f"{API}/global/trace.rs")], ["api"])

CLAIMED = json.load(open(f"{V}/bin/claimed.json"))

def main():
    with open(f"{V}/properties.jsonl", "w") as f:
        for p in P:
            anchors = {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}
            if p["observe"]: anchors["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] in CLAIMED:
            t = p["technique"] or (" + ".join([MC] * ("mc" in p["engines"]) + [SEQ] * any(e != "mc" for e in p["engines"])))
            n = p["note"] or (" ".join([MCN] * ("mc" in p["engines"]) + [SEQN] * any(e != "mc" for e in p["engines"])))
            checks.append({"property": p["id"], "quick_cmd": f"bin/check {p['id']} quick", "thorough_cmd": f"bin/check {p['id']} thorough",
                           "technique": t, "level": p["level"], "level_note": n})
        else:
            na.append({"property": p["id"], "reason": p["na"] or "no check registered yet (under construction)"})
    json.dump({"version": 1, "setup_cmd": "bin/setup.sh", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: the controlled scheduler is injected at compile time by replacing the crate `std` (see DESIGN.md)."},
              open(f"{V}/MANIFEST.json", "w"), indent=1)
    json.dump({"properties": {p["id"]: {"engines": p["engines"], "level": p["level"], **({"rule": p["rule"]} if p["rule"] else {}), "assumptions": p["assumptions"]} for p in P},
               "assumptions": {"mc": ["sequentially consistent memory", "thread switches only at synchronisation operations, time and exporter calls (no data races: the crates under test are safe Rust)"],
                               **{e: ["values outside the stated alphabet are not covered"] for e in ("api", "sdk", "met", "wire", "prom", "bridge", "bridges", "sout")}}},
              open(f"{V}/bin/engines.json", "w"), indent=1)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
main()
