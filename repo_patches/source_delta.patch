From 7eb2e16df035cf2e3855ea18abc2dfadb0635f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 01/55] fix: BatchSpanProcessor exports every queued span on
 flush and shutdown, not only one batch

---
 opentelemetry-sdk/src/trace/span_processor.rs | 36 ++++++++++++-------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 595099e..e63c568 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -445,8 +445,9 @@ impl BatchSpanProcessor {
         }
     }
 
-    // This method gets upto `max_export_batch_size` amount of spans from the channel and exports them.
-    // It returns the result of the export operation.
+    // This method exports the spans that are in the channel when it is called, in batches of at most
+    // `max_export_batch_size` spans, one batch after the other.
+    // It returns the result of the export operations: the first error, if any export failed.
     // It expects the span vec to be empty when it's called.
     #[inline]
     fn get_spans_and_export<E>(
@@ -460,19 +461,30 @@ impl BatchSpanProcessor {
     where
         E: SpanExporter + Send + Sync + 'static,
     {
-        // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
-        while let Ok(span) = spans_receiver.try_recv() {
-            spans.push(span);
-            if spans.len() == config.max_export_batch_size {
-                break;
+        // `target` bounds the work done here: spans ended while exporting are left to the next call.
+        let target = current_batch_size.load(Ordering::Relaxed);
+        let mut total_exported_spans: usize = 0;
+        let mut result = OTelSdkResult::Ok(());
+
+        loop {
+            // Get upto `max_export_batch_size` amount of spans from the channel and push them to the span vec
+            while let Ok(span) = spans_receiver.try_recv() {
+                spans.push(span);
+                if spans.len() == config.max_export_batch_size {
+                    break;
+                }
             }
-        }
 
-        let count_of_spans = spans.len(); // Count of spans that will be exported
-        let result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            let count_of_spans = spans.len(); // Count of spans that will be exported
+            let export_result = Self::export_batch_sync(exporter, spans, last_export_time); // This method clears the spans vec after exporting
+            result = result.and(export_result);
 
-        current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
-        result
+            current_batch_size.fetch_sub(count_of_spans, Ordering::Relaxed);
+            total_exported_spans += count_of_spans;
+            if count_of_spans == 0 || total_exported_spans >= target {
+                return result;
+            }
+        }
     }
 
     #[allow(clippy::vec_box)]
-- 
2.43.0


From e364cfb4e72aa9162e02748a5d2ca67fe9a87a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 02/55] fix: BatchSpanProcessor shuts its exporter down on
 shutdown

---
 opentelemetry-sdk/src/trace/span_processor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index e63c568..667fa44 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -373,7 +373,7 @@ impl BatchSpanProcessor {
                                     &current_batch_size,
                                     &config,
                                 );
-                                let _ = sender.send(result);
+                                let _ = sender.send(result.and(exporter.shutdown()));
 
                                 otel_debug!(
                                     name: "BatchSpanProcessor.ThreadExiting",
-- 
2.43.0


From 6778a1cdc0d2bfc448381c55a8071833f50362ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:24 +0000
Subject: [PATCH 03/55] fix: BatchSpanProcessor counts exactly the spans in its
 queue

---
 opentelemetry-sdk/src/trace/span_processor.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 667fa44..42e32f3 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -534,20 +534,24 @@ impl SpanProcessor for BatchSpanProcessor {
             );
             return;
         }
+        // Count the span before queueing it, so that the worker never subtracts a span that is not counted yet.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self.span_sender.try_send(span);
 
         if result.is_err() {
+            // The span was not queued.
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
             // Increment dropped span count. The first time we have to drop a span,
             // emit a warning.
             if self.dropped_span_count.fetch_add(1, Ordering::Relaxed) == 0 {
                 otel_warn!(name: "BatchSpanProcessor.SpanDroppingStarted",
                     message = "BatchSpanProcessor dropped a Span due to queue full/internal errors. No further internal log will be emitted for further drops until Shutdown. During Shutdown time, a log will be emitted with exact count of total Spans dropped.");
             }
+            return;
         }
         // At this point, sending the span to the data channel was successful.
-        // Increment the current batch size and check if it has reached the max export batch size.
-        if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1 >= self.max_export_batch_size
-        {
+        // Check if the current batch size has reached the max export batch size.
+        if batch_size >= self.max_export_batch_size {
             // Check if the a control message for exporting spans is already sent to the worker thread.
             // If not, send a control message to export spans.
             // `export_span_message_sent` is set to false ONLY when the worker thread has processed the control message.
-- 
2.43.0


From 966e5efc421eea3d35fa5f670a0cb7befece83fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 04/55] fix: BatchLogProcessor counts a log record before
 queueing it

---
 .../src/logs/batch_log_processor.rs           | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index 7f37914..d0bd88f 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -154,19 +154,24 @@ impl Debug for BatchLogProcessor {
 
 impl LogProcessor for BatchLogProcessor {
     fn emit(&self, record: &mut SdkLogRecord, instrumentation: &InstrumentationScope) {
+        // Count the log record before queueing it, so that the worker never
+        // subtracts a log record that is not counted yet.
+        let batch_size = self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1;
         let result = self
             .logs_sender
             .try_send(Box::new((record.clone(), instrumentation.clone())));
+        if result.is_err() {
+            // The log record was not queued.
+            self.current_batch_size.fetch_sub(1, Ordering::Relaxed);
+        }
 
         // match for result and handle each separately
         match result {
             Ok(_) => {
                 // Successfully sent the log record to the data channel.
-                // Increment the current batch size and check if it has reached
-                // the max export batch size.
-                if self.current_batch_size.fetch_add(1, Ordering::Relaxed) + 1
-                    >= self.max_export_batch_size
-                {
+                // Check if the current batch size has reached the max export
+                // batch size.
+                if batch_size >= self.max_export_batch_size {
                     // Check if the a control message for exporting logs is
                     // already sent to the worker thread. If not, send a control
                     // message to export logs. `export_log_message_sent` is set
@@ -382,6 +387,10 @@ impl BatchLogProcessor {
                         }
 
                         let count_of_logs = logs.len(); // Count of logs that will be exported
+                        if count_of_logs == 0 {
+                            // The remaining log records are counted, but not queued yet.
+                            break;
+                        }
                         total_exported_logs += count_of_logs;
 
                         result = export_batch_sync(exporter, logs, last_export_time); // This method clears the logs vec after exporting
-- 
2.43.0


From 46d62c7363387fdd396e896af6ce73a05798d5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:41 +0000
Subject: [PATCH 05/55] fix: BatchLogProcessor shutdown reports the failure of
 its final export

---
 opentelemetry-sdk/src/logs/batch_log_processor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/batch_log_processor.rs b/opentelemetry-sdk/src/logs/batch_log_processor.rs
index d0bd88f..82262a6 100644
--- a/opentelemetry-sdk/src/logs/batch_log_processor.rs
+++ b/opentelemetry-sdk/src/logs/batch_log_processor.rs
@@ -278,13 +278,13 @@ impl LogProcessor for BatchLogProcessor {
             Ok(_) => {
                 receiver
                     .recv_timeout(self.shutdown_timeout)
-                    .map(|_| {
+                    .map(|result| {
                         // join the background thread after receiving back the
                         // shutdown signal
                         if let Some(handle) = self.handle.lock().unwrap().take() {
                             handle.join().unwrap();
                         }
-                        OTelSdkResult::Ok(())
+                        result
                     })
                     .map_err(|err| match err {
                         RecvTimeoutError::Timeout => {
-- 
2.43.0


From 2f8d18415d91075117942a3af022366ffbbdd53e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 06/55] fix: delta collection never reports an attribute-free
 point without a measurement

A measurement without attributes updated its tracker and set the 'has value'
flag in two separate steps. A delta collection between them consumed the
value, and the flag set afterwards produced an empty point (a gauge value of
0 that was never recorded, a histogram with count 0) in the next interval.
---
 opentelemetry-sdk/src/metrics/internal/mod.rs | 23 +++++++++++--------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index 9ca9de2..4b21aeb 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -101,16 +101,19 @@ where
     }
 
     fn measure(&self, value: A::PreComputedValue, attributes: &[KeyValue]) {
+        let Ok(trackers) = self.trackers.read() else {
+            return;
+        };
+
         if attributes.is_empty() {
+            // Both steps happen under the read lock, so that `collect_and_reset`
+            // never sees the value without the flag (it would then report an
+            // empty data point in the next interval).
             self.no_attribute_tracker.update(value);
             self.has_no_attribute_value.store(true, Ordering::Release);
             return;
         }
 
-        let Ok(trackers) = self.trackers.read() else {
-            return;
-        };
-
         // Try to retrieve and update the tracker with the attributes in the provided order first
         if let Some(tracker) = trackers.get(attributes) {
             tracker.update(value);
@@ -185,15 +188,15 @@ where
         MapFn: FnMut(Vec<KeyValue>, A) -> Res,
     {
         prepare_data(dest, self.count.load(Ordering::SeqCst));
-        if self.has_no_attribute_value.swap(false, Ordering::AcqRel) {
-            dest.push(map_fn(
-                vec![],
-                self.no_attribute_tracker.clone_and_reset(&self.config),
-            ));
-        }
 
         if let Ok(mut trackers_collect) = self.trackers_for_collect().write() {
             if let Ok(mut trackers_current) = self.trackers.write() {
+                if self.has_no_attribute_value.swap(false, Ordering::AcqRel) {
+                    dest.push(map_fn(
+                        vec![],
+                        self.no_attribute_tracker.clone_and_reset(&self.config),
+                    ));
+                }
                 swap(trackers_collect.deref_mut(), trackers_current.deref_mut());
                 self.count.store(0, Ordering::SeqCst);
             } else {
-- 
2.43.0


From 9f6848268cb1170ac47e753989c431b7abab078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:37 +0000
Subject: [PATCH 07/55] fix: views that choose no aggregation keep the
 boundaries advised by the instrument

---
 opentelemetry-sdk/src/metrics/pipeline.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 05d2861..89076d9 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -267,12 +267,23 @@ where
         // The cache will return the same Aggregator instance. Use stream ids to de duplicate.
         let mut seen = HashSet::new();
         for v in &self.pipeline.views {
-            let stream = match v.match_inst(&inst) {
+            let mut stream = match v.match_inst(&inst) {
                 Some(stream) => stream,
                 None => continue,
             };
             matched = true;
 
+            // A view that does not choose an aggregation keeps the default one,
+            // which takes the boundaries advised by the instrument into account.
+            if let (None | Some(Aggregation::Default), Some(boundaries)) =
+                (&stream.aggregation, boundaries)
+            {
+                stream.aggregation = Some(Aggregation::ExplicitBucketHistogram {
+                    boundaries: boundaries.to_vec(),
+                    record_min_max: true,
+                });
+            }
+
             let id = self.inst_id(kind, &stream);
             if seen.contains(&id) {
                 continue; // This aggregator has already been added
-- 
2.43.0


From c40bdffb61e7ebb3b84ba66601155ef9079bd86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 08/55] fix: processors and readers on an async runtime export
 at their first interval, not their second

---
 opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs   | 1 -
 .../src/metrics/periodic_reader_with_async_runtime.rs            | 1 -
 opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs | 1 -
 3 files changed, 3 deletions(-)

diff --git a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
index 961fa99..f919424 100644
--- a/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/logs/log_processor_with_async_runtime.rs
@@ -130,7 +130,6 @@ impl<R: RuntimeChannel> BatchLogProcessor<R> {
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
-                .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
                 .map(|_| BatchMessage::Flush(None));
 
             let timeout_runtime = inner_runtime.clone();
diff --git a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
index 03e0230..dcdfa83 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
@@ -113,7 +113,6 @@ where
             let reader = reader.clone();
             self.runtime.spawn(async move {
                 let ticker = to_interval_stream(runtime.clone(), self.interval)
-                    .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
                     .map(|_| Message::Export);
                 let messages = Box::pin(stream::select(message_receiver, ticker));
                 PeriodicReaderWorker {
diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index cb4d2fc..c52eca4 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -357,7 +357,6 @@ impl<R: RuntimeChannel> BatchSpanProcessor<R> {
             // Timer will take a reference to the current runtime, so its important we do this within the
             // runtime.spawn()
             let ticker = to_interval_stream(inner_runtime.clone(), config.scheduled_delay)
-                .skip(1) // The ticker is fired immediately, so we should skip the first one to align with the interval.
                 .map(|_| BatchMessage::Flush(None));
             let timeout_runtime = inner_runtime.clone();
 
-- 
2.43.0


From 2190d0cd5298f1f6e8dd6ce8eeab7509515897e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:16 +0000
Subject: [PATCH 09/55] fix: async BatchSpanProcessor reports shutdown only
 after its exporter is shut down

---
 .../src/trace/span_processor_with_async_runtime.rs   | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
index c52eca4..413d3b4 100644
--- a/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/trace/span_processor_with_async_runtime.rs
@@ -286,8 +286,16 @@ impl<E: SpanExporter, R: RuntimeChannel> BatchSpanProcessorInternal<E, R> {
             }
             // Stream has terminated or processor is shutdown, return to finish execution.
             BatchMessage::Shutdown(ch) => {
-                self.flush(Some(ch)).await;
-                let _ = self.exporter.shutdown();
+                let export_result = self.export().await;
+                while self.export_tasks.next().await.is_some() {}
+                let shutdown_result = self.exporter.shutdown();
+                // Only report completion once the exporter has been shut down.
+                if let Err(result) = ch.send(export_result.and(shutdown_result)) {
+                    otel_debug!(
+                        name: "BatchSpanProcessor.Shutdown.SendResultError",
+                        reason = format!("{:?}", result)
+                    );
+                }
                 return false;
             }
             // propagate the resource
-- 
2.43.0


From e20c6e71b4ed85b31c1211d1f2107380ecf028fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:42 +0000
Subject: [PATCH 10/55] fix: the last error status set on a span wins whatever
 its description

---
 opentelemetry-sdk/src/trace/span.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span.rs b/opentelemetry-sdk/src/trace/span.rs
index 9cb8b88..dbb50ef 100644
--- a/opentelemetry-sdk/src/trace/span.rs
+++ b/opentelemetry-sdk/src/trace/span.rs
@@ -150,9 +150,9 @@ impl opentelemetry::trace::Span for Span {
     /// If used, this will override the default span status, which is [`Status::Unset`].
     fn set_status(&mut self, status: Status) {
         self.with_data(|data| {
-            // check if we should update the status
-            // These values form a total order: Ok > Error > Unset.
-            if status > data.status {
+            // check if we should update the status: Ok is final, Unset never replaces anything,
+            // and otherwise the last call wins, whatever the descriptions of the errors.
+            if data.status != Status::Ok && status != Status::Unset {
                 data.status = status;
             }
         });
-- 
2.43.0


From 62734c91b5e27014df48bff11e6eb64f5d9a025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:39 +0000
Subject: [PATCH 11/55] fix: dropping a context guard never drops the context
 while the stack is borrowed

---
 opentelemetry/src/context.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/opentelemetry/src/context.rs b/opentelemetry/src/context.rs
index ecad94d..d1ef260 100644
--- a/opentelemetry/src/context.rs
+++ b/opentelemetry/src/context.rs
@@ -464,7 +464,11 @@ impl Drop for ContextGuard {
     fn drop(&mut self) {
         let id = self.cx_pos;
         if id > ContextStack::BASE_POS && id < ContextStack::MAX_POS {
-            CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+            // Dropping the popped context may end a span and run arbitrary code that uses the
+            // current context, so it must happen after the borrow of the stack has ended.
+            let popped =
+                CURRENT_CONTEXT.with(|context_stack| context_stack.borrow_mut().pop_id(id));
+            drop(popped);
         }
     }
 }
@@ -543,7 +547,7 @@ impl ContextStack {
     }
 
     #[inline(always)]
-    fn pop_id(&mut self, pos: u16) {
+    fn pop_id(&mut self, pos: u16) -> Option<Context> {
         if pos == ContextStack::BASE_POS || pos == ContextStack::MAX_POS {
             // The empty context is always at the bottom of the [`ContextStack`]
             // and cannot be popped, and the overflow position is invalid, so do
@@ -557,7 +561,7 @@ impl ContextStack {
                     "Attempted to pop the overflow position which is not allowed"
                 }
             );
-            return;
+            return None;
         }
         let len: u16 = self.stack.len() as u16;
         // Are we at the top of the [`ContextStack`]?
@@ -570,7 +574,9 @@ impl ContextStack {
             // empty context is always at the bottom of the stack if the
             // [`ContextStack`] is not empty.
             if let Some(Some(next_cx)) = self.stack.pop() {
-                self.current_cx = next_cx;
+                Some(std::mem::replace(&mut self.current_cx, next_cx))
+            } else {
+                None
             }
         } else {
             // This is an out of order pop.
@@ -582,10 +588,10 @@ impl ContextStack {
                     stack_length = len,
                     message = "Attempted to pop beyond the end of the context stack"
                 );
-                return;
+                return None;
             }
             // Clear out the entry at the given id.
-            _ = self.stack[pos as usize].take();
+            self.stack[pos as usize].take()
         }
     }
 
-- 
2.43.0


From 2d63a979947d6c10ef2a6ce299a63b63f2bd0640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 12/55] fix: baggage removal gives its size back and clearing
 clears the baggage

remove() did not subtract the entry's size, so the total-length limit was
hit early after removals; with_cleared_baggage stored a value baggage() never
reads, so the inherited baggage stayed visible.
---
 opentelemetry/src/baggage.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/baggage.rs b/opentelemetry/src/baggage.rs
index f38d817..05260ec 100644
--- a/opentelemetry/src/baggage.rs
+++ b/opentelemetry/src/baggage.rs
@@ -208,7 +208,10 @@ impl Baggage {
     /// Removes a name from the baggage, returning the value
     /// corresponding to the name if the pair was previously in the map.
     pub fn remove<K: AsRef<str>>(&mut self, key: K) -> Option<(StringValue, BaggageMetadata)> {
-        self.inner.remove(key.as_ref())
+        let (key, pair) = self.inner.remove_entry(key.as_ref())?;
+        self.kv_content_len -=
+            key_value_metadata_bytes_size(key.as_str(), pair.0.as_str(), pair.1.as_str());
+        Some(pair)
     }
 
     /// Returns the number of attributes for this baggage
@@ -412,7 +415,7 @@ impl BaggageExt for Context {
     }
 
     fn with_cleared_baggage(&self) -> Self {
-        self.with_value(Baggage::new())
+        self.with_value(BaggageContextValue(Baggage::new()))
     }
 
     fn baggage(&self) -> &Baggage {
-- 
2.43.0


From fd81a9905cc885445d38f63356b8306e2390967d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:20 +0000
Subject: [PATCH 13/55] fix: baggage values and metadata survive injection and
 extraction

A percent sign in a value was not encoded, metadata was not encoded although
it is decoded on extraction, values were trimmed, and a value containing '='
was cut at it.
---
 opentelemetry-sdk/src/propagation/baggage.rs | 32 ++++++++++++--------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/baggage.rs b/opentelemetry-sdk/src/propagation/baggage.rs
index 78bb81a..09bf735 100644
--- a/opentelemetry-sdk/src/propagation/baggage.rs
+++ b/opentelemetry-sdk/src/propagation/baggage.rs
@@ -9,7 +9,15 @@ use std::iter;
 use std::sync::OnceLock;
 
 static BAGGAGE_HEADER: &str = "baggage";
-const FRAGMENT: &AsciiSet = &CONTROLS.add(b' ').add(b'"').add(b';').add(b',').add(b'=');
+const FRAGMENT: &AsciiSet = &CONTROLS
+    .add(b' ')
+    .add(b'"')
+    .add(b'%')
+    .add(b';')
+    .add(b',')
+    .add(b'=');
+// Metadata is a list of properties: `;` and `=` are part of its syntax.
+const METADATA_FRAGMENT: &AsciiSet = &CONTROLS.add(b'%').add(b',');
 
 // TODO Replace this with LazyLock once it is stable.
 static BAGGAGE_FIELDS: OnceLock<[String; 1]> = OnceLock::new();
@@ -87,9 +95,9 @@ impl TextMapPropagator for BaggagePropagator {
                     let metadata_prefix = if metadata_str.is_empty() { "" } else { ";" };
                     utf8_percent_encode(name.as_str().trim(), FRAGMENT)
                         .chain(iter::once("="))
-                        .chain(utf8_percent_encode(value.as_str().trim(), FRAGMENT))
+                        .chain(utf8_percent_encode(value.as_str(), FRAGMENT))
                         .chain(iter::once(metadata_prefix))
-                        .chain(iter::once(metadata_str))
+                        .chain(utf8_percent_encode(metadata_str, METADATA_FRAGMENT))
                         .collect()
                 })
                 .collect::<Vec<String>>()
@@ -107,24 +115,24 @@ impl TextMapPropagator for BaggagePropagator {
                     .collect::<Vec<&str>>()
                     .split_first()
                 {
-                    let mut iter = name_and_value.split('=');
-                    if let (Some(name), Some(value)) = (iter.next(), iter.next()) {
-                        let decode_name = percent_decode_str(name).decode_utf8();
-                        let decode_value = percent_decode_str(value).decode_utf8();
+                    // Only the first `=` separates: a value may contain further ones.
+                    if let Some((name, value)) = name_and_value.split_once('=') {
+                        // White space around a name or value is not part of it, unless it is encoded.
+                        let decode_name = percent_decode_str(name.trim()).decode_utf8();
+                        let decode_value = percent_decode_str(value.trim()).decode_utf8();
 
                         if let (Ok(name), Ok(value)) = (decode_name, decode_value) {
                             // Here we don't store the first ; into baggage since it should be treated
                             // as separator rather part of metadata
                             let decoded_props = props
                                 .iter()
-                                .flat_map(|prop| percent_decode_str(prop).decode_utf8())
-                                .map(|prop| prop.trim().to_string())
-                                .collect::<Vec<String>>()
+                                .flat_map(|prop| percent_decode_str(prop.trim()).decode_utf8())
+                                .collect::<Vec<_>>()
                                 .join(";"); // join with ; because we deleted all ; when calling split above
 
                             Some(KeyValueMetadata::new(
-                                name.trim().to_owned(),
-                                value.trim().to_string(),
+                                name.into_owned(),
+                                value.into_owned(),
                                 decoded_props.as_str(),
                             ))
                         } else {
-- 
2.43.0


From d3ff74bc8e9e2b464b126b26d3042c206c67b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 14/55] fix: a plus sign is not a hex digit of a trace or span
 id

---
 opentelemetry/src/trace_context.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/trace_context.rs b/opentelemetry/src/trace_context.rs
index 78f59a9..bfb841b 100644
--- a/opentelemetry/src/trace_context.rs
+++ b/opentelemetry/src/trace_context.rs
@@ -120,7 +120,9 @@ impl TraceId {
     /// assert!(TraceId::from_hex("not_hex").is_err());
     /// ```
     pub fn from_hex(hex: &str) -> Result<Self, ParseIntError> {
-        u128::from_str_radix(hex, 16).map(TraceId)
+        // `from_str_radix` accepts a leading sign, which is not a hex digit.
+        let digits = if hex.starts_with('+') { "+" } else { hex };
+        u128::from_str_radix(digits, 16).map(TraceId)
     }
 }
 
@@ -181,7 +183,9 @@ impl SpanId {
     /// assert!(SpanId::from_hex("not_hex").is_err());
     /// ```
     pub fn from_hex(hex: &str) -> Result<Self, ParseIntError> {
-        u64::from_str_radix(hex, 16).map(SpanId)
+        // `from_str_radix` accepts a leading sign, which is not a hex digit.
+        let digits = if hex.starts_with('+') { "+" } else { hex };
+        u64::from_str_radix(digits, 16).map(SpanId)
     }
 }
 
-- 
2.43.0


From 1b4b854dd8f040daabaa2ad8c8723e063e73ce7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 15/55] fix: TraceState validates keys and values as the W3C
 grammar says

Empty keys, values with control or non-ASCII characters or a trailing blank,
and members such as a==b were accepted; a 14 character system id and optional
white space around members were rejected; deleting the last entry gave a
state that differs from NONE.
---
 opentelemetry/src/trace/span_context.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/opentelemetry/src/trace/span_context.rs b/opentelemetry/src/trace/span_context.rs
index 95863cd..c8048ac 100644
--- a/opentelemetry/src/trace/span_context.rs
+++ b/opentelemetry/src/trace/span_context.rs
@@ -22,7 +22,7 @@ impl TraceState {
     ///
     /// [W3 Spec]: https://www.w3.org/TR/trace-context/#key
     fn valid_key(key: &str) -> bool {
-        if key.len() > 256 {
+        if key.is_empty() || key.len() > 256 {
             return false;
         }
 
@@ -36,7 +36,7 @@ impl TraceState {
             if i == 0 && (!b.is_ascii_lowercase() && !b.is_ascii_digit()) {
                 return false;
             } else if b == b'@' {
-                if vendor_start.is_some() || i + 14 < key.len() {
+                if vendor_start.is_some() || i + 15 < key.len() {
                     return false;
                 }
                 vendor_start = Some(i);
@@ -58,7 +58,10 @@ impl TraceState {
             return false;
         }
 
-        !(value.contains(',') || value.contains('='))
+        !value.ends_with(' ')
+            && value
+                .bytes()
+                .all(|b| matches!(b, 0x20..=0x7e) && b != b',' && b != b'=')
     }
 
     /// Creates a new `TraceState` from the given key-value collection.
@@ -165,6 +168,9 @@ impl TraceState {
             if let Some(index) = kvs.iter().position(|x| x.0 == key) {
                 kvs.remove(index);
             }
+            if kvs.is_empty() {
+                owned.0 = None;
+            }
         }
         owned
     }
@@ -197,13 +203,11 @@ impl FromStr for TraceState {
         let mut key_value_pairs: Vec<(String, String)> = Vec::with_capacity(list_members.len());
 
         for list_member in list_members {
-            match list_member.find('=') {
+            // List members may be surrounded by optional white space.
+            let list_member = list_member.trim_matches([' ', '\t']);
+            match list_member.split_once('=') {
                 None => return Err(TraceStateError::List(list_member.to_string())),
-                Some(separator_index) => {
-                    let (key, value) = list_member.split_at(separator_index);
-                    key_value_pairs
-                        .push((key.to_string(), value.trim_start_matches('=').to_string()));
-                }
+                Some((key, value)) => key_value_pairs.push((key.to_string(), value.to_string())),
             }
         }
 
-- 
2.43.0


From 21fbdb04c42fe1d4d93b029c9f47c434012f2db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 16/55] fix: traceparent fields of the wrong length or case are
 rejected

---
 .../src/propagation/trace_context.rs          | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/propagation/trace_context.rs b/opentelemetry-sdk/src/propagation/trace_context.rs
index 2a6d53e..6cfdd0e 100644
--- a/opentelemetry-sdk/src/propagation/trace_context.rs
+++ b/opentelemetry-sdk/src/propagation/trace_context.rs
@@ -68,25 +68,27 @@ impl TraceContextPropagator {
             return Err(());
         }
 
-        // Ensure version is within range, for version 0 there must be 4 parts.
-        let version = u8::from_str_radix(parts[0], 16).map_err(|_| ())?;
-        if version > MAX_VERSION || version == 0 && parts.len() != 4 {
+        // Every field has a fixed length and is lower case hex.
+        let fixed_hex = |part: &str, len: usize| {
+            part.len() == len && part.bytes().all(|b| matches!(b, b'0'..=b'9' | b'a'..=b'f'))
+        };
+        if !(fixed_hex(parts[0], 2)
+            && fixed_hex(parts[1], 32)
+            && fixed_hex(parts[2], 16)
+            && fixed_hex(parts[3], 2))
+        {
             return Err(());
         }
 
-        // Ensure trace id is lowercase
-        if parts[1].chars().any(|c| c.is_ascii_uppercase()) {
+        // Ensure version is within range, for version 0 there must be 4 parts.
+        let version = u8::from_str_radix(parts[0], 16).map_err(|_| ())?;
+        if version > MAX_VERSION || version == 0 && parts.len() != 4 {
             return Err(());
         }
 
         // Parse trace id section
         let trace_id = TraceId::from_hex(parts[1]).map_err(|_| ())?;
 
-        // Ensure span id is lowercase
-        if parts[2].chars().any(|c| c.is_ascii_uppercase()) {
-            return Err(());
-        }
-
         // Parse span id section
         let span_id = SpanId::from_hex(parts[2]).map_err(|_| ())?;
 
-- 
2.43.0


From 48205986ca0dfeb25f79eeffbdd2a1dbdfd1459f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 17/55] fix: Jaeger headers with zero ids, a signed flag or a
 fifth part are rejected

Also declare the trimmed custom header name, which is the one that is written.
---
 opentelemetry-jaeger-propagator/src/propagator.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-jaeger-propagator/src/propagator.rs b/opentelemetry-jaeger-propagator/src/propagator.rs
index dfbbf3b..4a0dcf0 100644
--- a/opentelemetry-jaeger-propagator/src/propagator.rs
+++ b/opentelemetry-jaeger-propagator/src/propagator.rs
@@ -67,7 +67,7 @@ impl Propagator {
         Propagator {
             baggage_prefix: custom_baggage_prefix.trim(),
             header_name: custom_header_name.trim(),
-            fields: [custom_header_name.to_owned()],
+            fields: [custom_header_name.trim().to_owned()],
         }
     }
 
@@ -79,7 +79,7 @@ impl Propagator {
             header_value = Cow::from(header_value.replace("%3A", ":"));
         }
 
-        let parts = header_value.split_terminator(':').collect::<Vec<&str>>();
+        let parts = header_value.split(':').collect::<Vec<&str>>();
         if parts.len() != 4 {
             otel_warn!(
                 name: "JaegerPropagator.InvalidHeader",
@@ -144,6 +144,10 @@ impl Propagator {
         if flag.len() > 2 {
             return Err(());
         }
+        // `from_str` accepts a leading sign, which is not a digit.
+        if flag.starts_with('+') {
+            return Err(());
+        }
         let flag = u8::from_str(flag).map_err(|_| ())?;
         if flag & 0x01 == 0x01 {
             if flag & 0x02 == 0x02 {
@@ -210,6 +214,7 @@ impl TextMapPropagator for Propagator {
 
     fn extract_with_context(&self, cx: &Context, extractor: &dyn Extractor) -> Context {
         self.extract_span_context(extractor)
+            .filter(|sc| sc.is_valid())
             .map(|sc| cx.with_remote_span_context(sc))
             .unwrap_or_else(|| cx.clone())
     }
-- 
2.43.0


From 8113e801622cd5ffa2a4f3321f40e56deccdbaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:11 +0000
Subject: [PATCH 18/55] fix: B3 single encoding writes one header; x-b3-flags 0
 leaves x-b3-sampled in force

A single header with a trailing dash is malformed.
---
 opentelemetry-zipkin/src/propagator/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-zipkin/src/propagator/mod.rs b/opentelemetry-zipkin/src/propagator/mod.rs
index c91d0cd..cc055ee 100644
--- a/opentelemetry-zipkin/src/propagator/mod.rs
+++ b/opentelemetry-zipkin/src/propagator/mod.rs
@@ -141,7 +141,6 @@ impl Propagator {
 
     fn extract_debug_flag(&self, debug: &str) -> Result<TraceFlags, ()> {
         match debug {
-            "0" => Ok(TraceFlags::default()),
             "1" => Ok(TRACE_FLAG_DEBUG | TraceFlags::SAMPLED), // debug implies sampled
             _ => Err(()),
         }
@@ -150,7 +149,7 @@ impl Propagator {
     /// Extract a `SpanContext` from a single B3 header.
     fn extract_single_header(&self, extractor: &dyn Extractor) -> Result<SpanContext, ()> {
         let header_value = extractor.get(B3_SINGLE_HEADER).unwrap_or("");
-        let parts = header_value.split_terminator('-').collect::<Vec<&str>>();
+        let parts = header_value.split('-').collect::<Vec<&str>>();
         // Ensure length is within range.
         if parts.len() > 4 || parts.len() < 2 {
             return Err(());
@@ -243,7 +242,7 @@ impl TextMapPropagator for Propagator {
                 injector.set(B3_SINGLE_HEADER, value);
             }
             if self.inject_encoding.support(&B3Encoding::MultipleHeader)
-                || self.inject_encoding.support(&B3Encoding::UnSpecified)
+                || matches!(self.inject_encoding, B3Encoding::UnSpecified)
             {
                 // if inject_encoding is Unspecified, default to use MultipleHeader
                 injector.set(B3_TRACE_ID_HEADER, span_context.trace_id().to_string());
@@ -262,7 +261,7 @@ impl TextMapPropagator for Propagator {
                 injector.set(B3_SINGLE_HEADER, flag.to_string())
             }
             if self.inject_encoding.support(&B3Encoding::MultipleHeader)
-                || self.inject_encoding.support(&B3Encoding::UnSpecified)
+                || matches!(self.inject_encoding, B3Encoding::UnSpecified)
             {
                 injector.set(B3_SAMPLED_HEADER, flag.to_string())
             }
-- 
2.43.0


From 97754090c644c8d6301a3f312ac9d045e270424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:53 +0000
Subject: [PATCH 19/55] fix: a span under an invalid parent starts a new trace
 instead of one with zero ids

---
 opentelemetry-sdk/src/trace/tracer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/tracer.rs b/opentelemetry-sdk/src/trace/tracer.rs
index 40e55fd..8578097 100644
--- a/opentelemetry-sdk/src/trace/tracer.rs
+++ b/opentelemetry-sdk/src/trace/tracer.rs
@@ -206,7 +206,8 @@ impl opentelemetry::trace::Tracer for SdkTracer {
         let trace_id;
         let mut psc = &SpanContext::empty_context();
 
-        let parent_span = if parent_cx.has_active_span() {
+        // A span whose context is invalid (e.g. a no-op or suppressed one) is no parent.
+        let parent_span = if parent_cx.span().span_context().is_valid() {
             Some(parent_cx.span())
         } else {
             None
@@ -237,7 +238,7 @@ impl opentelemetry::trace::Tracer for SdkTracer {
             )
         };
 
-        let trace_flags = parent_cx.span().span_context().trace_flags();
+        let trace_flags = psc.trace_flags();
         let trace_state = samplings_result.trace_state;
         let span_limits = config.span_limits;
         // Build optional inner context, `None` if not recording.
-- 
2.43.0


From 5c4897b5444edb97e62879ba0bea05028a772eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 20/55] fix: keep the schema URL of resource detectors

---
 opentelemetry-sdk/src/resource/mod.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/resource/mod.rs b/opentelemetry-sdk/src/resource/mod.rs
index bf6f43d..d2d4141 100644
--- a/opentelemetry-sdk/src/resource/mod.rs
+++ b/opentelemetry-sdk/src/resource/mod.rs
@@ -141,14 +141,8 @@ impl Resource {
     fn from_detectors(detectors: &[Box<dyn ResourceDetector>]) -> Self {
         let mut resource = Resource::empty();
         for detector in detectors {
-            let detected_res = detector.detect();
-            // This call ensures that if the Arc is not uniquely owned,
-            // the data is cloned before modification, preserving safety.
-            // If the Arc is uniquely owned, it simply returns a mutable reference to the data.
-            let inner = Arc::make_mut(&mut resource.inner);
-            for (key, value) in detected_res.into_iter() {
-                inner.attrs.insert(Key::new(key.clone()), value.clone());
-            }
+            // A later detector takes precedence, and its schema URL is kept.
+            resource = resource.merge(&detector.detect());
         }
 
         resource
-- 
2.43.0


From 6b996cd2a73df2c8ff01e36c207c5ac19b7e6fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:10 +0000
Subject: [PATCH 21/55] fix: let OTEL_SERVICE_NAME take precedence over
 OTEL_RESOURCE_ATTRIBUTES

---
 opentelemetry-sdk/src/resource/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/resource/mod.rs b/opentelemetry-sdk/src/resource/mod.rs
index d2d4141..3fd6233 100644
--- a/opentelemetry-sdk/src/resource/mod.rs
+++ b/opentelemetry-sdk/src/resource/mod.rs
@@ -62,9 +62,11 @@ impl Resource {
     pub fn builder() -> ResourceBuilder {
         ResourceBuilder {
             resource: Self::from_detectors(&[
-                Box::new(SdkProvidedResourceDetector),
                 Box::new(TelemetryResourceDetector),
                 Box::new(EnvResourceDetector::new()),
+                // Last, since `OTEL_SERVICE_NAME` takes precedence over a `service.name`
+                // in `OTEL_RESOURCE_ATTRIBUTES`.
+                Box::new(SdkProvidedResourceDetector),
             ]),
         }
     }
-- 
2.43.0


From 506509c5d5171112a46ee9f0aa35a673fbc3f730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 22/55] fix: a queue size set in code leaves the configured
 batch size of spans in force

---
 opentelemetry-sdk/src/trace/span_processor.rs | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/span_processor.rs b/opentelemetry-sdk/src/trace/span_processor.rs
index 42e32f3..cad48c8 100644
--- a/opentelemetry-sdk/src/trace/span_processor.rs
+++ b/opentelemetry-sdk/src/trace/span_processor.rs
@@ -850,12 +850,6 @@ impl BatchConfigBuilder {
             self.max_export_batch_size = max_export_batch_size;
         }
 
-        // max export batch size must be less or equal to max queue size.
-        // we set max export batch size to max queue size if it's larger than max queue size.
-        if self.max_export_batch_size > self.max_queue_size {
-            self.max_export_batch_size = self.max_queue_size;
-        }
-
         if let Some(max_export_timeout) = env::var(OTEL_BSP_EXPORT_TIMEOUT)
             .ok()
             .and_then(|timeout| u64::from_str(&timeout).ok())
-- 
2.43.0


From a2355c71646b14ad913cf4ac9c0a59ad99c28435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:58 +0000
Subject: [PATCH 23/55] fix: an export interval or timeout of zero in the
 environment means the default

---
 opentelemetry-sdk/src/metrics/periodic_reader.rs                | 1 +
 .../src/metrics/periodic_reader_with_async_runtime.rs           | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/opentelemetry-sdk/src/metrics/periodic_reader.rs b/opentelemetry-sdk/src/metrics/periodic_reader.rs
index 518a0cc..32b7706 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader.rs
@@ -40,6 +40,7 @@ where
         let interval = env::var(METRIC_EXPORT_INTERVAL_NAME)
             .ok()
             .and_then(|v| v.parse().map(Duration::from_millis).ok())
+            .filter(|v| !v.is_zero())
             .unwrap_or(DEFAULT_INTERVAL);
 
         PeriodicReaderBuilder { interval, exporter }
diff --git a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
index dcdfa83..6fd0783 100644
--- a/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
+++ b/opentelemetry-sdk/src/metrics/periodic_reader_with_async_runtime.rs
@@ -61,10 +61,12 @@ where
         let interval = env::var(METRIC_EXPORT_INTERVAL_NAME)
             .ok()
             .and_then(|v| v.parse().map(Duration::from_millis).ok())
+            .filter(|v| !v.is_zero())
             .unwrap_or(DEFAULT_INTERVAL);
         let timeout = env::var(METRIC_EXPORT_TIMEOUT_NAME)
             .ok()
             .and_then(|v| v.parse().map(Duration::from_millis).ok())
+            .filter(|v| !v.is_zero())
             .unwrap_or(DEFAULT_TIMEOUT);
 
         PeriodicReaderBuilder {
-- 
2.43.0


From a29ffba1a9d74a3826d50b4bb027c4a96a79452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 24/55] fix: report data points with their sorted and
 deduplicated attribute set

---
 opentelemetry-sdk/src/metrics/internal/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/mod.rs b/opentelemetry-sdk/src/metrics/internal/mod.rs
index 4b21aeb..8134d91 100644
--- a/opentelemetry-sdk/src/metrics/internal/mod.rs
+++ b/opentelemetry-sdk/src/metrics/internal/mod.rs
@@ -173,10 +173,12 @@ where
             return;
         };
 
+        // A tracker is stored under its attributes in more than one order, the
+        // sorted and deduplicated set is the one that identifies it.
         let mut seen = HashSet::new();
         for (attrs, tracker) in trackers.iter() {
             if seen.insert(Arc::as_ptr(tracker)) {
-                dest.push(map_fn(attrs.clone(), tracker));
+                dest.push(map_fn(sort_and_dedup(attrs), tracker));
             }
         }
     }
@@ -207,7 +209,10 @@ where
             let mut seen = HashSet::new();
             for (attrs, tracker) in trackers_collect.drain() {
                 if seen.insert(Arc::as_ptr(&tracker)) {
-                    dest.push(map_fn(attrs, tracker.clone_and_reset(&self.config)));
+                    dest.push(map_fn(
+                        sort_and_dedup(&attrs),
+                        tracker.clone_and_reset(&self.config),
+                    ));
                 }
             }
         } else {
-- 
2.43.0


From e76af353b07331b1587adb4af8a0e71ea5d1f3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 25/55] fix: do not overflow when downscaling an exponential
 histogram for distant values

---
 .../src/metrics/internal/exponential_histogram.rs     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
index 1a280a8..7e20161 100644
--- a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
@@ -147,15 +147,16 @@ fn scale_change(max_size: i32, bin: i32, start_bin: i32, length: i32) -> u32 {
         return 0;
     }
 
-    let mut low = start_bin;
-    let mut high = bin;
+    // At high scales the bins of two values can be further apart than an i32 can tell.
+    let mut low = i64::from(start_bin);
+    let mut high = i64::from(bin);
     if start_bin >= bin {
-        low = bin;
-        high = start_bin + length - 1;
+        low = i64::from(bin);
+        high = i64::from(start_bin) + i64::from(length) - 1;
     }
 
     let mut count = 0u32;
-    while high - low >= max_size {
+    while high - low >= i64::from(max_size) {
         low >>= 1;
         high >>= 1;
         count += 1;
-- 
2.43.0


From f8ab33e3f336346c2d416b481a64fff9f386ec13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 26/55] fix: a value an exponential histogram drops no longer
 counts in its summary

---
 .../metrics/internal/exponential_histogram.rs | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
index 7e20161..efc2d47 100644
--- a/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
+++ b/opentelemetry-sdk/src/metrics/internal/exponential_histogram.rs
@@ -51,20 +51,11 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
     ///
     /// It will rescale the buckets if needed.
     fn record(&mut self, v: T) {
-        self.count += 1;
-
-        if v < self.min {
-            self.min = v;
-        }
-        if v > self.max {
-            self.max = v;
-        }
-        self.sum += v;
-
         let abs_v = v.into_float().abs();
 
         if abs_v == 0.0 {
             self.zero_count += 1;
+            self.summarize(v);
             return;
         }
 
@@ -119,6 +110,20 @@ impl<T: Number> ExpoHistogramDataPoint<T> {
         } else {
             self.pos_buckets.record(bin)
         }
+        self.summarize(v);
+    }
+
+    /// Accounts for a measurement that has been put into a bucket.
+    fn summarize(&mut self, v: T) {
+        self.count += 1;
+
+        if v < self.min {
+            self.min = v;
+        }
+        if v > self.max {
+            self.max = v;
+        }
+        self.sum += v;
     }
 
     /// the bin `v` should be recorded into.
-- 
2.43.0


From 9c2a80d10fd9e0795628c74e732f21976c872006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 27/55] fix: a decreasing observable counter does not underflow
 its delta

---
 opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
index fc372de..3f713f7 100644
--- a/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
+++ b/opentelemetry-sdk/src/metrics/internal/precomputed_sum.rs
@@ -72,7 +72,12 @@ impl<T: Number> PrecomputedSum<T> {
             .collect_and_reset(&mut s_data.data_points, |attributes, aggr| {
                 let value = aggr.value.get_value();
                 new_reported.insert(attributes.clone(), value);
-                let delta = value - *reported.get(&attributes).unwrap_or(&T::default());
+                let delta = match reported.get(&attributes) {
+                    // A value that must not decrease did: what it counts was reset.
+                    Some(previous) if self.monotonic && value < *previous => value,
+                    Some(previous) => value - *previous,
+                    None => value,
+                };
                 SumDataPoint {
                     attributes,
                     value: delta,
-- 
2.43.0


From 7b60d8ca676e321f1229dd7aa91f1aefb3789107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:10 +0000
Subject: [PATCH 28/55] fix: views whose streams differ in name case only count
 a measurement once

---
 opentelemetry-sdk/src/metrics/pipeline.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index 89076d9..cc66189 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -284,7 +284,9 @@ where
                 });
             }
 
-            let id = self.inst_id(kind, &stream);
+            let mut id = self.inst_id(kind, &stream);
+            // Names that differ in case only share an aggregator.
+            id.normalize();
             if seen.contains(&id) {
                 continue; // This aggregator has already been added
             }
-- 
2.43.0


From 3877900bb1f472041c4bc909c18523324149262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:58 +0000
Subject: [PATCH 29/55] fix: what a callback observes for one reader is not
 added to the others

---
 opentelemetry-sdk/src/metrics/meter.rs    | 37 ++++++++++++-----------
 opentelemetry-sdk/src/metrics/pipeline.rs | 32 ++++++++++++--------
 2 files changed, 39 insertions(+), 30 deletions(-)

diff --git a/opentelemetry-sdk/src/metrics/meter.rs b/opentelemetry-sdk/src/metrics/meter.rs
index 3950cbc..d36ebc3 100644
--- a/opentelemetry-sdk/src/metrics/meter.rs
+++ b/opentelemetry-sdk/src/metrics/meter.rs
@@ -142,7 +142,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -152,12 +152,13 @@ impl SdkMeter {
                     return ObservableCounter::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
+                let observables: Vec<_> = ms
+                    .into_iter()
+                    .map(|ms| Arc::new(Observable::new(ms)))
+                    .collect();
 
                 for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
+                    self.pipes.register_callback(callback, &observables);
                 }
 
                 ObservableCounter::new()
@@ -202,7 +203,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -212,12 +213,13 @@ impl SdkMeter {
                     return ObservableUpDownCounter::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
+                let observables: Vec<_> = ms
+                    .into_iter()
+                    .map(|ms| Arc::new(Observable::new(ms)))
+                    .collect();
 
                 for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
+                    self.pipes.register_callback(callback, &observables);
                 }
 
                 ObservableUpDownCounter::new()
@@ -262,7 +264,7 @@ impl SdkMeter {
             builder.cardinality_limit,
         ) {
             Ok(ms) => {
-                if ms.is_empty() {
+                if ms.iter().all(Vec::is_empty) {
                     otel_error!(
                         name: "InstrumentCreationFailed",
                         meter_name = self.scope.name(),
@@ -272,12 +274,13 @@ impl SdkMeter {
                     return ObservableGauge::new();
                 }
 
-                let observable = Arc::new(Observable::new(ms));
+                let observables: Vec<_> = ms
+                    .into_iter()
+                    .map(|ms| Arc::new(Observable::new(ms)))
+                    .collect();
 
                 for callback in builder.callbacks {
-                    let cb_inst = Arc::clone(&observable);
-                    self.pipes
-                        .register_callback(move || callback(cb_inst.as_ref()));
+                    self.pipes.register_callback(callback, &observables);
                 }
 
                 ObservableGauge::new()
@@ -666,7 +669,7 @@ where
         let aggregators =
             self.measures(kind, name, description, unit, boundaries, cardinality_limit)?;
         Ok(ResolvedMeasures {
-            measures: aggregators,
+            measures: aggregators.into_iter().flatten().collect(),
         })
     }
 
@@ -678,7 +681,7 @@ where
         unit: Option<Cow<'static, str>>,
         boundaries: Option<Vec<f64>>,
         cardinality_limit: Option<usize>,
-    ) -> MetricResult<Vec<Arc<dyn internal::Measure<T>>>> {
+    ) -> MetricResult<Vec<Vec<Arc<dyn internal::Measure<T>>>>> {
         let inst = Instrument {
             name,
             description: description.unwrap_or_default(),
diff --git a/opentelemetry-sdk/src/metrics/pipeline.rs b/opentelemetry-sdk/src/metrics/pipeline.rs
index cc66189..4ecbfda 100644
--- a/opentelemetry-sdk/src/metrics/pipeline.rs
+++ b/opentelemetry-sdk/src/metrics/pipeline.rs
@@ -5,7 +5,7 @@ use std::{
     sync::{Arc, Mutex},
 };
 
-use opentelemetry::{otel_debug, InstrumentationScope, KeyValue};
+use opentelemetry::{metrics::Callback, otel_debug, InstrumentationScope, KeyValue};
 
 use crate::{
     error::{OTelSdkError, OTelSdkResult},
@@ -13,7 +13,7 @@ use crate::{
         aggregation,
         data::{Metric, ResourceMetrics, ScopeMetrics},
         error::{MetricError, MetricResult},
-        instrument::{Instrument, InstrumentId, InstrumentKind, Stream},
+        instrument::{Instrument, InstrumentId, InstrumentKind, Observable, Stream},
         internal::{self, AggregateBuilder, Number},
         reader::{MetricReader, SdkProducer},
         view::View,
@@ -666,13 +666,19 @@ impl Pipelines {
         Pipelines(pipes)
     }
 
-    pub(crate) fn register_callback<F>(&self, callback: F)
-    where
-        F: Fn() + Send + Sync + 'static,
-    {
-        let cb = Arc::new(callback);
-        for pipe in &self.0 {
-            pipe.add_callback(cb.clone())
+    /// Registers a callback with every pipeline.
+    ///
+    /// `observables` holds the observable of each pipeline: when a pipeline is
+    /// collected, what the callback observes is for that pipeline alone.
+    pub(crate) fn register_callback<T: Number>(
+        &self,
+        callback: Callback<T>,
+        observables: &[Arc<Observable<T>>],
+    ) {
+        let callback = Arc::new(callback);
+        for (pipe, observable) in self.0.iter().zip(observables) {
+            let (callback, observable) = (Arc::clone(&callback), Arc::clone(observable));
+            pipe.add_callback(Arc::new(move || callback(observable.as_ref())))
         }
     }
 
@@ -735,24 +741,24 @@ where
         Resolver { inserters }
     }
 
-    /// The measures that must be updated by the instrument defined by key.
+    /// The measures of each pipeline that must be updated by the instrument defined by key.
     pub(crate) fn measures(
         &self,
         id: Instrument,
         boundaries: Option<Vec<f64>>,
         cardinality_limit: Option<usize>,
-    ) -> MetricResult<Vec<Arc<dyn internal::Measure<T>>>> {
+    ) -> MetricResult<Vec<Vec<Arc<dyn internal::Measure<T>>>>> {
         let (mut measures, mut errs) = (vec![], vec![]);
 
         for inserter in &self.inserters {
             match inserter.instrument(id.clone(), boundaries.as_deref(), cardinality_limit) {
-                Ok(ms) => measures.extend(ms),
+                Ok(ms) => measures.push(ms),
                 Err(err) => errs.push(err),
             }
         }
 
         if errs.is_empty() {
-            if measures.is_empty() {
+            if measures.iter().all(Vec::is_empty) {
                 // TODO: Emit internal log that measurements from the instrument
                 // are being dropped due to view configuration
             }
-- 
2.43.0


From 73352e55635e512138a72a355a5261820da83c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 30/55] fix: OTLP scope spans carry the schema URL of their
 scope, not of the resource

---
 opentelemetry-proto/src/transform/trace.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/transform/trace.rs b/opentelemetry-proto/src/transform/trace.rs
index 636296f..a423ec6 100644
--- a/opentelemetry-proto/src/transform/trace.rs
+++ b/opentelemetry-proto/src/transform/trace.rs
@@ -169,7 +169,10 @@ pub mod tonic {
             .into_iter()
             .map(|(instrumentation, span_records)| ScopeSpans {
                 scope: Some((instrumentation, None).into()),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
                 spans: span_records
                     .into_iter()
                     .map(|span_data| span_data.clone().into())
-- 
2.43.0


From 17ada61308c9f11aee53eeb4c248105d2d6c0956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 31/55] fix: OTLP log requests keep records of different scopes
 apart and keep the scope's version, attributes and schema URL

---
 opentelemetry-proto/src/transform/logs.rs | 34 ++++++++++-------------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/opentelemetry-proto/src/transform/logs.rs b/opentelemetry-proto/src/transform/logs.rs
index f1a992f..4da92ee 100644
--- a/opentelemetry-proto/src/transform/logs.rs
+++ b/opentelemetry-proto/src/transform/logs.rs
@@ -168,41 +168,37 @@ pub mod tonic {
         logs: LogBatch<'_>,
         resource: &ResourceAttributesWithSchema,
     ) -> Vec<ResourceLogs> {
-        // Group logs by target or instrumentation name
+        // Group logs by target and instrumentation scope
         let scope_map = logs.iter().fold(
             HashMap::new(),
             |mut scope_map: HashMap<
-                Cow<'static, str>,
-                Vec<(
-                    &opentelemetry_sdk::logs::SdkLogRecord,
+                (
+                    Option<&Cow<'static, str>>,
                     &opentelemetry::InstrumentationScope,
-                )>,
+                ),
+                Vec<&opentelemetry_sdk::logs::SdkLogRecord>,
             >,
              (log_record, instrumentation)| {
-                let key = log_record
-                    .target()
-                    .cloned()
-                    .unwrap_or_else(|| Cow::Owned(instrumentation.name().to_owned()));
                 scope_map
-                    .entry(key)
+                    .entry((log_record.target(), instrumentation))
                     .or_default()
-                    .push((log_record, instrumentation));
+                    .push(log_record);
                 scope_map
             },
         );
 
         let scope_logs = scope_map
             .into_iter()
-            .map(|(key, log_data)| ScopeLogs {
+            .map(|((target, instrumentation), log_records)| ScopeLogs {
                 scope: Some(InstrumentationScope::from((
-                    log_data.first().unwrap().1,
-                    Some(key.into_owned().into()),
+                    instrumentation,
+                    target.cloned(),
                 ))),
-                schema_url: resource.schema_url.clone().unwrap_or_default(),
-                log_records: log_data
-                    .into_iter()
-                    .map(|(log_record, _)| log_record.into())
-                    .collect(),
+                schema_url: instrumentation
+                    .schema_url()
+                    .map(ToOwned::to_owned)
+                    .unwrap_or_default(),
+                log_records: log_records.into_iter().map(Into::into).collect(),
             })
             .collect();
 
-- 
2.43.0


From 9283852b0eb6755bd1b93f6f29cd2468498587be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 32/55] fix: OTLP conversion of a log record without an
 observed timestamp must not panic

---
 opentelemetry-proto/src/transform/logs.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/transform/logs.rs b/opentelemetry-proto/src/transform/logs.rs
index 4da92ee..bc24d19 100644
--- a/opentelemetry-proto/src/transform/logs.rs
+++ b/opentelemetry-proto/src/transform/logs.rs
@@ -89,7 +89,10 @@ pub mod tonic {
 
             LogRecord {
                 time_unix_nano: log_record.timestamp().map(to_nanos).unwrap_or_default(),
-                observed_time_unix_nano: to_nanos(log_record.observed_timestamp().unwrap()),
+                observed_time_unix_nano: log_record
+                    .observed_timestamp()
+                    .map(to_nanos)
+                    .unwrap_or_default(),
                 attributes: {
                     log_record
                         .attributes_iter()
-- 
2.43.0


From b2d551a683a6bd5aaeb60be8c088f196ee58c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:54 +0000
Subject: [PATCH 33/55] fix: OTLP HTTP metric export reports a failure when the
 server refuses the request

---
 opentelemetry-otlp/src/exporter/http/metrics.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-otlp/src/exporter/http/metrics.rs b/opentelemetry-otlp/src/exporter/http/metrics.rs
index 1503368..0571bfe 100644
--- a/opentelemetry-otlp/src/exporter/http/metrics.rs
+++ b/opentelemetry-otlp/src/exporter/http/metrics.rs
@@ -33,12 +33,23 @@ impl MetricsClient for OtlpHttpClient {
             request.headers_mut().insert(k.clone(), v.clone());
         }
 
+        let request_uri = request.uri().to_string();
         otel_debug!(name: "HttpMetricsClient.CallingExport");
-        client
+        let response = client
             .send_bytes(request)
             .await
             .map_err(|e| OTelSdkError::InternalFailure(format!("{e:?}")))?;
 
+        if !response.status().is_success() {
+            let error = format!(
+                "OpenTelemetry metrics export failed. Url: {}, Status Code: {}, Response: {:?}",
+                request_uri,
+                response.status().as_u16(),
+                response.body()
+            );
+            return Err(OTelSdkError::InternalFailure(error));
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From f7916573ca31d5ba6f090fe58e2ba2f4d4ef97a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 34/55] fix: an empty OTLP endpoint counts as not set, as
 documented

---
 opentelemetry-otlp/src/exporter/http/mod.rs  |  3 ++-
 opentelemetry-otlp/src/exporter/tonic/mod.rs | 17 ++++++++---------
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index ead431a..5e9be71 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -365,7 +365,7 @@ fn resolve_http_endpoint(
     provided_endpoint: Option<&str>,
 ) -> Result<Uri, ExporterBuildError> {
     // programmatic configuration overrides any value set via environment variables
-    if let Some(provider_endpoint) = provided_endpoint {
+    if let Some(provider_endpoint) = provided_endpoint.filter(|s| !s.is_empty()) {
         provider_endpoint
             .parse()
             .map_err(|er: http::uri::InvalidUri| {
@@ -379,6 +379,7 @@ fn resolve_http_endpoint(
         Ok(endpoint)
     } else if let Some(endpoint) = env::var(OTEL_EXPORTER_OTLP_ENDPOINT)
         .ok()
+        .filter(|s| !s.is_empty())
         .and_then(|s| build_endpoint_uri(&s, signal_endpoint_path).ok())
     {
         // if signal env var is not set, then we check if the OTEL_EXPORTER_OTLP_ENDPOINT env var is set
diff --git a/opentelemetry-otlp/src/exporter/tonic/mod.rs b/opentelemetry-otlp/src/exporter/tonic/mod.rs
index 948b605..513059e 100644
--- a/opentelemetry-otlp/src/exporter/tonic/mod.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/mod.rs
@@ -225,15 +225,14 @@ impl TonicExporterBuilder {
         // If users for some reason want to use a custom path, they can use env var or builder to pass it
         //
         // programmatic configuration overrides any value set via environment variables
-        if let Some(endpoint) = provided_endpoint {
-            endpoint
-        } else if let Ok(endpoint) = env::var(default_endpoint_var) {
-            endpoint
-        } else if let Ok(endpoint) = env::var(OTEL_EXPORTER_OTLP_ENDPOINT) {
-            endpoint
-        } else {
-            OTEL_EXPORTER_OTLP_GRPC_ENDPOINT_DEFAULT.to_string()
-        }
+        // and an empty value counts as not set
+        provided_endpoint
+            .filter(|s| !s.is_empty())
+            .or_else(|| env::var(default_endpoint_var).ok())
+            .filter(|s| !s.is_empty())
+            .or_else(|| env::var(OTEL_EXPORTER_OTLP_ENDPOINT).ok())
+            .filter(|s| !s.is_empty())
+            .unwrap_or_else(|| OTEL_EXPORTER_OTLP_GRPC_ENDPOINT_DEFAULT.to_string())
     }
 
     fn resolve_compression(
-- 
2.43.0


From 22ad46264204f63c86bba19e215e8fe47b22f340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 35/55] fix: OTLP header values with a sign after % are not
 percent-encoded

---
 opentelemetry-otlp/src/exporter/mod.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/mod.rs b/opentelemetry-otlp/src/exporter/mod.rs
index 28676e4..decd2f6 100644
--- a/opentelemetry-otlp/src/exporter/mod.rs
+++ b/opentelemetry-otlp/src/exporter/mod.rs
@@ -313,10 +313,9 @@ fn url_decode(value: &str) -> Option<String> {
         let ch = all_chars.next();
 
         if ch.is_some() && ch.unwrap() == '%' {
-            chars_to_decode.push(
-                u8::from_str_radix(&format!("{}{}", all_chars.next()?, all_chars.next()?), 16)
-                    .ok()?,
-            );
+            let high = all_chars.next()?.to_digit(16)?;
+            let low = all_chars.next()?.to_digit(16)?;
+            chars_to_decode.push((high * 16 + low) as u8);
             continue;
         }
 
-- 
2.43.0


From 75852cff64afb7978573fd4dec943c5787d0b93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 36/55] fix: OTLP HTTP header set in code replaces a default
 header of the same name in any case

---
 opentelemetry-otlp/src/exporter/http/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index 5e9be71..92f8b76 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -448,6 +448,8 @@ impl<B: HasHttpConfig> WithHttpConfig for B {
             .headers
             .get_or_insert(HashMap::new());
         headers.into_iter().for_each(|(key, value)| {
+            // header names are case-insensitive, so the new value replaces any other spelling
+            http_client_headers.retain(|k, _| !k.eq_ignore_ascii_case(&key));
             http_client_headers.insert(key, super::url_decode(&value).unwrap_or(value));
         });
         self
-- 
2.43.0


From 5ddca719e8fb95b63da09fc015130a61dcec7bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:57 +0000
Subject: [PATCH 37/55] fix: OTLP/JSON keeps double values that are not finite

---
 opentelemetry-proto/src/proto.rs | 34 +++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-proto/src/proto.rs b/opentelemetry-proto/src/proto.rs
index 13a28ce..490b8d7 100644
--- a/opentelemetry-proto/src/proto.rs
+++ b/opentelemetry-proto/src/proto.rs
@@ -61,6 +61,19 @@ pub(crate) mod serializers {
                 map.serialize_entry("bytesValue", &base64::encode(b));
                 map.end()
             }
+            // JSON has no numbers for these; protobuf's JSON mapping spells them out
+            Some(Value::DoubleValue(d)) if !d.is_finite() => {
+                let mut map = serializer.serialize_map(Some(1))?;
+                let text = if d.is_nan() {
+                    "NaN"
+                } else if *d > 0.0 {
+                    "Infinity"
+                } else {
+                    "-Infinity"
+                };
+                map.serialize_entry("doubleValue", text)?;
+                map.end()
+            }
             Some(value) => value.serialize(serializer),
             None => serializer.serialize_none(),
         }
@@ -91,6 +104,25 @@ pub(crate) mod serializers {
             }
         }
 
+        #[derive(Deserialize)]
+        #[serde(untagged)]
+        enum StringOrDouble {
+            Double(f64),
+            String(String),
+        }
+
+        impl StringOrDouble {
+            fn get_double<'de, V>(&self) -> Result<f64, V::Error>
+            where
+                V: de::MapAccess<'de>,
+            {
+                match self {
+                    Self::Double(val) => Ok(*val),
+                    Self::String(val) => val.parse::<f64>().map_err(de::Error::custom),
+                }
+            }
+        }
+
         impl<'de> de::Visitor<'de> for ValueVisitor {
             type Value = Option<Value>;
 
@@ -120,7 +152,7 @@ pub(crate) mod serializers {
                             value = Some(any_value::Value::IntValue(int_value));
                         }
                         "doubleValue" => {
-                            let d = map.next_value()?;
+                            let d = map.next_value::<StringOrDouble>()?.get_double::<V>()?;
                             value = Some(any_value::Value::DoubleValue(d));
                         }
                         "arrayValue" => {
-- 
2.43.0


From 8c2e3ae4aa7653b46b0a2a4095d522b4a0fdffe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 38/55] fix: shutting down the OTLP span exporter shuts down
 its client

The shutdown was not forwarded, so an exporter that had been shut down kept
sending requests.
---
 opentelemetry-otlp/src/span.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/opentelemetry-otlp/src/span.rs b/opentelemetry-otlp/src/span.rs
index 81c2ced..56e62e4 100644
--- a/opentelemetry-otlp/src/span.rs
+++ b/opentelemetry-otlp/src/span.rs
@@ -151,6 +151,15 @@ impl opentelemetry_sdk::trace::SpanExporter for SpanExporter {
         }
     }
 
+    fn shutdown(&mut self) -> OTelSdkResult {
+        match &mut self.client {
+            #[cfg(feature = "grpc-tonic")]
+            SupportedTransportClient::Tonic(client) => client.shutdown(),
+            #[cfg(any(feature = "http-proto", feature = "http-json"))]
+            SupportedTransportClient::Http(client) => client.shutdown(),
+        }
+    }
+
     fn set_resource(&mut self, resource: &opentelemetry_sdk::Resource) {
         match &mut self.client {
             #[cfg(feature = "grpc-tonic")]
-- 
2.43.0


From 278fc96be247719a2d4ad93cd40cda703805a117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 39/55] fix: shutting down the OTLP gRPC log exporter stops it

The shutdown did nothing, so an exporter that had been shut down kept sending
requests.
---
 opentelemetry-otlp/src/exporter/tonic/logs.rs | 46 +++++++++++--------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/tonic/logs.rs b/opentelemetry-otlp/src/exporter/tonic/logs.rs
index cbcf528..549ece2 100644
--- a/opentelemetry-otlp/src/exporter/tonic/logs.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/logs.rs
@@ -1,11 +1,12 @@
 use core::fmt;
+use std::sync::Mutex;
+
 use opentelemetry::otel_debug;
 use opentelemetry_proto::tonic::collector::logs::v1::{
     logs_service_client::LogsServiceClient, ExportLogsServiceRequest,
 };
 use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
 use opentelemetry_sdk::logs::{LogBatch, LogExporter};
-use tokio::sync::Mutex;
 use tonic::{codegen::CompressionEncoding, service::Interceptor, transport::Channel, Request};
 
 use opentelemetry_proto::transform::logs::tonic::group_logs_by_resource_and_scope;
@@ -57,17 +58,21 @@ impl TonicLogsClient {
 
 impl LogExporter for TonicLogsClient {
     async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
-        let (mut client, metadata, extensions) = match self.inner.lock().await.as_mut() {
-            Some(inner) => {
-                let (m, e, _) = inner
-                    .interceptor
-                    .call(Request::new(()))
-                    .map_err(|e| OTelSdkError::InternalFailure(format!("error: {:?}", e)))?
-                    .into_parts();
-                (inner.client.clone(), m, e)
-            }
-            None => return Err(OTelSdkError::AlreadyShutdown),
-        };
+        let (mut client, metadata, extensions) = self
+            .inner
+            .lock()
+            .map_err(|e| OTelSdkError::InternalFailure(format!("Failed to acquire lock: {e:?}")))
+            .and_then(|mut inner| match &mut *inner {
+                Some(inner) => {
+                    let (m, e, _) = inner
+                        .interceptor
+                        .call(Request::new(()))
+                        .map_err(|e| OTelSdkError::InternalFailure(format!("error: {:?}", e)))?
+                        .into_parts();
+                    Ok((inner.client.clone(), m, e))
+                }
+                None => Err(OTelSdkError::AlreadyShutdown),
+            })?;
 
         let resource_logs = group_logs_by_resource_and_scope(batch, &self.resource);
 
@@ -85,13 +90,16 @@ impl LogExporter for TonicLogsClient {
     }
 
     fn shutdown(&self) -> OTelSdkResult {
-        // TODO: Implement actual shutdown
-        // Due to the use of tokio::sync::Mutex to guard
-        // the inner client, we need to await the call to lock the mutex
-        // and that requires async runtime.
-        // It is possible to fix this by using
-        // a dedicated thread just to handle shutdown.
-        // But for now, we just return Ok.
+        if self
+            .inner
+            .lock()
+            .map_err(|e| OTelSdkError::InternalFailure(format!("Failed to acquire lock: {}", e)))?
+            .take()
+            .is_none()
+        {
+            return Err(OTelSdkError::AlreadyShutdown);
+        }
+
         Ok(())
     }
 
-- 
2.43.0


From c2377f0f7647c9ef54ed348aee5300eda58af1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:02 +0000
Subject: [PATCH 40/55] fix: an empty OTLP headers or compression variable
 counts as not set

---
 opentelemetry-otlp/src/exporter/http/mod.rs  |  6 ++++--
 opentelemetry-otlp/src/exporter/tonic/mod.rs | 11 ++++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-otlp/src/exporter/http/mod.rs b/opentelemetry-otlp/src/exporter/http/mod.rs
index 92f8b76..337ea36 100644
--- a/opentelemetry-otlp/src/exporter/http/mod.rs
+++ b/opentelemetry-otlp/src/exporter/http/mod.rs
@@ -181,8 +181,10 @@ impl HttpExporterBuilder {
             .collect();
 
         // read headers from env var - signal specific env var is preferred over general
-        if let Ok(input) =
-            env::var(signal_http_headers_var).or_else(|_| env::var(OTEL_EXPORTER_OTLP_HEADERS))
+        if let Ok(input) = env::var(signal_http_headers_var)
+            .ok()
+            .filter(|s| !s.is_empty())
+            .map_or_else(|| env::var(OTEL_EXPORTER_OTLP_HEADERS), Ok)
         {
             add_header_from_string(&input, &mut headers);
         }
diff --git a/opentelemetry-otlp/src/exporter/tonic/mod.rs b/opentelemetry-otlp/src/exporter/tonic/mod.rs
index 513059e..fa84ba9 100644
--- a/opentelemetry-otlp/src/exporter/tonic/mod.rs
+++ b/opentelemetry-otlp/src/exporter/tonic/mod.rs
@@ -241,9 +241,12 @@ impl TonicExporterBuilder {
     ) -> Result<Option<CompressionEncoding>, ExporterBuildError> {
         if let Some(compression) = self.tonic_config.compression {
             Ok(Some(compression.try_into()?))
-        } else if let Ok(compression) = env::var(env_override) {
+        } else if let Some(compression) = env::var(env_override).ok().filter(|s| !s.is_empty()) {
             Ok(Some(compression.parse::<Compression>()?.try_into()?))
-        } else if let Ok(compression) = env::var(OTEL_EXPORTER_OTLP_COMPRESSION) {
+        } else if let Some(compression) = env::var(OTEL_EXPORTER_OTLP_COMPRESSION)
+            .ok()
+            .filter(|s| !s.is_empty())
+        {
             Ok(Some(compression.parse::<Compression>()?.try_into()?))
         } else {
             Ok(None)
@@ -331,7 +334,9 @@ fn parse_headers_from_env(signal_headers_var: &str) -> (HeaderMap, Vec<(String,
 
     (
         env::var(signal_headers_var)
-            .or_else(|_| env::var(OTEL_EXPORTER_OTLP_HEADERS))
+            .ok()
+            .filter(|s| !s.is_empty())
+            .map_or_else(|| env::var(OTEL_EXPORTER_OTLP_HEADERS), Ok)
             .map(|input| {
                 parse_header_string(&input)
                     .filter_map(|(key, value)| {
-- 
2.43.0


From e7cb013dacbe62ec0ca9230e26732af9b8d975d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 41/55] fix: the timeout of the hyper client covers the body of
 the response

A server that sent the head of a response and then stalled held the export
for good.
---
 opentelemetry-http/src/lib.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/opentelemetry-http/src/lib.rs b/opentelemetry-http/src/lib.rs
index 301979f..e5ed84f 100644
--- a/opentelemetry-http/src/lib.rs
+++ b/opentelemetry-http/src/lib.rs
@@ -179,13 +179,19 @@ pub mod hyper {
                     .headers_mut()
                     .insert(http::header::AUTHORIZATION, authorization.clone());
             }
-            let mut response = time::timeout(self.timeout, self.inner.request(request)).await??;
-            let headers = std::mem::take(response.headers_mut());
-
-            let mut http_response = Response::builder()
-                .status(response.status())
-                .body(response.into_body().collect().await?.to_bytes())?;
-            *http_response.headers_mut() = headers;
+            // the timeout covers the whole exchange, including the body of the response
+            let http_response = time::timeout(self.timeout, async {
+                let mut response = self.inner.request(request).await?;
+                let headers = std::mem::take(response.headers_mut());
+
+                let mut http_response = Response::builder()
+                    .status(response.status())
+                    .body(response.into_body().collect().await?.to_bytes())?;
+                *http_response.headers_mut() = headers;
+
+                Ok::<_, HttpError>(http_response)
+            })
+            .await??;
 
             Ok(http_response.error_for_status()?)
         }
-- 
2.43.0


From 76f71b0365a8ac6b5f9cbb20e1ad48346df39872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:12 +0000
Subject: [PATCH 42/55] fix: a root span has no parent id in Zipkin

---
 opentelemetry-zipkin/src/exporter/model/mod.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-zipkin/src/exporter/model/mod.rs b/opentelemetry-zipkin/src/exporter/model/mod.rs
index 9f799e3..e97fc15 100644
--- a/opentelemetry-zipkin/src/exporter/model/mod.rs
+++ b/opentelemetry-zipkin/src/exporter/model/mod.rs
@@ -1,5 +1,5 @@
 use opentelemetry::{
-    trace::{SpanKind, Status},
+    trace::{SpanId, SpanKind, Status},
     Key, KeyValue,
 };
 use opentelemetry_sdk::trace::SpanData;
@@ -75,9 +75,8 @@ pub(crate) fn into_zipkin_span(local_endpoint: Endpoint, span_data: SpanData) ->
         }
     };
 
-    span::Span::builder()
+    let span = span::Span::builder()
         .trace_id(span_data.span_context.trace_id().to_string())
-        .parent_id(span_data.parent_span_id.to_string())
         .id(span_data.span_context.span_id().to_string())
         .name(span_data.name.into_owned())
         .kind(if user_defined_span_kind {
@@ -101,8 +100,14 @@ pub(crate) fn into_zipkin_span(local_endpoint: Endpoint, span_data: SpanData) ->
         )
         .local_endpoint(local_endpoint)
         .annotations(span_data.events.into_iter().map(Into::into).collect())
-        .tags(tags)
-        .build()
+        .tags(tags);
+
+    // a root span has no parent id
+    if span_data.parent_span_id == SpanId::INVALID {
+        span.build()
+    } else {
+        span.parent_id(span_data.parent_span_id.to_string()).build()
+    }
 }
 
 fn map_from_kvs<T>(kvs: T) -> HashMap<String, String>
-- 
2.43.0


From 68c8613ce6b8900769352cdf576d7563244c6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 43/55] fix: Zipkin spans carry the service name of the
 resource

---
 opentelemetry-zipkin/src/exporter/mod.rs            | 13 +++++++++++++
 opentelemetry-zipkin/src/exporter/model/endpoint.rs |  8 ++++++++
 2 files changed, 21 insertions(+)

diff --git a/opentelemetry-zipkin/src/exporter/mod.rs b/opentelemetry-zipkin/src/exporter/mod.rs
index 46c665e..452ca7d 100644
--- a/opentelemetry-zipkin/src/exporter/mod.rs
+++ b/opentelemetry-zipkin/src/exporter/mod.rs
@@ -4,12 +4,17 @@ mod uploader;
 
 use http::Uri;
 use model::endpoint::Endpoint;
+use opentelemetry::Key;
 use opentelemetry_http::HttpClient;
 use opentelemetry_sdk::error::OTelSdkResult;
 use opentelemetry_sdk::trace;
+use opentelemetry_sdk::Resource;
 use std::net::{AddrParseError, SocketAddr};
 use std::sync::Arc;
 
+/// The resource attribute that names the service the spans come from.
+const SERVICE_NAME: &str = "service.name";
+
 /// Zipkin span exporter
 #[derive(Debug)]
 pub struct ZipkinExporter {
@@ -136,6 +141,14 @@ impl trace::SpanExporter for ZipkinExporter {
     async fn export(&self, batch: Vec<trace::SpanData>) -> OTelSdkResult {
         zipkin_export(batch, self.uploader.clone(), self.local_endpoint.clone()).await
     }
+
+    fn set_resource(&mut self, resource: &Resource) {
+        self.local_endpoint.set_service_name(
+            resource
+                .get(&Key::from_static_str(SERVICE_NAME))
+                .map(|name| name.to_string()),
+        );
+    }
 }
 
 /// Wrap type for errors from opentelemetry zipkin
diff --git a/opentelemetry-zipkin/src/exporter/model/endpoint.rs b/opentelemetry-zipkin/src/exporter/model/endpoint.rs
index 7c85900..59abdec 100644
--- a/opentelemetry-zipkin/src/exporter/model/endpoint.rs
+++ b/opentelemetry-zipkin/src/exporter/model/endpoint.rs
@@ -4,6 +4,9 @@ use std::net::{Ipv4Addr, Ipv6Addr, SocketAddr};
 #[derive(TypedBuilder, Clone, Debug, Serialize)]
 #[serde(rename_all = "camelCase")]
 pub(crate) struct Endpoint {
+    #[builder(default)]
+    #[serde(skip_serializing_if = "Option::is_none")]
+    service_name: Option<String>,
     #[builder(setter(strip_option), default)]
     #[serde(skip_serializing_if = "Option::is_none")]
     ipv4: Option<Ipv4Addr>,
@@ -23,6 +26,11 @@ impl Endpoint {
             None => Endpoint::builder().build(),
         }
     }
+
+    /// Sets the name of the service the spans come from.
+    pub(crate) fn set_service_name(&mut self, service_name: Option<String>) {
+        self.service_name = service_name;
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From d99d750ecbffa0ca77aad4b7ad418d717cf31d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 44/55] fix: Prometheus label names never contain a colon or
 start with a digit

---
 opentelemetry-prometheus/src/utils.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-prometheus/src/utils.rs b/opentelemetry-prometheus/src/utils.rs
index a18c2bc..2c41504 100644
--- a/opentelemetry-prometheus/src/utils.rs
+++ b/opentelemetry-prometheus/src/utils.rs
@@ -134,14 +134,18 @@ pub(crate) fn sanitize_name(s: &Cow<'static, str>) -> Cow<'static, str> {
 }
 
 pub(crate) fn sanitize_prom_kv(s: &str) -> String {
-    s.chars()
-        .map(|c| {
-            if c.is_ascii_alphanumeric() || c == ':' {
-                c
-            } else {
-                '_'
-            }
-        })
+    // label names match [a-zA-Z_][a-zA-Z0-9_]*
+    let prefix = if s.starts_with(|c: char| c.is_ascii_digit()) {
+        "_"
+    } else {
+        ""
+    };
+    prefix
+        .chars()
+        .chain(
+            s.chars()
+                .map(|c| if c.is_ascii_alphanumeric() { c } else { '_' }),
+        )
         .collect()
 }
 
-- 
2.43.0


From 5377168aeb5c77e9cbbe796c4c19f1e15311554a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 45/55] fix: selected resource labels do not depend on the
 Prometheus scope labels

---
 opentelemetry-prometheus/src/lib.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-prometheus/src/lib.rs b/opentelemetry-prometheus/src/lib.rs
index 3ec3879..dc8797f 100644
--- a/opentelemetry-prometheus/src/lib.rs
+++ b/opentelemetry-prometheus/src/lib.rs
@@ -321,7 +321,7 @@ impl prometheus::core::Collector for Collector {
             .get_or_init(|| self.resource_selector.select(&metrics.resource));
 
         for scope_metrics in metrics.scope_metrics {
-            let scope_labels = if !self.disable_scope_info {
+            let mut scope_labels = if !self.disable_scope_info {
                 if scope_metrics.scope.attributes().count() > 0 {
                     let scope_info = inner
                         .scope_infos
@@ -343,13 +343,11 @@ impl prometheus::core::Collector for Collector {
                     labels.push(l_version);
                 }
 
-                if !resource_labels.is_empty() {
-                    labels.extend(resource_labels.iter().cloned());
-                }
                 labels
             } else {
                 Vec::new()
             };
+            scope_labels.extend(resource_labels.iter().cloned());
 
             for metrics in scope_metrics.metrics {
                 let (metric_type, name) = match self.metric_type_and_name(&metrics) {
-- 
2.43.0


From 661e0e0b58fa5f702c19a6781b6eac362a6c9a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:18 +0000
Subject: [PATCH 46/55] fix: the Prometheus exporter uses the default registry
 when none is given

---
 opentelemetry-prometheus/src/config.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-prometheus/src/config.rs b/opentelemetry-prometheus/src/config.rs
index cec975e..a2093ed 100644
--- a/opentelemetry-prometheus/src/config.rs
+++ b/opentelemetry-prometheus/src/config.rs
@@ -131,7 +131,9 @@ impl ExporterBuilder {
             resource_labels_once: OnceCell::new(),
         };
 
-        let registry = self.registry.unwrap_or_default();
+        let registry = self
+            .registry
+            .unwrap_or_else(|| prometheus::default_registry().clone());
         registry
             .register(Box::new(collector))
             .map_err(|e| MetricError::Other(e.to_string()))?;
-- 
2.43.0


From 31c09ad16c099096ad9e9d36de58f6f201a0c0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 47/55] fix: read the rate limiting strategy type as the Jaeger
 protocol spells it

The protocol's enum constant is RATE_LIMITING; UPPERCASE made it RATELIMITING, so
every rate limiting strategy a Jaeger server sent failed to deserialize.
---
 opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs
index 4b28a69..f2e3c3d 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/remote.rs
@@ -79,7 +79,7 @@ pub(crate) struct SamplingStrategyParameters {
 
 /// See description of the SamplingStrategyResponse.strategyType field.
 #[derive(serde::Serialize, serde::Deserialize, PartialOrd, PartialEq)]
-#[serde(rename_all = "UPPERCASE")]
+#[serde(rename_all = "SCREAMING_SNAKE_CASE")]
 pub(crate) enum SamplingStrategyType {
     Probabilistic,
     RateLimiting,
-- 
2.43.0


From 77a69cbf618d80f452e3be5fe4b1efb5bf5b50ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 48/55] fix: keep the Jaeger sampling strategy in force when a
 response carries none

A response without any of the three strategies reset the sampler to its default
although the log line it writes promises to keep using the previous strategy.
---
 .../trace/sampler/jaeger_remote/sampling_strategy.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
index 0f1fd43..00f9117 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampling_strategy.rs
@@ -92,11 +92,13 @@ impl Inner {
                                 rate_limiting_sampling,
                                 probabilistic_sampling,
                                 _,
-                            ) => self.init_strategy(
-                                operation_sampling,
-                                rate_limiting_sampling,
-                                probabilistic_sampling,
-                            ),
+                            ) => self
+                                .init_strategy(
+                                    operation_sampling,
+                                    rate_limiting_sampling,
+                                    probabilistic_sampling,
+                                )
+                                .or(Some(old_strategy)),
                         }
                     }
                     None => self.init_strategy(
-- 
2.43.0


From ded8a86ac16640032fa088b8e7becfb806814991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 49/55] fix: ignore a service name in the Jaeger sampling
 endpoint as documented

The configured name was appended after it, and servers read the first one.
---
 .../src/trace/sampler/jaeger_remote/sampler.rs            | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
index 7f6ce1d..ed62a86 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
@@ -121,8 +121,16 @@ where
         let mut endpoint = url::Url::parse(endpoint)
             .unwrap_or_else(|_| url::Url::parse(DEFAULT_REMOTE_SAMPLER_ENDPOINT).unwrap());
 
+        // a service name in the endpoint itself is ignored
+        let query: Vec<(String, String)> = endpoint
+            .query_pairs()
+            .into_owned()
+            .filter(|(name, _)| name != "service")
+            .collect();
         endpoint
             .query_pairs_mut()
+            .clear()
+            .extend_pairs(query)
             .append_pair("service", service_name);
 
         Uri::from_str(endpoint.as_str()).map_err(|_err| "invalid service name".to_string())
-- 
2.43.0


From 144a3a42d47568892fc4ed042e3185ddf4c1e595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:43 +0000
Subject: [PATCH 50/55] fix: stop polling for Jaeger sampling strategies when
 the sampler is dropped

The polling task held the state whose drop is meant to end it, so it kept asking
the server forever.
---
 .../src/trace/sampler/jaeger_remote/sampler.rs       | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
index ed62a86..adefae9 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/sampler.rs
@@ -9,7 +9,7 @@ use opentelemetry::trace::{Link, SamplingResult, SpanKind, TraceId};
 use opentelemetry::{otel_warn, Context, KeyValue};
 use opentelemetry_http::HttpClient;
 use std::str::FromStr;
-use std::sync::Arc;
+use std::sync::{Arc, Weak};
 use std::time::Duration;
 
 const DEFAULT_REMOTE_SAMPLER_ENDPOINT: &str = "http://localhost:5778/sampling";
@@ -176,7 +176,7 @@ impl JaegerRemoteSampler {
         };
         Self::run_update_task(
             runtime,
-            sampler.inner.clone(),
+            Arc::downgrade(&sampler.inner),
             update_timeout,
             client,
             shutdown_rx,
@@ -188,7 +188,7 @@ impl JaegerRemoteSampler {
     // start a updating thread/task
     fn run_update_task<C, R>(
         runtime: R,
-        strategy: Arc<Inner>,
+        strategy: Weak<Inner>,
         update_timeout: Duration,
         client: C,
         shutdown: futures_channel::mpsc::Receiver<()>,
@@ -212,7 +212,11 @@ impl JaegerRemoteSampler {
                     // poll next available configuration or shutdown
                     // send request
                     match Self::request_new_strategy(&client, endpoint.clone()).await {
-                        Ok(remote_strategy_resp) => strategy.update(remote_strategy_resp),
+                        Ok(remote_strategy_resp) => match strategy.upgrade() {
+                            Some(strategy) => strategy.update(remote_strategy_resp),
+                            // the sampler is gone
+                            None => break,
+                        },
                         Err(err_msg) => {
                             otel_warn!(
                                 name: "JaegerRemoteSampler.FailedToFetchStrategy",
-- 
2.43.0


From 5ebabf3d965cc5d17f48f915a8adc54f211f38d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:04 +0000
Subject: [PATCH 51/55] fix: let the Jaeger rate limit refill continuously

Only whole seconds between two decisions counted, so a service asking more often
than once a second never got another trace once the bucket was empty; a bucket that
was not empty collected no time, so up to twice its size passed at once; and after
the clock was set back there was no limit until it had caught up again.
---
 .../trace/sampler/jaeger_remote/rate_limit.rs | 48 +++++++++----------
 1 file changed, 22 insertions(+), 26 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
index 3f11e5d..519239d 100644
--- a/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
+++ b/opentelemetry-sdk/src/trace/sampler/jaeger_remote/rate_limit.rs
@@ -32,36 +32,32 @@ impl LeakyBucket {
     where
         F: Fn() -> SystemTime,
     {
+        let cur_time = now();
+        let elapsed = cur_time.duration_since(self.last_time);
+        self.last_time = cur_time;
+        match elapsed {
+            Ok(dur) => {
+                self.available = f64::min(
+                    dur.as_secs_f64() * self.span_per_sec + self.available,
+                    self.bucket_size,
+                );
+            }
+            Err(err) => {
+                otel_debug!(
+                    name: "JaegerRemoteSampler.LeakyBucket.ClockAdjustment",
+                    message = "Jaeger remote sampler detected a rewind in system clock",
+                    reason = format!("{:?}", err),
+                );
+                // nothing is known about the time that passed, let this one through
+                self.available = f64::max(self.available, 1.0);
+            }
+        }
+
         if self.available >= 1.0 {
             self.available -= 1.0;
             true
         } else {
-            let cur_time = now();
-            let elapsed = cur_time.duration_since(self.last_time);
-            match elapsed {
-                Ok(dur) => {
-                    self.last_time = cur_time;
-                    self.available = f64::min(
-                        dur.as_secs() as f64 * self.span_per_sec + self.available,
-                        self.bucket_size,
-                    );
-
-                    if self.available >= 1.0 {
-                        self.available -= 1.0;
-                        true
-                    } else {
-                        false
-                    }
-                }
-                Err(err) => {
-                    otel_debug!(
-                        name: "JaegerRemoteSampler.LeakyBucket.ClockAdjustment",
-                        message = "Jaeger remote sampler detected a rewind in system clock",
-                        reason = format!("{:?}", err),
-                    );
-                    true
-                }
-            }
+            false
         }
     }
 }
-- 
2.43.0


From ae9fbc8f1c2ef5a5f21ba34138e221e83c24ad59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:19 +0000
Subject: [PATCH 52/55] fix: pass on all a delegate sampler answers

ParentBased and the Jaeger remote sampler kept only the decision of the sampler they
delegate to, so the attributes and the trace state of an application's own sampler
were lost.
---
 opentelemetry-sdk/src/trace/sampler.rs | 45 ++++++++++++++------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/opentelemetry-sdk/src/trace/sampler.rs b/opentelemetry-sdk/src/trace/sampler.rs
index f33eb6a..96eb111 100644
--- a/opentelemetry-sdk/src/trace/sampler.rs
+++ b/opentelemetry-sdk/src/trace/sampler.rs
@@ -178,22 +178,19 @@ impl ShouldSample for Sampler {
             // Never sample the trace
             Sampler::AlwaysOff => SamplingDecision::Drop,
             // The parent decision if sampled; otherwise the decision of delegate_sampler
-            Sampler::ParentBased(delegate_sampler) => parent_context
-                .filter(|cx| cx.has_active_span())
-                .map_or_else(
-                    || {
-                        delegate_sampler
-                            .should_sample(
-                                parent_context,
-                                trace_id,
-                                name,
-                                span_kind,
-                                attributes,
-                                links,
-                            )
-                            .decision
-                    },
-                    |ctx| {
+            Sampler::ParentBased(delegate_sampler) => {
+                match parent_context.filter(|cx| cx.has_active_span()) {
+                    None => {
+                        return delegate_sampler.should_sample(
+                            parent_context,
+                            trace_id,
+                            name,
+                            span_kind,
+                            attributes,
+                            links,
+                        )
+                    }
+                    Some(ctx) => {
                         let span = ctx.span();
                         let parent_span_context = span.span_context();
                         if parent_span_context.is_sampled() {
@@ -201,15 +198,21 @@ impl ShouldSample for Sampler {
                         } else {
                             SamplingDecision::Drop
                         }
-                    },
-                ),
+                    }
+                }
+            }
             // Probabilistically sample the trace.
             Sampler::TraceIdRatioBased(prob) => sample_based_on_probability(prob, trace_id),
             #[cfg(feature = "jaeger_remote_sampler")]
             Sampler::JaegerRemote(remote_sampler) => {
-                remote_sampler
-                    .should_sample(parent_context, trace_id, name, span_kind, attributes, links)
-                    .decision
+                return remote_sampler.should_sample(
+                    parent_context,
+                    trace_id,
+                    name,
+                    span_kind,
+                    attributes,
+                    links,
+                )
             }
         };
         SamplingResult {
-- 
2.43.0


From 6ec47ccf5daf0ed1b978a1eb898c2a9925a174fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 53/55] fix: attribute values 0.0 and -0.0 are equal, so they
 hash equally

---
 opentelemetry/src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry/src/common.rs b/opentelemetry/src/common.rs
index 4fb32ef..8236d0b 100644
--- a/opentelemetry/src/common.rs
+++ b/opentelemetry/src/common.rs
@@ -425,7 +425,9 @@ impl Eq for F64Hashable {}
 
 impl Hash for F64Hashable {
     fn hash<H: Hasher>(&self, state: &mut H) {
-        self.0.to_bits().hash(state);
+        // The two zeros compare equal, so they have to hash equally.
+        let value = if self.0 == 0.0 { 0.0 } else { self.0 };
+        value.to_bits().hash(state);
     }
 }
 
-- 
2.43.0


From 039e756c779ad4c4bb715942faa716d1cd688e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:06 +0000
Subject: [PATCH 54/55] fix: the no-op propagator passes the given context on
 when extracting

---
 opentelemetry/src/trace/noop.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry/src/trace/noop.rs b/opentelemetry/src/trace/noop.rs
index ffb4717..3aa22d0 100644
--- a/opentelemetry/src/trace/noop.rs
+++ b/opentelemetry/src/trace/noop.rs
@@ -151,8 +151,8 @@ impl TextMapPropagator for NoopTextMapPropagator {
         // ignored
     }
 
-    fn extract_with_context(&self, _cx: &Context, _extractor: &dyn Extractor) -> Context {
-        Context::current()
+    fn extract_with_context(&self, cx: &Context, _extractor: &dyn Extractor) -> Context {
+        cx.clone()
     }
 
     fn fields(&self) -> FieldIter<'_> {
-- 
2.43.0


From 920fb3692208382ace76cefe0c515c33e4cd8aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:33 +0000
Subject: [PATCH 55/55] fix: an OTLP/JSON AnyValue without a value or with
 unknown members can be read

---
 opentelemetry-proto/src/proto.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-proto/src/proto.rs b/opentelemetry-proto/src/proto.rs
index 490b8d7..002c026 100644
--- a/opentelemetry-proto/src/proto.rs
+++ b/opentelemetry-proto/src/proto.rs
@@ -170,19 +170,14 @@ pub(crate) mod serializers {
                             value = Some(any_value::Value::BytesValue(decoded));
                         }
                         _ => {
-                            //skip unknown keys, and handle error later.
-                            continue;
+                            // Unknown keys are ignored, together with their values.
+                            let _: de::IgnoredAny = map.next_value()?;
                         }
                     }
                 }
 
-                if let Some(v) = value {
-                    Ok(Some(v))
-                } else {
-                    Err(de::Error::custom(
-                        "Invalid data for Value, no known keys found",
-                    ))
-                }
+                // An empty object is an AnyValue without a value.
+                Ok(value)
             }
         }
 
-- 
2.43.0

