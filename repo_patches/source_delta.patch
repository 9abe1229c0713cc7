From cea6739a963c9fef3cb09f4786d279c4d02856d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:29 +0000
Subject: [PATCH 01/32] fix: discard gauge and meter messages whose value is
 not a number

---
 txstatsd/server/processor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 425a0b9..7655c03 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -194,7 +194,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_gauge_metric(key, value)
 
@@ -210,7 +210,7 @@ class MessageProcessor(BaseMessageProcessor):
         try:
             value = float(values[0])
         except (TypeError, ValueError):
-            self.fail(message)
+            return self.fail(message)
 
         self.compose_meter_metric(key, value)
 
-- 
2.43.0


From 946edb5fa6f49d3203632577a15fe69815e9b39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:48 +0000
Subject: [PATCH 02/32] fix: discard counters with an unusable sample rate,
 read rates with an exponent

---
 txstatsd/server/processor.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 7655c03..00a05c0 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -32,7 +32,7 @@ from txstatsd.metrics.metermetric import MeterMetricReporter
 SPACES = re.compile("\s+")
 SLASHES = re.compile("\/+")
 NON_ALNUM = re.compile("[^a-zA-Z_\-0-9\.]")
-RATE = re.compile("^@([\d\.]+)")
+RATE = re.compile("^@([\d\.]+(?:[eE][-+]?\d+)?)")
 
 
 def normalize_key(key):
@@ -177,7 +177,12 @@ class MessageProcessor(BaseMessageProcessor):
             match = RATE.match(composite[2])
             if match is None:
                 return self.fail(message)
-            rate = match.group(1)
+            try:
+                rate = float(match.group(1))
+            except ValueError:
+                return self.fail(message)
+            if rate == 0:
+                return self.fail(message)
 
         self.compose_counter_metric(key, value, rate)
 
-- 
2.43.0


From aff7d7b4075b9e1439cb32e3f666b20a8cd12318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:05 +0000
Subject: [PATCH 03/32] fix: discard messages a plugin metric cannot parse

---
 txstatsd/server/processor.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 00a05c0..e74d6b0 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -146,13 +146,17 @@ class MessageProcessor(BaseMessageProcessor):
         return "stats." + kind
 
     def process_plugin_metric(self, metric_type, key, items, message):
-        if not key in self.plugin_metrics:
+        metric = self.plugin_metrics.get(key)
+        if metric is None:
             factory = self.plugins[metric_type]
             metric = factory.build_metric(
                 self.get_message_prefix(factory.name),
                 name=key, wall_time_func=self.time_function)
-            self.plugin_metrics[key] = metric
-        self.plugin_metrics[key].process(items)
+        try:
+            metric.process(items)
+        except (TypeError, ValueError):
+            return self.fail(message)
+        self.plugin_metrics[key] = metric
 
     def process_timer_metric(self, key, duration, message):
         try:
-- 
2.43.0


From e394f2f7a7fc8bd562b3275e6da772f3955ea241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:52 +0000
Subject: [PATCH 04/32] fix: discard values that are not finite, which broke
 later flushes

---
 txstatsd/server/configurableprocessor.py |  4 ++--
 txstatsd/server/processor.py             | 20 ++++++++++++++++----
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 85f8bb1..d58750d 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -25,7 +25,7 @@ from txstatsd.metrics.countermetric import CounterMetricReporter
 from txstatsd.metrics.gaugemetric import GaugeMetricReporter
 from txstatsd.metrics.metermetric import MeterMetricReporter
 from txstatsd.metrics.timermetric import TimerMetricReporter
-from txstatsd.server.processor import MessageProcessor
+from txstatsd.server.processor import MessageProcessor, finite_float
 
 
 class ConfigurableMessageProcessor(MessageProcessor):
@@ -68,7 +68,7 @@ class ConfigurableMessageProcessor(MessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = finite_float(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index e74d6b0..5bb536d 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -46,6 +46,18 @@ def normalize_key(key):
     return key
 
 
+def finite_float(text):
+    """Convert to a C{float}, refusing the values that are not numbers.
+
+    A NaN or an infinity would stay in the state of a metric, and break the
+    flushes that follow.
+    """
+    value = float(text)
+    if value - value != 0:
+        raise ValueError("not a finite number: %r" % (text,))
+    return value
+
+
 class BaseMessageProcessor(object):
 
     def process(self, message):
@@ -160,7 +172,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_timer_metric(self, key, duration, message):
         try:
-            duration = float(duration)
+            duration = finite_float(duration)
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -173,7 +185,7 @@ class MessageProcessor(BaseMessageProcessor):
 
     def process_counter_metric(self, key, composite, message):
         try:
-            value = float(composite[0])
+            value = finite_float(composite[0])
         except (TypeError, ValueError):
             return self.fail(message)
         rate = 1
@@ -201,7 +213,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = finite_float(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
@@ -217,7 +229,7 @@ class MessageProcessor(BaseMessageProcessor):
             return self.fail(message)
 
         try:
-            value = float(values[0])
+            value = finite_float(values[0])
         except (TypeError, ValueError):
             return self.fail(message)
 
-- 
2.43.0


From 361ebed0c4b18eb7bc1ac7af39f12183acd27ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:10 +0000
Subject: [PATCH 05/32] fix: keep a flush correct when messages arrive while it
 is under way

---
 txstatsd/server/configurableprocessor.py |  6 +++---
 txstatsd/server/processor.py             | 23 ++++++++++++-----------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index d58750d..63e9355 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -94,16 +94,16 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.meter_metrics[key].mark(value)
 
     def flush_counter_metrics(self, interval, timestamp):
-        for metric in self.counter_metrics.itervalues():
+        for metric in self.counter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics.itervalues():
+        for metric in self.gauge_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_timer_metrics(self, percent, timestamp):
-        for metric in self.timer_metrics.itervalues():
+        for metric in self.timer_metrics.values():
             messages = metric.report(timestamp)
             yield messages
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 5bb536d..75845eb 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -308,7 +308,8 @@ class MessageProcessor(BaseMessageProcessor):
                 yield metric
 
     def flush_counter_metrics(self, interval, timestamp):
-        for key, count in self.counter_metrics.iteritems():
+        for key in list(self.counter_metrics):
+            count = self.counter_metrics[key]
             self.counter_metrics[key] = 0
 
             value = count / interval
@@ -317,7 +318,8 @@ class MessageProcessor(BaseMessageProcessor):
 
     def flush_timer_metrics(self, percent, timestamp):
         threshold_value = ((100 - percent) / 100.0)
-        for key, timers in self.timer_metrics.iteritems():
+        for key in list(self.timer_metrics):
+            timers = self.timer_metrics[key]
             count = len(timers)
             if count > 0:
                 self.timer_metrics[key] = []
@@ -345,19 +347,19 @@ class MessageProcessor(BaseMessageProcessor):
                              for item, value in items.iteritems())
 
     def flush_gauge_metrics(self, timestamp):
-        for metric in self.gauge_metrics:
+        for metric in list(self.gauge_metrics):
             value = metric[0]
             key = metric[1]
 
             yield ((self.gauge_prefix + key + ".value", value, timestamp),)
 
     def flush_meter_metrics(self, timestamp):
-        for metric in self.meter_metrics.itervalues():
+        for metric in self.meter_metrics.values():
             messages = metric.report(timestamp)
             yield messages
 
     def flush_plugin_metrics(self, interval, timestamp):
-        for metric in self.plugin_metrics.itervalues():
+        for metric in self.plugin_metrics.values():
             messages = metric.flush(interval, timestamp)
             yield messages
 
@@ -378,16 +380,15 @@ class MessageProcessor(BaseMessageProcessor):
             self.last_flush_duration += duration
 
         self.last_process_duration = 0
-        for metric_type, duration in self.process_timings.iteritems():
+        process_timings, self.process_timings = self.process_timings, {}
+        by_type, self.by_type = self.by_type, {}
+        for metric_type, duration in process_timings.iteritems():
             yield ((self.internal_metrics_prefix +
                     "receive.%s.count" %
-                    metric_type, self.by_type[metric_type], timestamp),
+                    metric_type, by_type[metric_type], timestamp),
                    (self.internal_metrics_prefix +
                     "receive.%s.duration" %
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
-                    (self.by_type[metric_type], metric_type, duration))
+                    (by_type[metric_type], metric_type, duration))
             self.last_process_duration += duration
-
-        self.process_timings.clear()
-        self.by_type.clear()
-- 
2.43.0


From 548249064f2eaa5fb28e0a6370400c09da2f4c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:47 +0000
Subject: [PATCH 06/32] fix: report the latest value of a gauge, not every
 value ever received

---
 txstatsd/server/processor.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 75845eb..5995405 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -112,6 +112,8 @@ class MessageProcessor(BaseMessageProcessor):
         self.timer_metrics = {}
         self.counter_metrics = {}
         self.gauge_metrics = deque()
+        # The entries of gauge_metrics, by key.
+        self.latest_gauges = {}
         self.meter_metrics = {}
 
         self.plugins = {}
@@ -220,7 +222,12 @@ class MessageProcessor(BaseMessageProcessor):
         self.compose_gauge_metric(key, value)
 
     def compose_gauge_metric(self, key, value):
+        metric = self.latest_gauges.get(key)
+        if metric is not None:
+            metric[0] = value
+            return
         metric = [value, key]
+        self.latest_gauges[key] = metric
         self.gauge_metrics.append(metric)
 
     def process_meter_metric(self, key, composite, message):
-- 
2.43.0


From 006690a03cdd0f9d970d68e1b39c4e6f569f9ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:06 +0000
Subject: [PATCH 07/32] fix: list the names of gauges in the configurable
 processor

---
 txstatsd/server/configurableprocessor.py | 3 +++
 txstatsd/server/processor.py             | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/configurableprocessor.py b/txstatsd/server/configurableprocessor.py
index 63e9355..aef6da8 100644
--- a/txstatsd/server/configurableprocessor.py
+++ b/txstatsd/server/configurableprocessor.py
@@ -55,6 +55,9 @@ class ConfigurableMessageProcessor(MessageProcessor):
         self.message_prefix = message_prefix
         self.gauge_metrics = {}
 
+    def get_gauge_names(self):
+        return self.gauge_metrics.keys()
+
     def get_message_prefix(self, kind):
         return self.message_prefix
 
diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 5995405..bb409af 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -128,11 +128,15 @@ class MessageProcessor(BaseMessageProcessor):
         metrics = set()
         metrics.update(self.timer_metrics.keys())
         metrics.update(self.counter_metrics.keys())
-        metrics.update(v for k, v in self.gauge_metrics)
+        metrics.update(self.get_gauge_names())
         metrics.update(self.meter_metrics.keys())
         metrics.update(self.plugin_metrics.keys())
         return list(metrics)
 
+    def get_gauge_names(self):
+        """Return the names of all seen gauges."""
+        return [key for value, key in self.gauge_metrics]
+
     def process_message(self, message, metric_type, key, fields):
         """
         Process a single entry, adding it to either C{counters}, C{timers},
-- 
2.43.0


From a8c384d6d1d01a0f433ccb95ad30dfaadd904261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:25 +0000
Subject: [PATCH 08/32] fix: honour flush intervals that are not a whole number
 of seconds

---
 txstatsd/server/processor.py | 5 ++++-
 txstatsd/service.py          | 4 ++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index bb409af..3ae9d72 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -260,7 +260,10 @@ class MessageProcessor(BaseMessageProcessor):
         """
         per_metric = {}
         num_stats = 0
-        interval = interval / 1000
+        if interval % 1000:
+            interval = interval / 1000.0
+        else:
+            interval = interval / 1000
         timestamp = int(self.time_function())
 
         start = self.time_function()
diff --git a/txstatsd/service.py b/txstatsd/service.py
index db2e237..581d4d2 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -233,7 +233,7 @@ class StatsDService(Service):
         self.coop.coiterate(doWork())
 
     def startService(self):
-        self.flush_task.start(self.flush_interval / 1000, False)
+        self.flush_task.start(self.flush_interval / 1000.0, False)
 
     def stopService(self):
         if self.flush_task.running:
@@ -311,7 +311,7 @@ def createService(options, reactor=None):
     reporting.setServiceParent(root_service)
 
     reporting.schedule(report_client_manager_stats,
-                       options["flush-interval"] / 1000,
+                       options["flush-interval"] / 1000.0,
                        metrics.gauge)
 
     if options["report"] is not None:
-- 
2.43.0


From ee41bcf1c999efcb1bea5bf419d7d1562345db5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:43 +0000
Subject: [PATCH 09/32] fix: keep at least one timing below the percentile
 threshold

---
 txstatsd/server/processor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 3ae9d72..658ac59 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -347,7 +347,8 @@ class MessageProcessor(BaseMessageProcessor):
                 threshold_upper = upper
 
                 if count > 1:
-                    index = count - int(round(threshold_value * count))
+                    index = max(
+                        1, count - int(round(threshold_value * count)))
                     timers = timers[:index]
                     threshold_upper = timers[-1]
                     mean = sum(timers) / index
-- 
2.43.0


From 9c8c8fc1b19765761bbccfb96b80b933cfaef43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:16 +0000
Subject: [PATCH 10/32] fix: compare flush durations and flush interval in the
 same unit

---
 txstatsd/server/processor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index 658ac59..cc9cf91 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -392,7 +392,8 @@ class MessageProcessor(BaseMessageProcessor):
                     duration * 1000, timestamp))
             log.msg("Flushed %d %s metrics in %.6f" %
                     (value, name, duration))
-            self.last_flush_duration += duration
+            # In milliseconds, as the flush interval it is compared with.
+            self.last_flush_duration += duration * 1000
 
         self.last_process_duration = 0
         process_timings, self.process_timings = self.process_timings, {}
@@ -406,4 +407,4 @@ class MessageProcessor(BaseMessageProcessor):
                     metric_type, duration * 1000, timestamp))
             log.msg("Processing %d %s metrics took %.6f" %
                     (by_type[metric_type], metric_type, duration))
-            self.last_process_duration += duration
+            self.last_process_duration += duration * 1000
-- 
2.43.0


From 4972f0e69ef5056334617a24c59fea32a2457edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:34 +0000
Subject: [PATCH 11/32] fix: histogram of a sample whose values are all equal

---
 txstatsd/metrics/histogrammetric.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 11cd1b1..3f68b77 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -182,6 +182,10 @@ class HistogramMetricReporter(object):
         min_value = float(min(values))
         value_range = max_value - min_value
 
+        if value_range == 0:
+            scores[0] = float(len(values))
+            return scores
+
         for value in values:
             pos = int(((value - min_value) / value_range) * n_bins)
             if pos == n_bins:
-- 
2.43.0


From a4189b5bcdf92110d4206732dfc8d916da398513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:53 +0000
Subject: [PATCH 12/32] fix: keep the variance when the running mean is exactly
 -1

---
 txstatsd/metrics/histogrammetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/histogrammetric.py b/txstatsd/metrics/histogrammetric.py
index 3f68b77..1d96662 100644
--- a/txstatsd/metrics/histogrammetric.py
+++ b/txstatsd/metrics/histogrammetric.py
@@ -218,7 +218,7 @@ class HistogramMetricReporter(object):
     def update_variance(self, value):
         old_values = self.variance
         new_values = [0.0, 0.0]
-        if old_values[0] == -1:
+        if self.count == 1:
             new_values[0] = value
             new_values[1] = 0.0
         else:
-- 
2.43.0


From 32e71fce9bfe631e03d1042efcb0918d4d7919b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:31 +0000
Subject: [PATCH 13/32] fix: pass messages on when a redirect rule has no
 service

---
 txstatsd/server/router.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 3cd7afb..0143fad 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -260,7 +260,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_udp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
@@ -281,7 +281,7 @@ class Router(BaseMessageProcessor):
 
     def build_target_redirect_tcp(self, host, port):
         if self.service is None:
-            return lambda *args: True
+            return lambda *args: [args]
 
         port = int(port)
         d = defer.Deferred()
-- 
2.43.0


From 5644c8f8844b68cf2430d6f3837ffc9051226137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:50 +0000
Subject: [PATCH 14/32] fix: rewrite the type inside the message with
 set_metric_type

---
 txstatsd/server/router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 0143fad..aaf3059 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -255,7 +255,7 @@ class Router(BaseMessageProcessor):
         def set_metric_type(_, key, fields):
             if dup == "dup":
                 yield _, key, fields
-            yield metric_type, key, fields
+            yield metric_type, key, [fields[0], metric_type] + fields[2:]
         return set_metric_type
 
     def build_target_redirect_udp(self, host, port):
-- 
2.43.0


From c9c2c3ce1623b42a19dbface4dbc136e2e05e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:08 +0000
Subject: [PATCH 15/32] fix: resume a TCP redirect after its transport drained

---
 txstatsd/server/router.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index aaf3059..402d474 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -139,10 +139,11 @@ class TCPRedirectProtocol(Protocol):
 
     def resumeProducing(self):
         """We can write to the transport again. Yay!."""
-        time_now = int(time.time())
-        log("Resumed TCP redirect. "
-            "Dropped %s messages during %s seconds ",
-                self.dropped, time_now - self.last_paused)
+        if self.last_paused is not None:
+            time_now = int(time.time())
+            log.msg("Resumed TCP redirect. "
+                    "Dropped %s messages during %s seconds" % (
+                        self.dropped, time_now - self.last_paused))
         self.paused = False
         self.dropped = 0
         self.last_paused = None
-- 
2.43.0


From 8510488497353c30d50fb2498e8194fb5d8f740c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:25 +0000
Subject: [PATCH 16/32] fix: ignore routing rule lines that hold only spaces

---
 txstatsd/server/router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 402d474..7f4746b 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -189,7 +189,7 @@ class Router(BaseMessageProcessor):
     def build_rules(self, rules_config):
         rules = []
         for line in rules_config.split("\n"):
-            if not line:
+            if not line.strip():
                 continue
 
             condition, target = line.split("=>")
-- 
2.43.0


From dbeb10ac6606b4497744974082b5234a2953381d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:58 +0000
Subject: [PATCH 17/32] fix: accept names that are already encoded, with bytes
 beyond ASCII

---
 txstatsd/hashing.py        | 4 +++-
 txstatsd/metrics/metric.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index c823914..57eaafb 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -33,7 +33,9 @@ class ConsistentHashRing:
             self.add_node(node)
 
     def compute_ring_position(self, key):
-        big_hash = md5(key.encode('utf-8')).hexdigest()
+        if not isinstance(key, bytes):
+            key = key.encode('utf-8')
+        big_hash = md5(key).hexdigest()
         small_hash = int(big_hash[:8], 16)
         return small_hash
 
diff --git a/txstatsd/metrics/metric.py b/txstatsd/metrics/metric.py
index 937a09c..0c5ef3d 100644
--- a/txstatsd/metrics/metric.py
+++ b/txstatsd/metrics/metric.py
@@ -64,4 +64,6 @@ class Metric(object):
     def write(self, data):
         """Message the C{data} to the C{StatsD} server."""
         if self.connection is not None:
-            self.connection.write(data.encode('utf-8'))
+            if not isinstance(data, bytes):
+                data = data.encode('utf-8')
+            self.connection.write(data)
-- 
2.43.0


From aa397a88d06e014c8c334e84b62ce612cf591d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:14 +0000
Subject: [PATCH 18/32] fix: get_nodes of the hash ring also visits the last
 entry

---
 txstatsd/hashing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/txstatsd/hashing.py b/txstatsd/hashing.py
index 57eaafb..9cd5304 100644
--- a/txstatsd/hashing.py
+++ b/txstatsd/hashing.py
@@ -64,8 +64,7 @@ class ConsistentHashRing:
         position = self.compute_ring_position(key)
         search_entry = (position, None)
         index = bisect.bisect_left(self.ring, search_entry) % len(self.ring)
-        last_index = (index - 1) % len(self.ring)
-        while len(nodes) < len(self.nodes) and index != last_index:
+        while len(nodes) < len(self.nodes):
             next_entry = self.ring[index]
             (position, next_node) = next_entry
             if next_node not in nodes:
-- 
2.43.0


From 58f3ec236027a1d186d88c308e26d0d15de1a939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:54 +0000
Subject: [PATCH 19/32] fix: keep metrics of different kinds apart when they
 share a name

---
 txstatsd/metrics/extendedmetrics.py | 21 ++++++-----
 txstatsd/metrics/metrics.py         | 55 +++++++++++++++++------------
 2 files changed, 44 insertions(+), 32 deletions(-)

diff --git a/txstatsd/metrics/extendedmetrics.py b/txstatsd/metrics/extendedmetrics.py
index 3d4d430..e2eb630 100644
--- a/txstatsd/metrics/extendedmetrics.py
+++ b/txstatsd/metrics/extendedmetrics.py
@@ -43,32 +43,35 @@ class ExtendedMetrics(Metrics):
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (CounterMetric, name)
+        if not key in self._metrics:
             metric = CounterMetric(self.connection,
                                    name,
                                    sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].increment(value)
+            self._metrics[key] = metric
+        self._metrics[key].increment(value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (CounterMetric, name)
+        if not key in self._metrics:
             metric = CounterMetric(self.connection,
                                    name,
                                    sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].decrement(value)
+            self._metrics[key] = metric
+        self._metrics[key].decrement(value)
 
     def timing(self, name, duration=None, sample_rate=1):
         """Report this sample performed in duration seconds."""
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (TimerMetric, name)
+        if not key in self._metrics:
             metric = TimerMetric(self.connection,
                                  name,
                                  sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].mark(duration)
+            self._metrics[key] = metric
+        self._metrics[key].mark(duration)
 
diff --git a/txstatsd/metrics/metrics.py b/txstatsd/metrics/metrics.py
index 66740e4..90b5557 100644
--- a/txstatsd/metrics/metrics.py
+++ b/txstatsd/metrics/metrics.py
@@ -51,6 +51,7 @@ class Metrics(object):
 
         self.connection = connection
         self.namespace = namespace
+        # Maps (kind of metric, name) to the metric.
         self._metrics = {}
         self.last_time = 0
 
@@ -60,12 +61,13 @@ class Metrics(object):
         Used for server side plugins without client support.
         """
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (metric_type, name)
+        if not key in self._metrics:
             metric = GenericMetric(self.connection,
                                         metric_type,
                                         name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(value, extra)
+            self._metrics[key] = metric
+        self._metrics[key].mark(value, extra)
 
     def sli(self, name, duration, size=None):
         """Report a service level metric.
@@ -87,42 +89,46 @@ class Metrics(object):
     def gauge(self, name, value, sample_rate=1):
         """Report an instantaneous reading of a particular value."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (GaugeMetric, name)
+        if not key in self._metrics:
             gauge_metric = GaugeMetric(self.connection,
                                        name,
                                        sample_rate)
-            self._metrics[name] = gauge_metric
-        self._metrics[name].mark(value)
+            self._metrics[key] = gauge_metric
+        self._metrics[key].mark(value)
 
     def meter(self, name, value=1, sample_rate=1):
         """Mark the occurrence of a given number of events."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (MeterMetric, name)
+        if not key in self._metrics:
             meter_metric = MeterMetric(self.connection,
                                        name,
                                        sample_rate)
-            self._metrics[name] = meter_metric
-        self._metrics[name].mark(value)
+            self._metrics[key] = meter_metric
+        self._metrics[key].mark(value)
 
     def increment(self, name, value=1, sample_rate=1):
         """Report and increase in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (Metric, name)
+        if not key in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % value)
+            self._metrics[key] = metric
+        self._metrics[key].send("%s|c" % value)
 
     def decrement(self, name, value=1, sample_rate=1):
         """Report and decrease in name by count."""
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (Metric, name)
+        if not key in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|c" % -value)
+            self._metrics[key] = metric
+        self._metrics[key].send("%s|c" % -value)
 
     def reset_timing(self):
         """Resets the duration timer for the next call to timing()"""
@@ -142,25 +148,28 @@ class Metrics(object):
         if duration is None:
             duration = self.calculate_duration()
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (Metric, name)
+        if not key in self._metrics:
             metric = Metric(self.connection,
                             name,
                             sample_rate)
-            self._metrics[name] = metric
-        self._metrics[name].send("%s|ms" % (duration * 1000))
+            self._metrics[key] = metric
+        self._metrics[key].send("%s|ms" % (duration * 1000))
 
     def distinct(self, name, item):
         name = self.fully_qualify_name(name)
-        if not name in self._metrics:
+        key = (DistinctMetric, name)
+        if not key in self._metrics:
             metric = DistinctMetric(self.connection, name)
-            self._metrics[name] = metric
-        self._metrics[name].mark(item)
+            self._metrics[key] = metric
+        self._metrics[key].mark(item)
 
     def clear(self, name):
         """Allow the metric to re-initialize its internal state."""
         name = self.fully_qualify_name(name)
-        if name in self._metrics:
-            metric = self._metrics[name]
+        for (kind, metric_name), metric in self._metrics.items():
+            if metric_name != name:
+                continue
             if getattr(metric, 'clear', None) is not None:
                 metric.clear()
 
-- 
2.43.0


From e9b10163586531907c94968dbc0ae733da5552c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 20/32] fix: send distinct items under the type the server
 registers for them

---
 txstatsd/metrics/distinctmetric.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/txstatsd/metrics/distinctmetric.py b/txstatsd/metrics/distinctmetric.py
index 7bad3ec..eafde3c 100644
--- a/txstatsd/metrics/distinctmetric.py
+++ b/txstatsd/metrics/distinctmetric.py
@@ -114,7 +114,7 @@ class DistinctMetric(Metric):
 
     def mark(self, item):
         """Report this item was seen."""
-        self.send("%s|d" % item)
+        self.send("%s|pd" % item)
 
 
 class DistinctMetricReporter(object):
-- 
2.43.0


From 34287d7866e7f90bad97b33252c9acf3334b9eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:41 +0000
Subject: [PATCH 21/32] fix: no negative rates from a metric first seen within
 the second of a flush

---
 txstatsd/metrics/metermetric.py | 3 ++-
 txstatsd/metrics/timermetric.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/txstatsd/metrics/metermetric.py b/txstatsd/metrics/metermetric.py
index 990943e..d79c422 100644
--- a/txstatsd/metrics/metermetric.py
+++ b/txstatsd/metrics/metermetric.py
@@ -67,7 +67,8 @@ class MeterMetricReporter(object):
         self.prefix = prefix
 
         self.value = self.count = 0
-        self.poll_time = self.wall_time_func()
+        # A whole second, as the timestamps of the reports that follow.
+        self.poll_time = int(self.wall_time_func())
 
     def mark(self, value):
         """
diff --git a/txstatsd/metrics/timermetric.py b/txstatsd/metrics/timermetric.py
index cfad2f0..d6d87fd 100644
--- a/txstatsd/metrics/timermetric.py
+++ b/txstatsd/metrics/timermetric.py
@@ -86,7 +86,8 @@ class TimerMetricReporter(object):
     def rate(self, timestamp):
         """The number of values seen since last clear."""
         dt = (timestamp - self.last_time)
-        if dt == 0:
+        if dt <= 0:
+            # Created within the second this timestamp was cut down to.
             return 0
         return self.histogram.count / dt
 
-- 
2.43.0


From afddc5ed8c542ea4d8b519f0f692d5e138ff9b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:36 +0000
Subject: [PATCH 22/32] fix: let short options on the command line override the
 config file

---
 txstatsd/service.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 581d4d2..0d6fb2a 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -100,7 +100,8 @@ class OptionsGlue(usage.Options):
                 opt = opt[2:]
             else:
                 opt = opt[1:]
-            self.overridden_options.append(opt)
+            # Short options count under the long name they stand for.
+            self.overridden_options.append(self.synonyms.get(opt, opt))
 
         super(OptionsGlue, self).parseOptions(options=options)
 
-- 
2.43.0


From d8eb7b0615950c1529df79ec9c868fa2c98c5670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:15 +0000
Subject: [PATCH 23/32] fix: connect to every carbon-cache host, also those
 without port or name

---
 txstatsd/service.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 0d6fb2a..7de39dd 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -338,9 +338,11 @@ def createService(options, reactor=None):
     carbon_client = CarbonClientManager(router)
     carbon_client.setServiceParent(root_service)
 
-    for host, port, name in zip(options["carbon-cache-host"],
-                                options["carbon-cache-port"],
-                                options["carbon-cache-name"]):
+    hosts = options["carbon-cache-host"]
+    # Hosts without a port or a name of their own get the default ones.
+    ports = options["carbon-cache-port"] + [2004] * len(hosts)
+    names = options["carbon-cache-name"] + [None] * len(hosts)
+    for host, port, name in zip(hosts, ports, names):
         carbon_client.startClient((host, port, name))
 
     statsd_service = StatsDService(carbon_client, input_router,
-- 
2.43.0


From 7a2fe14fbf5336768184cd9374117e58376ca647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:34 +0000
Subject: [PATCH 24/32] fix: stop the reporting service after one of its tasks
 failed

---
 txstatsd/report.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/txstatsd/report.py b/txstatsd/report.py
index 6447108..33696df 100644
--- a/txstatsd/report.py
+++ b/txstatsd/report.py
@@ -88,7 +88,9 @@ class ReportingService(Service):
 
     def stopService(self):
         for task, interval in self.tasks:
-            task.stop()
+            # A function that failed has already stopped its task.
+            if task.running:
+                task.stop()
         Service.stopService(self)
 
 
-- 
2.43.0


From 68233e945626cca1a7fdfabd47e1576e33191bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:54 +0000
Subject: [PATCH 25/32] fix: keep reporting counters after a new one appears or
 a reading fails

---
 txstatsd/process.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index f51e4f0..364ff60 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -160,21 +160,15 @@ def report_counters(report_function, *args, **kwargs):
     Report difference between last value and current value for wrapped
     function.
     """
-    def generate():
-        last_value = None
-        while True:
-            result = {}
-            new_value = report_function(*args, **kwargs)
-            if last_value is None:
-                last_value = new_value
-            else:
-                for key, value in new_value.iteritems():
-                    result[key] = value - last_value[key]
-                last_value = new_value
-            yield result
-    generator = generate()
+    last = {}
     def report():
-        return generator.next()
+        new_value = report_function(*args, **kwargs)
+        # A counter that was not there the last time has no difference yet.
+        result = dict((key, value - last[key])
+                      for key, value in new_value.iteritems() if key in last)
+        last.clear()
+        last.update(new_value)
+        return result
     update_wrapper(report, report_function)
     return report
 
-- 
2.43.0


From 0ba6661e560bacf2dacc29cd5ac4782cbd80358e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:27 +0000
Subject: [PATCH 26/32] fix: do not swap the resident and the virtual size of
 the process

---
 txstatsd/process.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/txstatsd/process.py b/txstatsd/process.py
index 364ff60..ddf1f47 100644
--- a/txstatsd/process.py
+++ b/txstatsd/process.py
@@ -110,7 +110,10 @@ class ProcessReport(object):
 
     def get_memory_and_cpu(self, prefix="proc"):
         """Report memory and CPU stats for C{process}."""
-        vsize, rss = self.process.memory_info()
+        memory = self.process.memory_info()
+        # psutil puts the resident size first, and names both.
+        vsize = getattr(memory, "vms", memory[0])
+        rss = getattr(memory, "rss", memory[1])
         result = {prefix + ".cpu.percent": self.process.cpu_percent(),
                   prefix + ".memory.percent":
                     self.process.memory_percent(),
-- 
2.43.0


From 8d58c5e990742b9728954a94687fd50ebea22d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:13 +0000
Subject: [PATCH 27/32] fix: no negative rate from a meter first seen during a
 flush

---
 txstatsd/metrics/metermetric.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/txstatsd/metrics/metermetric.py b/txstatsd/metrics/metermetric.py
index d79c422..ed98573 100644
--- a/txstatsd/metrics/metermetric.py
+++ b/txstatsd/metrics/metermetric.py
@@ -88,7 +88,8 @@ class MeterMetricReporter(object):
         """
         poll_prev, self.poll_time = self.poll_time, timestamp
 
-        if self.poll_time == poll_prev:
+        if self.poll_time <= poll_prev:
+            # Also when first seen after the flush under way was stamped.
             return list()
 
         rate = float(self.value) / (self.poll_time - poll_prev)
-- 
2.43.0


From f4afc35d7539af454d14362f5390be1a5652691d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:04 +0000
Subject: [PATCH 28/32] fix: report the connection of a client to an IP address
 only once

---
 txstatsd/protocol.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/txstatsd/protocol.py b/txstatsd/protocol.py
index dfe1be2..ae30aff 100644
--- a/txstatsd/protocol.py
+++ b/txstatsd/protocol.py
@@ -21,7 +21,7 @@
 
 import socket
 
-from twisted.internet import abstract
+from twisted.internet import abstract, defer
 from twisted.internet.protocol import DatagramProtocol
 from twisted.python import log
 
@@ -172,6 +172,11 @@ class TwistedStatsDClient(object):
         if resolver_errback is None:
             resolver_errback = log.err
 
+        if instance.transport_gateway is not None:
+            # The host is an IP address, there is nothing to resolve.
+            instance.resolve_later = defer.succeed(host)
+            return instance
+
         instance.resolve_later = reactor.resolve(host)
         instance.resolve_later.addCallbacks(instance.host_resolved,
                                             resolver_errback)
-- 
2.43.0


From 24f62c36bb75999da1531904a96b4795679cf5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:59 +0000
Subject: [PATCH 29/32] fix: keep a TCP connection open, and read on, after its
 first line

---
 txstatsd/server/protocol.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/protocol.py b/txstatsd/server/protocol.py
index f76bf21..1d820fc 100644
--- a/txstatsd/server/protocol.py
+++ b/txstatsd/server/protocol.py
@@ -66,9 +66,10 @@ class StatsDTCPServerProtocol(LineReceiver):
         if data == self.monitor_message:
             # Send the expected response to the
             # monitoring agent.
-            return self.transport.write(self.monitor_response)
-        return self.transport.reactor.callLater(
-            0, self.processor.process, data)
+            self.transport.write(self.monitor_response)
+            return
+        # Nothing may be returned: it would close the connection.
+        self.transport.reactor.callLater(0, self.processor.process, data)
 
 
 class StatsDTCPServerFactory(Factory):
-- 
2.43.0


From 77e31954ce0347cf2b67f04b014b930930908102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:00 +0000
Subject: [PATCH 30/32] fix: end a TCP redirect's first connection attempt when
 it stops

---
 txstatsd/server/router.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/txstatsd/server/router.py b/txstatsd/server/router.py
index 7f4746b..8b22b9b 100644
--- a/txstatsd/server/router.py
+++ b/txstatsd/server/router.py
@@ -79,7 +79,10 @@ class TCPRedirectService(Service):
         self.reactor = reactor
 
     def startService(self):
-        self.reactor.connectTCP(self.host, self.port, self.factory)
+        # The factory only learns of it when the connection is lost, and
+        # could not end the first attempt before.
+        self.factory.connector = self.reactor.connectTCP(
+            self.host, self.port, self.factory)
         return Service.startService(self)
 
     def stopService(self):
-- 
2.43.0


From b4bbd0fa9eeea125980797fad8a2f3dd7c3fcec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:01 +0000
Subject: [PATCH 31/32] fix: keep the metrics of different plugins under one
 name apart

---
 txstatsd/server/processor.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/txstatsd/server/processor.py b/txstatsd/server/processor.py
index cc9cf91..9baf2e0 100644
--- a/txstatsd/server/processor.py
+++ b/txstatsd/server/processor.py
@@ -118,6 +118,8 @@ class MessageProcessor(BaseMessageProcessor):
 
         self.plugins = {}
         self.plugin_metrics = {}
+        # Maps the metric type to the metrics of its plugin, by key.
+        self.typed_plugin_metrics = {}
 
         if plugins is not None:
             for plugin in plugins:
@@ -164,7 +166,8 @@ class MessageProcessor(BaseMessageProcessor):
         return "stats." + kind
 
     def process_plugin_metric(self, metric_type, key, items, message):
-        metric = self.plugin_metrics.get(key)
+        metrics = self.typed_plugin_metrics.setdefault(metric_type, {})
+        metric = metrics.get(key)
         if metric is None:
             factory = self.plugins[metric_type]
             metric = factory.build_metric(
@@ -174,7 +177,8 @@ class MessageProcessor(BaseMessageProcessor):
             metric.process(items)
         except (TypeError, ValueError):
             return self.fail(message)
-        self.plugin_metrics[key] = metric
+        metrics[key] = metric
+        self.plugin_metrics.setdefault(key, metric)
 
     def process_timer_metric(self, key, duration, message):
         try:
@@ -373,8 +377,17 @@ class MessageProcessor(BaseMessageProcessor):
             messages = metric.report(timestamp)
             yield messages
 
+    def get_plugin_metrics(self):
+        """Return the metrics of all plugins."""
+        result = self.plugin_metrics.values()
+        for metrics in self.typed_plugin_metrics.values():
+            # The first metric of a name is among those above.
+            result.extend(metric for key, metric in metrics.items()
+                          if self.plugin_metrics.get(key) is not metric)
+        return result
+
     def flush_plugin_metrics(self, interval, timestamp):
-        for metric in self.plugin_metrics.values():
+        for metric in self.get_plugin_metrics():
             messages = metric.flush(interval, timestamp)
             yield messages
 
-- 
2.43.0


From 234d79cf7150161c69b13693bb6b932f6d05a3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:30 +0000
Subject: [PATCH 32/32] fix: no leading dot in the daemon's own series with an
 empty prefix

---
 txstatsd/service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/txstatsd/service.py b/txstatsd/service.py
index 7de39dd..0fc68f0 100644
--- a/txstatsd/service.py
+++ b/txstatsd/service.py
@@ -273,6 +273,11 @@ def createService(options, reactor=None):
     if not instance_name:
         instance_name = platform.node()
 
+    internal_metrics_prefix = instance_name + "."
+    # The prefix may be given, and empty.
+    if prefix:
+        internal_metrics_prefix = prefix + "." + internal_metrics_prefix
+
     # initialize plugins
     plugin_metrics = []
     for plugin in getPlugins(IMetricFactory):
@@ -295,7 +300,7 @@ def createService(options, reactor=None):
     else:
         processor = (processor or ConfigurableMessageProcessor)(
             message_prefix=prefix,
-            internal_metrics_prefix=prefix + "." + instance_name + ".",
+            internal_metrics_prefix=internal_metrics_prefix,
             plugins=plugin_metrics)
         input_router = Router(processor, options['routing'], root_service)
         connection = InternalClient(input_router)
-- 
2.43.0

