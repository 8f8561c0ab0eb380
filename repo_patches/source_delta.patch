From 28e4cc6700fced5fc84e9b15b5dd3b062e18af6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 001/220] fix: typed DFG discovery dropped the first
 directly-follows pair of every case

---
 pm4py/algo/discovery/dfg/variants/clean.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/variants/clean.py b/pm4py/algo/discovery/dfg/variants/clean.py
index 2c99756..d33d191 100644
--- a/pm4py/algo/discovery/dfg/variants/clean.py
+++ b/pm4py/algo/discovery/dfg/variants/clean.py
@@ -56,7 +56,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[str, Any]] = None) -> DFG
 
     starters = df[(df[aux_act_start] == CONST_PROCESS_START)]
     borders = df[(df[aux_act_end] == CONST_PROCESS_END)]
-    connections = df[((df[aux_act_start] != CONST_PROCESS_START) & (df[aux_act_end] != CONST_PROCESS_END))]
+    connections = df[(df[aux_act_end] != CONST_PROCESS_END)]
 
     dfg = DFG()
 
-- 
2.43.0


From c4d7e00f64299eb21c5afc26021bc90b8b103384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 002/220] fix: DFG vertex frequencies summed outgoing arcs and
 starts instead of incoming arcs and starts

---
 pm4py/objects/dfg/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/dfg/util.py b/pm4py/objects/dfg/util.py
index 3fed580..e299b9c 100644
--- a/pm4py/objects/dfg/util.py
+++ b/pm4py/objects/dfg/util.py
@@ -140,7 +140,7 @@ def get_vertex_frequencies(dfg: DFG) -> Dict[Any, int]:
     for v in get_vertices(dfg):
         c[v] = 0
     for (a, b) in dfg.graph:
-        c[a] += dfg.graph[(a, b)]
+        c[b] += dfg.graph[(a, b)]
     for a in dfg.start_activities:
         c[a] += dfg.start_activities[a]
     return c
-- 
2.43.0


From 34d29e6db89d1caa09398c8e2acba80beb49db4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 003/220] fix: prefix tree did not mark as final a variant that
 is a prefix of another variant

---
 pm4py/algo/transformation/log_to_trie/algorithm.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_trie/algorithm.py b/pm4py/algo/transformation/log_to_trie/algorithm.py
index 8fd3ce6..bdeab05 100644
--- a/pm4py/algo/transformation/log_to_trie/algorithm.py
+++ b/pm4py/algo/transformation/log_to_trie/algorithm.py
@@ -51,11 +51,10 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
                     trie = c
                     match = True
                     break
-            if match:
-                continue
-            node = Trie(label=activity, parent=trie, depth=trie.depth + 1)
-            trie.children.append(node)
-            trie = node
+            if not match:
+                node = Trie(label=activity, parent=trie, depth=trie.depth + 1)
+                trie.children.append(node)
+                trie = node
             if i == len(variant) - 1:
                 trie.final = True
     return root
-- 
2.43.0


From a35f17b3fd078406bbeb16f595b50be92dddfe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 004/220] fix: variants of a non-formatted dataframe ignored
 the computed sorting

---
 pm4py/objects/log/util/pandas_numpy_variants.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/pandas_numpy_variants.py b/pm4py/objects/log/util/pandas_numpy_variants.py
index b0dc973..0cc0980 100644
--- a/pm4py/objects/log/util/pandas_numpy_variants.py
+++ b/pm4py/objects/log/util/pandas_numpy_variants.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters=None) -> Tuple[Dict[Collection[str
     if not (hasattr(dataframe, "attrs") and dataframe.attrs):
         # dataframe has not been initialized through format_dataframe
         dataframe = pandas_utils.insert_index(dataframe, index_key)
-        dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
     case_variant = dict()
 
-- 
2.43.0


From b3f2c9aa27c5d029e794aba1375f7e024fdf041a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 005/220] fix: eventually-follows graph of an event log failed
 with a custom timestamp key

---
 pm4py/statistics/eventually_follows/log/get.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/statistics/eventually_follows/log/get.py b/pm4py/statistics/eventually_follows/log/get.py
index 918738b..5394f08 100644
--- a/pm4py/statistics/eventually_follows/log/get.py
+++ b/pm4py/statistics/eventually_follows/log/get.py
@@ -40,7 +40,7 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     keep_first_following = exec_utils.get_param_value(Parameters.KEEP_FIRST_FOLLOWING, parameters, False)
 
     ret_dict = {}
-- 
2.43.0


From a6e5aed2759e13165f9409a1dcf66a516cac1841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:27 +0000
Subject: [PATCH 006/220] fix: minimum self distance witnesses passed the
 parameters as variant

---
 pm4py/algo/discovery/minimum_self_distance/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/minimum_self_distance/utils.py b/pm4py/algo/discovery/minimum_self_distance/utils.py
index caf1d2e..809ca28 100644
--- a/pm4py/algo/discovery/minimum_self_distance/utils.py
+++ b/pm4py/algo/discovery/minimum_self_distance/utils.py
@@ -56,7 +56,7 @@ def derive_msd_witnesses(log: EventLog, msd: Optional[Dict[Any, int]] = None,
     act_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters,
                                          xes_constants.DEFAULT_NAME_KEY)
     alphabet = pm4py.get_event_attribute_values(log, act_key)
-    msd = msd if msd is not None else msd_algo.apply(log, parameters)
+    msd = msd if msd is not None else msd_algo.apply(log, parameters=parameters)
     log = list(map(lambda t: list(map(lambda e: e[act_key], t)), log))
     witnesses = dict()
     for a in alphabet:
-- 
2.43.0


From ae8f21948825ff680db829641281c623d1b41faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 007/220] fix: cycle time ignored the last production interval

---
 pm4py/statistics/traces/cycle_time/util/compute.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/statistics/traces/cycle_time/util/compute.py b/pm4py/statistics/traces/cycle_time/util/compute.py
index 22c3156..eef45ac 100644
--- a/pm4py/statistics/traces/cycle_time/util/compute.py
+++ b/pm4py/statistics/traces/cycle_time/util/compute.py
@@ -61,5 +61,6 @@ def cycle_time(events: List[Tuple[float, float]], num_instances: int) -> float:
             st = this_st
 
         et = max(et, this_et)
+    production_time += et - st
 
     return production_time / num_instances
-- 
2.43.0


From 3c58025f40a4702e0cbdf710c796a545c157f649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 008/220] fix: overlap statistics counted cases/events with
 identical intervals only once

---
 pm4py/statistics/overlap/utils/compute.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/statistics/overlap/utils/compute.py b/pm4py/statistics/overlap/utils/compute.py
index 37d57b2..01961c2 100644
--- a/pm4py/statistics/overlap/utils/compute.py
+++ b/pm4py/statistics/overlap/utils/compute.py
@@ -51,8 +51,9 @@ def apply(points: List[Tuple[float, float]], parameters: Optional[Dict[Union[str
     sorted_points = sorted(points)
     tree = IntervalTree()
 
-    for p in sorted_points:
-        tree.add(Interval(p[0], p[1]))
+    for i, p in enumerate(sorted_points):
+        # the index keeps equal intervals distinct in the tree
+        tree.add(Interval(p[0], p[1], i))
 
     overlap = []
     for p in points:
-- 
2.43.0


From 463f3c6dde5375f87275619e7309c5d1831180bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 009/220] fix: statistics ignored a custom timestamp key when
 no start timestamp key is given

---
 pm4py/statistics/overlap/cases/log/get.py              | 2 +-
 pm4py/statistics/overlap/cases/pandas/get.py           | 2 +-
 pm4py/statistics/overlap/interval_events/log/get.py    | 4 ++--
 pm4py/statistics/overlap/interval_events/pandas/get.py | 4 ++--
 pm4py/statistics/service_time/log/get.py               | 4 ++--
 pm4py/statistics/service_time/pandas/get.py            | 4 ++--
 pm4py/statistics/traces/cycle_time/log/get.py          | 2 +-
 7 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/pm4py/statistics/overlap/cases/log/get.py b/pm4py/statistics/overlap/cases/log/get.py
index b6559d1..58115e8 100644
--- a/pm4py/statistics/overlap/cases/log/get.py
+++ b/pm4py/statistics/overlap/cases/log/get.py
@@ -54,7 +54,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/cases/pandas/get.py b/pm4py/statistics/overlap/cases/pandas/get.py
index 1546bc5..165801a 100644
--- a/pm4py/statistics/overlap/cases/pandas/get.py
+++ b/pm4py/statistics/overlap/cases/pandas/get.py
@@ -53,7 +53,7 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     columns = list({timestamp_key, start_timestamp_key, case_id_key})
diff --git a/pm4py/statistics/overlap/interval_events/log/get.py b/pm4py/statistics/overlap/interval_events/log/get.py
index 1c7ddad..92e09e8 100644
--- a/pm4py/statistics/overlap/interval_events/log/get.py
+++ b/pm4py/statistics/overlap/interval_events/log/get.py
@@ -52,10 +52,10 @@ def apply(log: Union[EventLog, EventStream], parameters: Optional[Dict[Union[str
         parameters = {}
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
 
     points = []
     for trace in log:
diff --git a/pm4py/statistics/overlap/interval_events/pandas/get.py b/pm4py/statistics/overlap/interval_events/pandas/get.py
index cb42670..bc09792 100644
--- a/pm4py/statistics/overlap/interval_events/pandas/get.py
+++ b/pm4py/statistics/overlap/interval_events/pandas/get.py
@@ -51,10 +51,10 @@ def apply(df: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], An
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
 
     df = df[list({start_timestamp_key, timestamp_key})].to_dict('records')
     points = []
diff --git a/pm4py/statistics/service_time/log/get.py b/pm4py/statistics/service_time/log/get.py
index f3781a0..177a4ba 100644
--- a/pm4py/statistics/service_time/log/get.py
+++ b/pm4py/statistics/service_time/log/get.py
@@ -79,10 +79,10 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 03ce48e..9f4637a 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -75,10 +75,10 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
diff --git a/pm4py/statistics/traces/cycle_time/log/get.py b/pm4py/statistics/traces/cycle_time/log/get.py
index db3e57f..55b0ec3 100644
--- a/pm4py/statistics/traces/cycle_time/log/get.py
+++ b/pm4py/statistics/traces/cycle_time/log/get.py
@@ -59,8 +59,8 @@ def apply(log_or_trace: Union[Trace, EventLog], parameters: Optional[Dict[Union[
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     if type(log_or_trace) is Trace:
         log = EventLog()
-- 
2.43.0


From 729f80c3f726d3b3d484933de1853e1bc9fc5144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:19 +0000
Subject: [PATCH 010/220] fix: get_trace_attribute_values counted events
 instead of cases on dataframes

---
 pm4py/stats.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/stats.py b/pm4py/stats.py
index 2644415..8db7a02 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -193,6 +193,7 @@ def get_trace_attribute_values(log: Union[EventLog, pd.DataFrame], attribute: st
         if attribute not in log and constants.CASE_ATTRIBUTE_PREFIX + attribute in log:
             # if "attribute" does not exist as column, but "case:attribute" exists, then use that
             attribute = constants.CASE_ATTRIBUTE_PREFIX + attribute
+        parameters[get.Parameters.KEEP_ONCE_PER_CASE] = True
         ret = get.get_attribute_values(log, attribute, parameters=parameters)
         return ret
     else:
-- 
2.43.0


From 372a39b681f24261b0a57ca79364af7a54b4d85d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 011/220] fix: get_variants_paths_duration relied on the values
 of the dataframe index

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 795370c..8f5265e 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -230,7 +230,7 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
         df = df.reset_index(drop=True)
 
     if event_index not in df.columns:
-        df = pandas_utils.insert_index(df, event_index, copy_dataframe=False, reset_index=False)
+        df = pandas_utils.insert_index(df, event_index, copy_dataframe=False, reset_index=True)
 
     df = df.set_index(case_id_glue)
 
-- 
2.43.0


From 95a62cdab98440bf523de6eab3546cc919369a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 012/220] fix: log-based variants ignored a custom timestamp
 key when no start timestamp key is given

---
 .../temporal_profile/variants/log.py           |  2 +-
 pm4py/algo/discovery/batches/variants/log.py   |  4 ++--
 .../correlation_mining/variants/classic.py     |  4 ++--
 .../variants/classic_split.py                  |  2 +-
 .../correlation_mining/variants/trace_based.py |  4 ++--
 .../algo/discovery/dfg/variants/performance.py |  4 ++--
 .../discovery/temporal_profile/variants/log.py |  2 +-
 .../log_to_features/variants/trace_based.py    | 18 +++++++++---------
 .../variants/open_paths.py                     |  4 ++--
 .../concurrent_activities/log/get.py           |  2 +-
 .../conformance/temporal/variants/classic.py   |  2 +-
 11 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/pm4py/algo/conformance/temporal_profile/variants/log.py b/pm4py/algo/conformance/temporal_profile/variants/log.py
index c10224c..9165d2e 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/log.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/log.py
@@ -90,7 +90,7 @@ def apply(log: EventLog, temporal_profile: typing.TemporalProfile,
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
 
     ret = []
diff --git a/pm4py/algo/discovery/batches/variants/log.py b/pm4py/algo/discovery/batches/variants/log.py
index 84bb801..55f1deb 100644
--- a/pm4py/algo/discovery/batches/variants/log.py
+++ b/pm4py/algo/discovery/batches/variants/log.py
@@ -79,10 +79,10 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     events = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_STREAM)
diff --git a/pm4py/algo/discovery/correlation_mining/variants/classic.py b/pm4py/algo/discovery/correlation_mining/variants/classic.py
index e69ced5..c4509b7 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/classic.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/classic.py
@@ -125,7 +125,7 @@ def get_PS_dur_matrix(activities_grouped, activities, parameters=None):
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     exact_time_matching = exec_utils.get_param_value(Parameters.EXACT_TIME_MATCHING, parameters, False)
 
     PS_matrix = get_precede_succeed_matrix(activities, activities_grouped, timestamp_key, start_timestamp_key)
@@ -164,7 +164,7 @@ def preprocess_log(log, activities=None, parameters=None):
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, DEFAULT_INDEX_KEY)
 
     if pandas_utils.check_is_pandas_dataframe(log):
diff --git a/pm4py/algo/discovery/correlation_mining/variants/classic_split.py b/pm4py/algo/discovery/correlation_mining/variants/classic_split.py
index 9d3a887..43779c8 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/classic_split.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/classic_split.py
@@ -58,7 +58,7 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     sample_size = exec_utils.get_param_value(Parameters.SAMPLE_SIZE, parameters, 100000)
 
     PS_matrixes = []
diff --git a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
index 398f31f..2c1a9f9 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
@@ -118,7 +118,7 @@ def get_PS_duration_matrix(activities, trace_grouped_list, parameters=None):
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
 
     PS_matrix = get_precede_succeed_matrix(activities, trace_grouped_list, timestamp_key, start_timestamp_key)
     duration_matrix = get_duration_matrix(activities, trace_grouped_list, timestamp_key, start_timestamp_key)
@@ -159,7 +159,7 @@ def preprocess_log(log, activities=None, activities_counter=None, parameters=Non
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     caseid_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
     index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, DEFAULT_INDEX_KEY)
 
diff --git a/pm4py/algo/discovery/dfg/variants/performance.py b/pm4py/algo/discovery/dfg/variants/performance.py
index c25981a..d85d317 100644
--- a/pm4py/algo/discovery/dfg/variants/performance.py
+++ b/pm4py/algo/discovery/dfg/variants/performance.py
@@ -73,9 +73,9 @@ def performance(log: Union[EventLog, EventStream], parameters: Optional[Dict[Uni
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_util.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_util.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_util.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE, parameters, "mean")
 
     business_hours = exec_utils.get_param_value(Parameters.BUSINESS_HOURS, parameters, False)
diff --git a/pm4py/algo/discovery/temporal_profile/variants/log.py b/pm4py/algo/discovery/temporal_profile/variants/log.py
index 4bf2524..477eebb 100644
--- a/pm4py/algo/discovery/temporal_profile/variants/log.py
+++ b/pm4py/algo/discovery/temporal_profile/variants/log.py
@@ -80,7 +80,7 @@ def apply(log: EventLog, parameters: Optional[Dict[Any, Any]] = None) -> typing.
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
 
     diff_time_recordings = {}
 
diff --git a/pm4py/algo/transformation/log_to_features/variants/trace_based.py b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
index 17bc89b..9908b13 100644
--- a/pm4py/algo/transformation/log_to_features/variants/trace_based.py
+++ b/pm4py/algo/transformation/log_to_features/variants/trace_based.py
@@ -81,8 +81,8 @@ def max_concurrent_events(log: EventLog, parameters: Optional[Dict[Union[str, Pa
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     data = []
     feature_names = ["@@max_concurrent_activities_general"]
@@ -130,8 +130,8 @@ def max_concurrent_events_per_activity(log: EventLog, parameters: Optional[Dict[
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
 
     activities = list(set(y[activity_key] for x in log for y in x))
@@ -189,8 +189,8 @@ def resource_workload(log: EventLog, parameters: Optional[Dict[Union[str, Parame
 
     from intervaltree.intervaltree import IntervalTree, Interval
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
     epsilon = exec_utils.get_param_value(Parameters.EPSILON, parameters, 0.000001)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
@@ -249,8 +249,8 @@ def work_in_progress(log: EventLog, parameters: Optional[Dict[Union[str, Paramet
 
     from intervaltree.intervaltree import IntervalTree, Interval
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     epsilon = exec_utils.get_param_value(Parameters.EPSILON, parameters, 0.000001)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
@@ -298,8 +298,8 @@ def indirect_paths_times_last_occ(log: EventLog, parameters: Optional[Dict[Union
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     all_paths = set()
@@ -356,8 +356,8 @@ def direct_paths_times_last_occ(log: EventLog, parameters: Optional[Dict[Union[s
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     all_paths = set()
@@ -412,8 +412,8 @@ def times_from_first_occurrence_activity_case(log: EventLog, parameters: Optiona
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     activities_log = set()
@@ -473,8 +473,8 @@ def times_from_last_occurrence_activity_case(log: EventLog, parameters: Optional
         parameters = {}
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
     default_not_present = exec_utils.get_param_value(Parameters.DEFAULT_NOT_PRESENT, parameters, 0)
 
     activities_log = set()
@@ -589,8 +589,8 @@ def case_duration(log: EventLog, parameters: Optional[Dict[Union[str, Parameters
     if parameters is None:
         parameters = {}
 
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters, timestamp_key)
 
     feature_names = ["@@caseDuration"]
     data = []
diff --git a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
index 9a68843..a5e60ec 100644
--- a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
+++ b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
@@ -64,10 +64,10 @@ def log_to_intervals(log: Union[EventLog, pd.DataFrame], parameters: Optional[Di
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
-    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
+    start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
+                                                     timestamp_key)
     filter_activity_couple = exec_utils.get_param_value(Parameters.FILTER_ACTIVITY_COUPLE, parameters, None)
 
     ret_list = []
diff --git a/pm4py/statistics/concurrent_activities/log/get.py b/pm4py/statistics/concurrent_activities/log/get.py
index b1b2386..86ba72d 100644
--- a/pm4py/statistics/concurrent_activities/log/get.py
+++ b/pm4py/statistics/concurrent_activities/log/get.py
@@ -61,7 +61,7 @@ def apply(interval_log: EventLog, parameters: Optional[Dict[Union[str, Parameter
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                xes_constants.DEFAULT_TIMESTAMP_KEY)
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                     xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                     timestamp_key)
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, False)
 
     ret_dict = {}
diff --git a/pm4py/streaming/algo/conformance/temporal/variants/classic.py b/pm4py/streaming/algo/conformance/temporal/variants/classic.py
index ff29c90..975604f 100644
--- a/pm4py/streaming/algo/conformance/temporal/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/temporal/variants/classic.py
@@ -72,7 +72,7 @@ class TemporalProfileStreamingConformance(StreamingAlgorithm):
         self.timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
                                                         xes_constants.DEFAULT_TIMESTAMP_KEY)
         self.start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
-                                                              xes_constants.DEFAULT_TIMESTAMP_KEY)
+                                                              self.timestamp_key)
         self.case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         self.zeta = exec_utils.get_param_value(Parameters.ZETA, parameters, 6.0)
         parameters_gen = copy(parameters)
-- 
2.43.0


From 878f3835e1c9a0591fc0b62f5c8f913dda85b976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:48 +0000
Subject: [PATCH 013/220] fix: concurrent activities on dataframes kept only
 one of the two directions of a pair

---
 pm4py/statistics/concurrent_activities/pandas/get.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/statistics/concurrent_activities/pandas/get.py b/pm4py/statistics/concurrent_activities/pandas/get.py
index f464d3f..1c795db 100644
--- a/pm4py/statistics/concurrent_activities/pandas/get.py
+++ b/pm4py/statistics/concurrent_activities/pandas/get.py
@@ -74,7 +74,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     for el in ret_dict0:
         # avoid getting two entries for the same set of concurrent activities
         el2 = tuple(sorted(el))
-        ret_dict[el2] = int(ret_dict0[el])
+        ret_dict[el2] = ret_dict.get(el2, 0) + int(ret_dict0[el])
 
     return ret_dict
 
-- 
2.43.0


From 01b065ea3017b83494437849fb473bbd9ed0e55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 014/220] fix: dataframe DFG/EFG/concurrency computations added
 a column to the caller's dataframe

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 8f5265e..1549022 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -70,6 +70,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
         if start_timestamp_key not in df.columns:
+            df = df.copy()
             df[start_timestamp_key] = df[timestamp_key]
         st_eq_ct = True
 
@@ -210,6 +211,7 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
 
     if start_timestamp_key not in df:
+        df = df.copy()
         df[start_timestamp_key] = df[timestamp_key]
 
     # to increase the speed of the approaches reduce dataframe to case, activity (and possibly complete timestamp)
@@ -293,6 +295,7 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     # to avoid retro-compatibility problems
     if start_timestamp_key is None:
         start_timestamp_key = xes_constants.DEFAULT_START_TIMESTAMP_KEY
+        df = df.copy()
         df[start_timestamp_key] = df[timestamp_key]
 
     # to get rows belonging to same case ID together, we need to sort on case ID
-- 
2.43.0


From b58dc3f1cd6f269d8531f3dbebc56c9602d64e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:16 +0000
Subject: [PATCH 015/220] fix: service time added a column to the caller's
 dataframe

---
 pm4py/statistics/service_time/pandas/get.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/statistics/service_time/pandas/get.py b/pm4py/statistics/service_time/pandas/get.py
index 9f4637a..a620928 100644
--- a/pm4py/statistics/service_time/pandas/get.py
+++ b/pm4py/statistics/service_time/pandas/get.py
@@ -82,6 +82,7 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Union[str, Paramete
     aggregation_measure = exec_utils.get_param_value(Parameters.AGGREGATION_MEASURE,
                                                      parameters, "mean")
 
+    dataframe = dataframe.copy()
     if business_hours:
         dataframe[DIFF_KEY] = dataframe.apply(
             lambda x: soj_time_business_hours_diff(x[start_timestamp_key], x[timestamp_key], business_hours_slots, workcalendar), axis=1)
-- 
2.43.0


From 0a4b59200ffee9e1cf1d5bc16042e4b098a58338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 016/220] fix: business-hours DFG/EFG computation crashed on
 dataframes without any following pair

---
 .../discovery/dfg/adapters/pandas/df_statistics.py     | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 1549022..2dffc0b 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -124,8 +124,9 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
         if business_hours:
             if business_hours_slot is None:
                 business_hours_slot = constants.DEFAULT_BUSINESS_HOUR_SLOTS
-            df_successive_rows[constants.DEFAULT_FLOW_TIME] = df_successive_rows.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_key], x[start_timestamp_key + '_2'], business_hours_slot, workcalendar), axis=1)
+            df_successive_rows[constants.DEFAULT_FLOW_TIME] = [
+                soj_time_business_hours_diff(st, et, business_hours_slot, workcalendar) for st, et in
+                zip(df_successive_rows[timestamp_key], df_successive_rows[start_timestamp_key + '_2'])]
         else:
             difference = df_successive_rows[start_timestamp_key + '_2'] - df_successive_rows[timestamp_key]
             df_successive_rows[constants.DEFAULT_FLOW_TIME] = pandas_utils.get_total_seconds(difference)
@@ -245,8 +246,9 @@ def get_partial_order_dataframe(df, start_timestamp_key=None, timestamp_key="tim
     if business_hours:
         if business_hours_slot is None:
             business_hours_slot = constants.DEFAULT_BUSINESS_HOUR_SLOTS
-        df[constants.DEFAULT_FLOW_TIME] = df.apply(
-            lambda x: soj_time_business_hours_diff(x[timestamp_key], x[start_timestamp_key + '_2'], business_hours_slot, workcalendar), axis=1)
+        df[constants.DEFAULT_FLOW_TIME] = [
+            soj_time_business_hours_diff(st, et, business_hours_slot, workcalendar) for st, et in
+            zip(df[timestamp_key], df[start_timestamp_key + '_2'])]
     else:
         df[constants.DEFAULT_FLOW_TIME] = pandas_utils.get_total_seconds(df[start_timestamp_key + "_2"] - df[timestamp_key])
 
-- 
2.43.0


From a65066d4a0c9d75e6608c17011f136f3abdd0d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:06 +0000
Subject: [PATCH 017/220] fix: concurrent activities crashed on dataframes
 without any pair of events

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 2dffc0b..6c0275c 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -320,8 +320,8 @@ def get_concurrent_events_dataframe(df, start_timestamp_key=None, timestamp_key=
     df = df[df[constants.DEFAULT_INDEX_KEY] < df[constants.DEFAULT_INDEX_KEY + "_2"]]
     df[max_start_column] = df[[start_timestamp_key, start_timestamp_key + '_2']].max(axis=1)
     df[min_complete_column] = df[[timestamp_key, timestamp_key + '_2']].min(axis=1)
-    df[max_start_column] = df[max_start_column].apply(lambda x: x.timestamp())
-    df[min_complete_column] = df[min_complete_column].apply(lambda x: x.timestamp())
+    df[max_start_column] = [x.timestamp() for x in df[max_start_column]]
+    df[min_complete_column] = [x.timestamp() for x in df[min_complete_column]]
     df[diff_maxs_minc] = df[min_complete_column] - df[max_start_column]
     if strict:
         df = df[df[diff_maxs_minc] > 0]
-- 
2.43.0


From 7cb91526d6c00824528184ec2c65e6d485c1594b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 018/220] fix: trace segments filter interpreted activities as
 regex (special characters, commas) and failed on adjacent wildcards

---
 .../filtering/common/traces/infix_to_regex.py | 50 ++++++++++++-------
 .../algo/filtering/log/traces/trace_filter.py |  8 ++-
 .../filtering/pandas/traces/trace_filter.py   | 15 ++----
 3 files changed, 39 insertions(+), 34 deletions(-)

diff --git a/pm4py/algo/filtering/common/traces/infix_to_regex.py b/pm4py/algo/filtering/common/traces/infix_to_regex.py
index f0a53ee..05d443e 100644
--- a/pm4py/algo/filtering/common/traces/infix_to_regex.py
+++ b/pm4py/algo/filtering/common/traces/infix_to_regex.py
@@ -14,20 +14,36 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
-def translate_infix_to_regex(infix):
-    regex = "^"
-    for i, act in enumerate(infix):
-        is_last_activity = i == (len(infix) - 1)
-        if act == "...":
-            if is_last_activity:
-                regex = f"{regex[:-1]}(,[^,]*)*"
-            else:
-                regex = f"{regex}([^,]*,)*"
-        else:
-            if is_last_activity:
-                regex = f"{regex}{act}"
-            else:
-                regex = f"{regex}{act},"
-
-    regex = f"{regex}$"
-    return regex
+import re
+
+
+def translate_infix_to_regex(infix, labels):
+    """
+    Translates an infix to a regex over encoded traces (see encode_trace)
+
+    Parameters
+    ----------------
+    infix
+        List of activities and "..."
+    labels
+        Dictionary associating each activity to its code
+    """
+    regex = "".join("([0-9]+,)*" if act == "..." else encode_trace([act], labels) for act in infix)
+    return f"^{regex}$"
+
+
+def encode_trace(activities, labels):
+    """
+    Encodes a sequence of activities as a string where the activities are replaced by their code,
+    so that special characters in the activities (commas, regex operators) do not affect the matching
+    """
+    return "".join(f"{labels.setdefault(act, len(labels))}," for act in activities)
+
+
+def get_infix_matcher(infixes):
+    """
+    Gets a function deciding if a sequence of activities is described by at least one of the provided infixes
+    """
+    labels = {}
+    regex = re.compile("|".join([f"({translate_infix_to_regex(inf, labels)})" for inf in infixes]))
+    return lambda activities: bool(regex.search(encode_trace(activities, labels)))
diff --git a/pm4py/algo/filtering/log/traces/trace_filter.py b/pm4py/algo/filtering/log/traces/trace_filter.py
index 982a2fa..0d111f0 100644
--- a/pm4py/algo/filtering/log/traces/trace_filter.py
+++ b/pm4py/algo/filtering/log/traces/trace_filter.py
@@ -14,12 +14,11 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
-import re
 from enum import Enum
 from pm4py.util import exec_utils, constants, xes_constants
 from typing import Optional, Dict, Any, Union, List
 from pm4py.objects.conversion.log import converter as log_converter
-from pm4py.algo.filtering.common.traces.infix_to_regex import translate_infix_to_regex
+from pm4py.algo.filtering.common.traces.infix_to_regex import get_infix_matcher
 from pm4py.objects.log.obj import EventLog, EventStream
 import pandas as pd
 
@@ -63,13 +62,12 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], admitted_traces: List
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
-    filter_regex = "|".join([f"({translate_infix_to_regex(inf)})" for inf in admitted_traces])
+    matches_infix = get_infix_matcher(admitted_traces)
     filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
             omni_present=log.omni_present, properties=log.properties)
 
     for case in log:
-        t = constants.DEFAULT_VARIANT_SEP.join([x[activity_key] for x in case])
-        found = bool(re.search(filter_regex, t))
+        found = matches_infix([x[activity_key] for x in case])
         if (positive and found) or (not positive and not found):
             filtered_log.append(case)
 
diff --git a/pm4py/algo/filtering/pandas/traces/trace_filter.py b/pm4py/algo/filtering/pandas/traces/trace_filter.py
index b9c410d..6b34db5 100644
--- a/pm4py/algo/filtering/pandas/traces/trace_filter.py
+++ b/pm4py/algo/filtering/pandas/traces/trace_filter.py
@@ -20,12 +20,10 @@ from pm4py.statistics.traces.generic.pandas.case_statistics import get_variants_
 from pm4py.util.constants import PARAMETER_CONSTANT_CASEID_KEY, PARAMETER_CONSTANT_ACTIVITY_KEY
 from enum import Enum
 from pm4py.util import exec_utils
-from pm4py.algo.filtering.common.traces.infix_to_regex import translate_infix_to_regex
+from pm4py.algo.filtering.common.traces.infix_to_regex import get_infix_matcher
 from copy import copy
 from typing import Optional, Dict, Any, Union, List
 import pandas as pd
-from pm4py.util import constants
-import re
 
 
 class Parameters(Enum):
@@ -67,15 +65,8 @@ def apply(df: pd.DataFrame, admitted_traces: List[List[str]],
     variants_df = parameters["variants_df"] if "variants_df" in parameters else get_variants_df(df,
                                                                                                 parameters=parameters)
 
-    first_case_variant = variants_df["variant"].iloc[0]
-    if isinstance(first_case_variant, tuple):
-        # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-
-    filter_regex = "|".join([f"({translate_infix_to_regex(inf)})" for inf in admitted_traces])
-    variants_df["matches_infix"] = variants_df["variant"].apply(lambda t: bool(re.search(filter_regex, t)))
-    variants_df = variants_df[variants_df["matches_infix"]]
+    matches_infix = get_infix_matcher(admitted_traces)
+    variants_df = variants_df[[matches_infix(v) for v in variants_df["variant"]]]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
-- 
2.43.0


From 8d9b6aa300f494d3af71e86071845ddf6483b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:48 +0000
Subject: [PATCH 019/220] fix: paths filters on dataframes matched paths across
 cases and confused activities containing commas

---
 pm4py/algo/filtering/pandas/paths/paths_filter.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/paths/paths_filter.py b/pm4py/algo/filtering/pandas/paths/paths_filter.py
index b61e0bc..83955f2 100644
--- a/pm4py/algo/filtering/pandas/paths/paths_filter.py
+++ b/pm4py/algo/filtering/pandas/paths/paths_filter.py
@@ -69,15 +69,14 @@ def apply(df: pd.DataFrame, paths: List[Tuple[str, str]], parameters: Optional[D
     target_attribute_key = exec_utils.get_param_value(Parameters.TARGET_ATTRIBUTE_KEY, parameters, attribute_key)
 
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    paths = [path[0] + DEFAULT_VARIANT_SEP + path[1] for path in paths]
+    paths = set(tuple(path) for path in paths)
     df = df.sort_values([case_id_glue, timestamp_key])
     filt_df = df[list({case_id_glue, attribute_key, target_attribute_key})]
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
     stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
-    stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[target_attribute_key + "_2"]
-    stacked_df = stacked_df[stacked_df["@@path"].isin(paths)]
+    stacked_df = stacked_df[[path in paths for path in zip(stacked_df[attribute_key], stacked_df[target_attribute_key + "_2"])]]
     i1 = df.set_index(case_id_glue).index
     i2 = stacked_df.set_index(case_id_glue).index
     if positive:
@@ -121,7 +120,6 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     attribute_key = exec_utils.get_param_value(Parameters.ATTRIBUTE_KEY, parameters, DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, DEFAULT_TIMESTAMP_KEY)
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
-    provided_path = provided_path[0] + DEFAULT_VARIANT_SEP + provided_path[1]
     min_performance = exec_utils.get_param_value(Parameters.MIN_PERFORMANCE, parameters, 0)
     max_performance = exec_utils.get_param_value(Parameters.MAX_PERFORMANCE, parameters, sys.maxsize)
     df = df.sort_values([case_id_glue, timestamp_key])
@@ -129,8 +127,8 @@ def apply_performance(df: pd.DataFrame, provided_path: Tuple[str, str], paramete
     filt_dif_shifted = filt_df.shift(-1)
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
-    stacked_df["@@path"] = stacked_df[attribute_key] + DEFAULT_VARIANT_SEP + stacked_df[attribute_key + "_2"]
-    stacked_df = stacked_df[stacked_df["@@path"] == provided_path]
+    stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
+    stacked_df = stacked_df[(stacked_df[attribute_key] == provided_path[0]) & (stacked_df[attribute_key + "_2"] == provided_path[1])]
     stacked_df["@@timedelta"] = pandas_utils.get_total_seconds(stacked_df[timestamp_key + "_2"] - stacked_df[timestamp_key])
     stacked_df = stacked_df[stacked_df["@@timedelta"] >= min_performance]
     stacked_df = stacked_df[stacked_df["@@timedelta"] <= max_performance]
-- 
2.43.0


From b578b9e6dde012d0cfc2c38b8551be3f46113ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 020/220] fix: traces_intersecting filter on dataframes
 excluded the boundaries of the time range

---
 .../filtering/pandas/timestamp/timestamp_filter.py   | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py b/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
index 40c4e81..7080dfe 100644
--- a/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
+++ b/pm4py/algo/filtering/pandas/timestamp/timestamp_filter.py
@@ -108,12 +108,12 @@ def filter_traces_intersecting(df: pd.DataFrame, dt1: Union[str, datetime.dateti
     last = grouped_df.last()
     last.columns = [str(col) + '_2' for col in last.columns]
     stacked = pandas_utils.concat([first, last], axis=1)
-    stacked1 = stacked[stacked[timestamp_key] > dt1]
-    stacked1 = stacked1[stacked1[timestamp_key] < dt2]
-    stacked2 = stacked[stacked[timestamp_key + "_2"] > dt1]
-    stacked2 = stacked2[stacked2[timestamp_key + "_2"] < dt2]
-    stacked3 = stacked[stacked[timestamp_key] < dt1]
-    stacked3 = stacked3[stacked3[timestamp_key + "_2"] > dt2]
+    stacked1 = stacked[stacked[timestamp_key] >= dt1]
+    stacked1 = stacked1[stacked1[timestamp_key] <= dt2]
+    stacked2 = stacked[stacked[timestamp_key + "_2"] >= dt1]
+    stacked2 = stacked2[stacked2[timestamp_key + "_2"] <= dt2]
+    stacked3 = stacked[stacked[timestamp_key] <= dt1]
+    stacked3 = stacked3[stacked3[timestamp_key + "_2"] >= dt2]
     stacked = pandas_utils.concat([stacked1, stacked2, stacked3], axis=0)
     i1 = df.set_index(case_id_glue).index
     i2 = stacked.set_index(case_id_glue).index
-- 
2.43.0


From 9687386a4dcb5c9cc39fe8e5eae306fdf943336e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 021/220] fix: four eyes principle on dataframes considered
 only the last occurrence of the second activity

---
 pm4py/algo/filtering/pandas/ltl/ltl_checker.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
index b73fb86..89acc45 100644
--- a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
@@ -209,12 +209,10 @@ def four_eyes_principle(df0: pd.DataFrame, A: str, B: str, parameters: Optional[
     df = df0.copy()
     df = df[[case_id_glue, attribute_key, resource_key]]
 
-    df_A = df[df[attribute_key] == A].copy()
-    df_B = df[df[attribute_key] == B].copy()
-    df_B["@@conceptname"] = df_B[case_id_glue]
-    df_B = df_B.groupby(case_id_glue).last().set_index("@@conceptname")
+    df_A = df[df[attribute_key] == A].drop_duplicates()
+    df_B = df[df[attribute_key] == B].drop_duplicates()
 
-    df_join = df_A.join(df_B, on=case_id_glue, rsuffix="_2").dropna()
+    df_join = df_A.merge(df_B, on=case_id_glue, suffixes=("", "_2")).dropna()
     df_join_pos = df_join[df_join[resource_key] == df_join[resource_key + "_2"]]
     df_join_neg = df_join[df_join[resource_key] != df_join[resource_key + "_2"]]
 
-- 
2.43.0


From 50ca06f8d347301e3ccb562b431a73d587bbe02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 022/220] fix: between filter on dataframes assumed contiguous
 cases and lost the last event of the sub-cases between two occurrences of the
 same activity

---
 .../filtering/log/between/between_filter.py   |  2 +-
 .../pandas/between/between_filter.py          | 28 +++++++++----------
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/pm4py/algo/filtering/log/between/between_filter.py b/pm4py/algo/filtering/log/between/between_filter.py
index 046a6ae..2a2623b 100644
--- a/pm4py/algo/filtering/log/between/between_filter.py
+++ b/pm4py/algo/filtering/log/between/between_filter.py
@@ -32,7 +32,7 @@ class Parameters(Enum):
 def __fix_trace_attributes(trace_attributes, idx, rel_count, case_id_key, subcase_concat_str):
     trace_attributes = copy(trace_attributes)
     if case_id_key in trace_attributes:
-        trace_attributes[case_id_key] = trace_attributes[case_id_key] + subcase_concat_str + str(rel_count)
+        trace_attributes[case_id_key] = str(trace_attributes[case_id_key]) + subcase_concat_str + str(rel_count)
     else:
         trace_attributes[case_id_key] = str(idx) + subcase_concat_str + str(rel_count)
     return trace_attributes
diff --git a/pm4py/algo/filtering/pandas/between/between_filter.py b/pm4py/algo/filtering/pandas/between/between_filter.py
index 9ebe41c..5f3d903 100644
--- a/pm4py/algo/filtering/pandas/between/between_filter.py
+++ b/pm4py/algo/filtering/pandas/between/between_filter.py
@@ -17,7 +17,6 @@
 from enum import Enum
 from typing import Optional, Dict, Any, Union, List
 
-import numpy as np
 import pandas as pd
 
 from pm4py.util import exec_utils, constants, xes_constants
@@ -64,23 +63,23 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
     act1_comparison = lambda x: (x == act1) if type(act1) is str else (x in act1)
     act2_comparison = lambda x: (x == act2) if type(act2) is str else (x in act2)
 
-    df = df.copy()
-    cases = df[case_id_key].to_numpy()
     activities = df[activity_key].to_numpy()
-    c_unq, c_ind, c_counts = np.unique(cases, return_index=True, return_counts=True)
-    res = [np.nan for i in range(len(df))]
+    # positions of the events of each case (the events of a case are not necessarily contiguous)
+    case_positions = df.groupby(case_id_key, sort=False).indices
+    res_positions = []
+    res_cases = []
 
-    i = 0
-    while i < len(c_unq):
+    for case, positions in case_positions.items():
         rel_count = 0
         occ_A = -1
         j = 0
-        while j < c_counts[i]:
-            if act2_comparison(activities[c_ind[i] + j]) and occ_A >= 0:
+        while j < len(positions):
+            if act2_comparison(activities[positions[j]]) and occ_A >= 0:
                 z = occ_A
-                this_case = str(c_unq[i]) + subcase_concat_str + str(rel_count)
+                this_case = str(case) + subcase_concat_str + str(rel_count)
                 while z <= j:
-                    res[c_ind[i] + z] = this_case
+                    res_positions.append(positions[z])
+                    res_cases.append(this_case)
                     z = z + 1
                 rel_count += 1
                 if act1 != act2:
@@ -90,12 +89,11 @@ def apply(df: pd.DataFrame, act1: Union[str, List[str]], act2: Union[str, List[s
                 else:
                     # otherwise, if A = B, then it continues outputting the events to a new subcase
                     occ_A = j
-            elif act1_comparison(activities[c_ind[i] + j]) and occ_A == -1:
+            elif act1_comparison(activities[positions[j]]) and occ_A == -1:
                 occ_A = j
             j = j + 1
-        i = i + 1
 
-    df[case_id_key] = res
-    df = df.dropna(subset=[case_id_key])
+    df = df.iloc[res_positions].copy()
+    df[case_id_key] = res_cases
 
     return df
-- 
2.43.0


From a874aa221d80dede7bef8dca85263f7e57026062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 023/220] fix: filtering an event log on event attribute values
 failed when some events miss the attribute

---
 pm4py/algo/filtering/log/attributes/attributes_filter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/filtering/log/attributes/attributes_filter.py b/pm4py/algo/filtering/log/attributes/attributes_filter.py
index d3916ee..f0d214a 100644
--- a/pm4py/algo/filtering/log/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/log/attributes/attributes_filter.py
@@ -198,11 +198,11 @@ def apply_events(log: EventLog, values: List[str], parameters: Optional[Dict[Uni
 
     stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters=conversion_parameters)
     if positive:
-        stream = EventStream(list(filter(lambda x: x[attribute_key] in values, stream)), attributes=log.attributes,
+        stream = EventStream(list(filter(lambda x: attribute_key in x and x[attribute_key] in values, stream)), attributes=log.attributes,
                              extensions=log.extensions, classifiers=log.classifiers,
                              omni_present=log.omni_present, properties=log.properties)
     else:
-        stream = EventStream(list(filter(lambda x: x[attribute_key] not in values, stream)), attributes=log.attributes,
+        stream = EventStream(list(filter(lambda x: attribute_key not in x or x[attribute_key] not in values, stream)), attributes=log.attributes,
                              extensions=log.extensions, classifiers=log.classifiers,
                              omni_present=log.omni_present, properties=log.properties)
 
-- 
2.43.0


From 12851f1aede44eb513809e73ae8f416cc08bafab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 024/220] fix: attribute and time range filters added the case
 attributes to the events of the log given as input

---
 pm4py/algo/filtering/log/attributes/attributes_filter.py | 6 +++---
 pm4py/algo/filtering/log/timestamp/timestamp_filter.py   | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/filtering/log/attributes/attributes_filter.py b/pm4py/algo/filtering/log/attributes/attributes_filter.py
index f0d214a..55da2ce 100644
--- a/pm4py/algo/filtering/log/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/log/attributes/attributes_filter.py
@@ -83,7 +83,7 @@ def apply_numeric(log: EventLog, int1: float, int2: float, parameters: Optional[
     stream_filter_value2 = exec_utils.get_param_value(Parameters.STREAM_FILTER_VALUE2, parameters, None)
 
     conversion_parameters = copy(parameters)
-    conversion_parameters["deepcopy"] = False
+    conversion_parameters["deepcopy"] = True
 
     stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters=conversion_parameters)
     if stream_filter_key1 is not None:
@@ -149,7 +149,7 @@ def apply_numeric_events(log: EventLog, int1: float, int2: float, parameters: Op
     attribute_key = exec_utils.get_param_value(Parameters.ATTRIBUTE_KEY, parameters, DEFAULT_NAME_KEY)
 
     conversion_parameters = copy(parameters)
-    conversion_parameters["deepcopy"] = False
+    conversion_parameters["deepcopy"] = True
     stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters=conversion_parameters)
     if exec_utils.get_param_value(Parameters.POSITIVE, parameters, True):
         stream = EventStream(list(filter(lambda x: attribute_key in x and int1 <= x[attribute_key] <= int2, stream)),
@@ -194,7 +194,7 @@ def apply_events(log: EventLog, values: List[str], parameters: Optional[Dict[Uni
     positive = exec_utils.get_param_value(Parameters.POSITIVE, parameters, True)
 
     conversion_parameters = copy(parameters)
-    conversion_parameters["deepcopy"] = False
+    conversion_parameters["deepcopy"] = True
 
     stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters=conversion_parameters)
     if positive:
diff --git a/pm4py/algo/filtering/log/timestamp/timestamp_filter.py b/pm4py/algo/filtering/log/timestamp/timestamp_filter.py
index 9200872..11fa3b0 100644
--- a/pm4py/algo/filtering/log/timestamp/timestamp_filter.py
+++ b/pm4py/algo/filtering/log/timestamp/timestamp_filter.py
@@ -252,7 +252,7 @@ def apply_events(log: EventLog, dt1: Union[str, datetime.datetime], dt2: Union[s
     dt1 = get_dt_from_string(dt1)
     dt2 = get_dt_from_string(dt2)
 
-    stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters={"deepcopy": False})
+    stream = log_converter.apply(log, variant=log_converter.TO_EVENT_STREAM, parameters={"deepcopy": True})
     filtered_stream = EventStream([x for x in stream if dt1 <= strpfromiso.fix_naivety(x[timestamp_key]) <= dt2],
                                   attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present,
                                   classifiers=log.classifiers, properties=log.properties)
-- 
2.43.0


From 25f6ffff89895f70bf33be73cb6b3bcc0e855221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 025/220] fix: conversion to event log removed every occurrence
 of the case prefix from the name of the case attributes

---
 pm4py/objects/conversion/log/variants/to_event_log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/log/variants/to_event_log.py b/pm4py/objects/conversion/log/variants/to_event_log.py
index 8b20170..5e37625 100644
--- a/pm4py/objects/conversion/log/variants/to_event_log.py
+++ b/pm4py/objects/conversion/log/variants/to_event_log.py
@@ -92,7 +92,7 @@ def __transform_event_stream_to_event_log(log, case_glue=Parameters.CASE_ID_KEY.
             if include_case_attributes:
                 for k in event.keys():
                     if k.startswith(case_attribute_prefix):
-                        trace_attr[k.replace(case_attribute_prefix, '')] = event[k]
+                        trace_attr[k[len(case_attribute_prefix):]] = event[k]
                 if xes.DEFAULT_TRACEID_KEY not in trace_attr:
                     trace_attr[xes.DEFAULT_TRACEID_KEY] = glue
             traces[glue] = log_instance.Trace(attributes=trace_attr)
-- 
2.43.0


From b9a581b581cef66b293d673248917cf37d2cf409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 026/220] fix: prefix/suffix filters on dataframes left
 temporary columns in the result and could add them to the dataframe given as
 input

---
 pm4py/algo/filtering/pandas/prefixes/prefix_filter.py | 6 ++++--
 pm4py/algo/filtering/pandas/suffixes/suffix_filter.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py b/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py
index c66bb39..67360cd 100644
--- a/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py
+++ b/pm4py/algo/filtering/pandas/prefixes/prefix_filter.py
@@ -69,8 +69,10 @@ def apply(df: pd.DataFrame, activity: str, parameters: Optional[Dict[Any, Any]]
     first_or_last = exec_utils.get_param_value(Parameters.FIRST_OR_LAST, parameters, "first")
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, True)
 
+    original_columns = list(df.columns)
+    df = df.copy()
     if index_in_trace_key not in df.columns:
-        df = pandas_utils.insert_ev_in_tr_index(df, column_name=index_in_trace_key, case_id=case_id_key)
+        df = pandas_utils.insert_ev_in_tr_index(df, column_name=index_in_trace_key, case_id=case_id_key, copy_dataframe=False)
 
     position_activity = df[df[activity_key] == activity].groupby(case_id_key)
     if first_or_last == "first":
@@ -86,4 +88,4 @@ def apply(df: pd.DataFrame, activity: str, parameters: Optional[Dict[Any, Any]]
     else:
         df = df[df[index_in_trace_key] <= df[temp_column]]
 
-    return df
+    return df[original_columns]
diff --git a/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py b/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py
index 729784e..f1aa0c9 100644
--- a/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py
+++ b/pm4py/algo/filtering/pandas/suffixes/suffix_filter.py
@@ -69,8 +69,10 @@ def apply(df: pd.DataFrame, activity: str, parameters: Optional[Dict[Any, Any]]
     first_or_last = exec_utils.get_param_value(Parameters.FIRST_OR_LAST, parameters, "first")
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, True)
 
+    original_columns = list(df.columns)
+    df = df.copy()
     if index_in_trace_key not in df.columns:
-        df = pandas_utils.insert_ev_in_tr_index(df, column_name=index_in_trace_key, case_id=case_id_key)
+        df = pandas_utils.insert_ev_in_tr_index(df, column_name=index_in_trace_key, case_id=case_id_key, copy_dataframe=False)
 
     position_activity = df[df[activity_key] == activity].groupby(case_id_key)
     if first_or_last == "first":
@@ -86,4 +88,4 @@ def apply(df: pd.DataFrame, activity: str, parameters: Optional[Dict[Any, Any]]
     else:
         df = df[df[index_in_trace_key] >= df[temp_column]]
 
-    return df
+    return df[original_columns]
-- 
2.43.0


From 65118867c92502779ab2638f0d32f0de319c3b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 027/220] fix: filter_df_keeping_spno_activities returned the
 unfiltered dataframe

---
 pm4py/algo/filtering/pandas/attributes/attributes_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/filtering/pandas/attributes/attributes_filter.py b/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
index ad24dfe..a5b6337 100644
--- a/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/pandas/attributes/attributes_filter.py
@@ -305,7 +305,7 @@ def filter_df_keeping_spno_activities(df: pd.DataFrame, activity_key: str = "con
         ret = df
 
     ret.attrs = copy(df.attrs) if hasattr(df, 'attrs') else {}
-    return df
+    return ret
 
 
 def filter_df_relative_occurrence_event_attribute(df: pd.DataFrame, min_relative_stake: float, parameters: Optional[Dict[Any, Any]] = None) -> pd.DataFrame:
-- 
2.43.0


From 9ca39712a7967099beda8a2637ca6fea5674da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 028/220] fix: case size/performance, prefix/suffix filters and
 sampling lost metadata (attributes, extensions, globals, classifiers) of the
 event log

---
 pm4py/algo/filtering/log/cases/case_filter.py      | 12 ++++++++----
 pm4py/algo/filtering/log/prefixes/prefix_filter.py |  2 +-
 pm4py/algo/filtering/log/suffixes/suffix_filter.py |  2 +-
 pm4py/objects/log/util/sampling.py                 |  4 ++--
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/filtering/log/cases/case_filter.py b/pm4py/algo/filtering/log/cases/case_filter.py
index a10a54b..0cb8a6b 100644
--- a/pm4py/algo/filtering/log/cases/case_filter.py
+++ b/pm4py/algo/filtering/log/cases/case_filter.py
@@ -54,7 +54,8 @@ def filter_on_case_performance(log: EventLog, inf_perf: float, sup_perf: float,
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, DEFAULT_TIMESTAMP_KEY)
-    filtered_log = EventLog([trace for trace in log if satisfy_perf(trace, inf_perf, sup_perf, timestamp_key)])
+    filtered_log = EventLog([trace for trace in log if satisfy_perf(trace, inf_perf, sup_perf, timestamp_key)], attributes=log.attributes, extensions=log.extensions,
+                            classifiers=log.classifiers, omni_present=log.omni_present, properties=log.properties)
     return filtered_log
 
 
@@ -76,7 +77,8 @@ def filter_on_ncases(log: EventLog, max_no_cases: int = 1000) -> EventLog:
     """
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG)
 
-    filtered_log = EventLog(log[:min(len(log), max_no_cases)])
+    filtered_log = EventLog(log[:min(len(log), max_no_cases)], attributes=log.attributes, extensions=log.extensions,
+                            classifiers=log.classifiers, omni_present=log.omni_present, properties=log.properties)
     return filtered_log
 
 
@@ -101,9 +103,11 @@ def filter_on_case_size(log: EventLog, min_case_size: int = 2, max_case_size=Non
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG)
 
     if max_case_size is not None:
-        filtered_log = EventLog([trace for trace in log if min_case_size <= len(trace) <= max_case_size])
+        filtered_log = EventLog([trace for trace in log if min_case_size <= len(trace) <= max_case_size], attributes=log.attributes, extensions=log.extensions,
+                            classifiers=log.classifiers, omni_present=log.omni_present, properties=log.properties)
     else:
-        filtered_log = EventLog([trace for trace in log if len(trace) >= min_case_size])
+        filtered_log = EventLog([trace for trace in log if len(trace) >= min_case_size], attributes=log.attributes, extensions=log.extensions,
+                            classifiers=log.classifiers, omni_present=log.omni_present, properties=log.properties)
     return filtered_log
 
 
diff --git a/pm4py/algo/filtering/log/prefixes/prefix_filter.py b/pm4py/algo/filtering/log/prefixes/prefix_filter.py
index ac3f44f..7a2ab2e 100644
--- a/pm4py/algo/filtering/log/prefixes/prefix_filter.py
+++ b/pm4py/algo/filtering/log/prefixes/prefix_filter.py
@@ -58,7 +58,7 @@ def apply(log: Union[EventLog, EventStream], activity: str, parameters: Optional
     first_or_last = exec_utils.get_param_value(Parameters.FIRST_OR_LAST, parameters, "first")
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, True)
 
-    filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, globals=log.omni_present,
+    filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present,
                        classifiers=log.classifiers, properties=log.properties)
 
     for trace in log:
diff --git a/pm4py/algo/filtering/log/suffixes/suffix_filter.py b/pm4py/algo/filtering/log/suffixes/suffix_filter.py
index eaa1b1a..f39a0e8 100644
--- a/pm4py/algo/filtering/log/suffixes/suffix_filter.py
+++ b/pm4py/algo/filtering/log/suffixes/suffix_filter.py
@@ -58,7 +58,7 @@ def apply(log: Union[EventLog, EventStream], activity: str, parameters: Optional
     first_or_last = exec_utils.get_param_value(Parameters.FIRST_OR_LAST, parameters, "first")
     strict = exec_utils.get_param_value(Parameters.STRICT, parameters, True)
 
-    filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, globals=log.omni_present,
+    filtered_log = EventLog(attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present,
                        classifiers=log.classifiers, properties=log.properties)
 
     for trace in log:
diff --git a/pm4py/objects/log/util/sampling.py b/pm4py/objects/log/util/sampling.py
index 1ba9ca8..0504b2b 100644
--- a/pm4py/objects/log/util/sampling.py
+++ b/pm4py/objects/log/util/sampling.py
@@ -35,7 +35,7 @@ def sample_stream(event_log, no_events=100):
     newLog
         Filtered log
     """
-    new_log = EventStream(attributes=event_log.attributes, extensions=event_log.extensions, globals=event_log.omni_present,
+    new_log = EventStream(attributes=event_log.attributes, extensions=event_log.extensions, omni_present=event_log.omni_present,
                           classifiers=event_log.classifiers)
     new_log._list = random.sample(event_log, min(no_events, len(event_log)))
     return new_log
@@ -57,7 +57,7 @@ def sample_log(log, no_traces=100):
     newLog
         Filtered log
     """
-    new_log = EventLog(attributes=log.attributes, extensions=log.extensions, globals=log.omni_present,
+    new_log = EventLog(attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present,
                        classifiers=log.classifiers, properties=log.properties)
     new_log._list = random.sample(log, min(no_traces, len(log)))
     return new_log
-- 
2.43.0


From 1fe0c195e1fd455d4a014d78d619afdaff5b3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 029/220] fix: eventually-follows filter on event logs
 evaluated the time boundaries on the first events of the case

---
 pm4py/algo/filtering/log/ltl/ltl_checker.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/filtering/log/ltl/ltl_checker.py b/pm4py/algo/filtering/log/ltl/ltl_checker.py
index 7aec690..1f36f5a 100644
--- a/pm4py/algo/filtering/log/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/log/ltl/ltl_checker.py
@@ -107,8 +107,8 @@ def eventually_follows(log: EventLog, attribute_values: List[str], parameters: O
             if ok:
                 if enable_timestamp and timestamp_diff_boundaries:
                     for i in range(len(c)-1):
-                        timest_i = trace[i][timestamp_key].timestamp()
-                        timest_j = trace[i+1][timestamp_key].timestamp()
+                        timest_i = trace[c[i]][timestamp_key].timestamp()
+                        timest_j = trace[c[i + 1]][timestamp_key].timestamp()
                         if timest_j - timest_i < timestamp_diff_boundaries[i][0] or timest_j - timest_i > timestamp_diff_boundaries[i][1]:
                             ok = False
                             break
-- 
2.43.0


From 88688ef1e492ef14031fa749788723db1d2307e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 030/220] fix: A_next_B_next_C on dataframes considered only
 the last occurrences of the activities and assumed contiguous cases

---
 pm4py/algo/filtering/pandas/ltl/ltl_checker.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
index 89acc45..27b3007 100644
--- a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
@@ -147,16 +147,12 @@ def A_next_B_next_C(df0: pd.DataFrame, A: str, B: str, C: str, parameters: Optio
 
     df = df0.copy()
     df = df[[case_id_glue, attribute_key]]
-    df = pandas_utils.insert_index(df)
+    df = pandas_utils.insert_ev_in_tr_index(df, case_id=case_id_glue, column_name=constants.DEFAULT_INDEX_KEY)
     df_A = df[df[attribute_key] == A].copy()
     df_B = df[df[attribute_key] == B].copy()
     df_C = df[df[attribute_key] == C].copy()
-    df_B["@@conceptname"] = df_B[case_id_glue]
-    df_B = df_B.groupby(case_id_glue).last().set_index("@@conceptname")
-    df_C["@@conceptname"] = df_C[case_id_glue]
-    df_C = df_C.groupby(case_id_glue).last().set_index("@@conceptname")
 
-    df_join = df_A.join(df_B, on=case_id_glue, rsuffix="_2").dropna().join(df_C, on=case_id_glue, rsuffix="_3").dropna()
+    df_join = df_A.merge(df_B, on=case_id_glue, suffixes=("", "_2")).merge(df_C, on=case_id_glue, suffixes=("", "_3"))
     df_join["@@diffindex"] = df_join[constants.DEFAULT_INDEX_KEY + "_2"] - df_join[constants.DEFAULT_INDEX_KEY]
     df_join["@@diffindex2"] = df_join[constants.DEFAULT_INDEX_KEY + "_3"] - df_join[constants.DEFAULT_INDEX_KEY + "_2"]
     df_join = df_join[df_join["@@diffindex"] == 1]
-- 
2.43.0


From a01b4c6bd71228f30a6f3ef206d9e2ab9971f5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:53 +0000
Subject: [PATCH 031/220] fix: eventually-follows filter on dataframes failed
 with more than two activities and time boundaries

---
 pm4py/algo/filtering/pandas/ltl/ltl_checker.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
index 27b3007..d45964d 100644
--- a/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
+++ b/pm4py/algo/filtering/pandas/ltl/ltl_checker.py
@@ -89,7 +89,8 @@ def eventually_follows(df0: pd.DataFrame, attribute_values: List[str], parameter
     df_join = df_join[df_join["@@diffindex0"] > 0]
 
     for i in range(2, len(df_a)):
-        df_join = df_join.merge(df_a[i], on=case_id_glue, suffixes=('', "_%d" % i)).dropna()
+        df_a_i = df_a[i].rename(columns={timestamp_key: timestamp_key + "_%d" % i})
+        df_join = df_join.merge(df_a_i, on=case_id_glue, suffixes=('', "_%d" % i)).dropna()
         df_join["@@diffindex%d" % (i - 1)] = df_join[constants.DEFAULT_INDEX_KEY + "_%d" % i] - df_join[
             constants.DEFAULT_INDEX_KEY + "_%d" % (i - 1)]
         df_join = df_join[df_join["@@diffindex%d" % (i - 1)] > 0]
-- 
2.43.0


From 4ea9b8a24e1ffd0f7fb928d2b44db783628441b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 032/220] fix: between filter on event logs did not assign a
 new case identifier to the sub-cases

---
 pm4py/algo/filtering/log/between/between_filter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pm4py/algo/filtering/log/between/between_filter.py b/pm4py/algo/filtering/log/between/between_filter.py
index 2a2623b..e897df4 100644
--- a/pm4py/algo/filtering/log/between/between_filter.py
+++ b/pm4py/algo/filtering/log/between/between_filter.py
@@ -67,6 +67,9 @@ def apply(log: EventLog, act1: Union[str, List[str]], act2: Union[str, List[str]
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, xes_constants.DEFAULT_TRACEID_KEY)
+    if case_id_key.startswith(constants.CASE_ATTRIBUTE_PREFIX):
+        # attribute of the case, expressed with the name of the corresponding dataframe column
+        case_id_key = case_id_key[len(constants.CASE_ATTRIBUTE_PREFIX):]
     subcase_concat_str = exec_utils.get_param_value(Parameters.SUBCASE_CONCAT_STR, parameters, "##@@")
 
     act1_comparison = lambda x: (x == act1) if type(act1) is str else (x in act1)
-- 
2.43.0


From e1dab6909156217eab6043ee0b1758f97f910e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 033/220] fix: paths filters on dataframes without any
 directly-follows pair

---
 pm4py/algo/filtering/pandas/paths/paths_filter.py  | 2 +-
 pm4py/algo/filtering/pandas/traces/trace_filter.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/paths/paths_filter.py b/pm4py/algo/filtering/pandas/paths/paths_filter.py
index 83955f2..7276497 100644
--- a/pm4py/algo/filtering/pandas/paths/paths_filter.py
+++ b/pm4py/algo/filtering/pandas/paths/paths_filter.py
@@ -76,7 +76,7 @@ def apply(df: pd.DataFrame, paths: List[Tuple[str, str]], parameters: Optional[D
     filt_dif_shifted.columns = [str(col) + '_2' for col in filt_dif_shifted.columns]
     stacked_df = pandas_utils.concat([filt_df, filt_dif_shifted], axis=1)
     stacked_df = stacked_df[stacked_df[case_id_glue] == stacked_df[case_id_glue + '_2']]
-    stacked_df = stacked_df[[path in paths for path in zip(stacked_df[attribute_key], stacked_df[target_attribute_key + "_2"])]]
+    stacked_df = stacked_df[pd.Series([path in paths for path in zip(stacked_df[attribute_key], stacked_df[target_attribute_key + "_2"])], index=stacked_df.index, dtype=bool)]
     i1 = df.set_index(case_id_glue).index
     i2 = stacked_df.set_index(case_id_glue).index
     if positive:
diff --git a/pm4py/algo/filtering/pandas/traces/trace_filter.py b/pm4py/algo/filtering/pandas/traces/trace_filter.py
index 6b34db5..77f4c2c 100644
--- a/pm4py/algo/filtering/pandas/traces/trace_filter.py
+++ b/pm4py/algo/filtering/pandas/traces/trace_filter.py
@@ -66,7 +66,7 @@ def apply(df: pd.DataFrame, admitted_traces: List[List[str]],
                                                                                                 parameters=parameters)
 
     matches_infix = get_infix_matcher(admitted_traces)
-    variants_df = variants_df[[matches_infix(v) for v in variants_df["variant"]]]
+    variants_df = variants_df[variants_df["variant"].map(matches_infix).astype(bool)]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
-- 
2.43.0


From b190798a17edc09f5be5af8b76e0ab99a8a333b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 034/220] fix: case size filter relied on the uniqueness of the
 index of the dataframe

---
 pm4py/algo/filtering/pandas/cases/case_filter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/cases/case_filter.py b/pm4py/algo/filtering/pandas/cases/case_filter.py
index e9a48d3..a8a1f6d 100644
--- a/pm4py/algo/filtering/pandas/cases/case_filter.py
+++ b/pm4py/algo/filtering/pandas/cases/case_filter.py
@@ -82,9 +82,10 @@ def filter_on_case_size(df0: pd.DataFrame, case_id_glue: str = "case:concept:nam
     """
     df = df0.copy()
     element_group_size = df[case_id_glue].groupby(df[case_id_glue]).transform('size')
-    df = df[element_group_size >= min_case_size]
+    mask = element_group_size >= min_case_size
     if max_case_size is not None:
-        df = df[element_group_size <= max_case_size]
+        mask = mask & (element_group_size <= max_case_size)
+    df = df[mask]
     df.attrs = copy(df0.attrs) if hasattr(df0, 'attrs') else {}
     return df
 
-- 
2.43.0


From c5f1a315f37d1d63aa040c647107ff434c1d1e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:09 +0000
Subject: [PATCH 035/220] fix: incidence matrix ignored the weight of the arcs

---
 pm4py/objects/petri_net/utils/incidence_matrix.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/incidence_matrix.py b/pm4py/objects/petri_net/utils/incidence_matrix.py
index 746950e..a804b4f 100644
--- a/pm4py/objects/petri_net/utils/incidence_matrix.py
+++ b/pm4py/objects/petri_net/utils/incidence_matrix.py
@@ -47,9 +47,9 @@ class IncidenceMatrix(object):
         a_matrix = [[0 for i in range(len(t_index))] for j in range(len(p_index))]
         for p in net.places:
             for a in p.in_arcs:
-                a_matrix[p_index[p]][t_index[a.source]] += 1
+                a_matrix[p_index[p]][t_index[a.source]] += a.weight
             for a in p.out_arcs:
-                a_matrix[p_index[p]][t_index[a.target]] -= 1
+                a_matrix[p_index[p]][t_index[a.target]] -= a.weight
         return a_matrix, p_index, t_index
 
     a_matrix = property(__get_a_matrix)
-- 
2.43.0


From 63922b24376a8830f7d2f0be5e4f51710d487828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 036/220] fix: consumption matrix ignored the weight of the
 arcs

---
 pm4py/objects/petri_net/utils/consumption_matrix.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/consumption_matrix.py b/pm4py/objects/petri_net/utils/consumption_matrix.py
index 98386d3..afa7010 100644
--- a/pm4py/objects/petri_net/utils/consumption_matrix.py
+++ b/pm4py/objects/petri_net/utils/consumption_matrix.py
@@ -64,8 +64,10 @@ class ConsumptionMatrix(object):
         inv_indices = [inv_indices[i] for i in range(len(inv_indices))]
         self.__C = [[0 for i in range(len(self.__transition_indices))] for j in range(len(self.__place_indices))]
         for p in net.places:
-            outgoing_trans = [a.target for a in p.out_arcs]
-            self.__C[self.__place_indices[p]] = [-1 if inv_indices[i] in outgoing_trans else 0 for i in
+            outgoing_trans = {}
+            for a in p.out_arcs:
+                outgoing_trans[a.target] = outgoing_trans.get(a.target, 0) + a.weight
+            self.__C[self.__place_indices[p]] = [-outgoing_trans.get(inv_indices[i], 0) for i in
                                                  range(len(inv_indices))]
 
     def __get_transition_indices(self) -> Dict[PetriNet.Transition, int]:
-- 
2.43.0


From 5e70595ada0590033b3bbc2893f4b0e41857c7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 037/220] fix: PetriNetSemantics.fire kept emptied places in
 the marking, so that equal markings compared as different

---
 pm4py/objects/petri_net/semantics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/objects/petri_net/semantics.py b/pm4py/objects/petri_net/semantics.py
index 1b2aded..6bdec62 100644
--- a/pm4py/objects/petri_net/semantics.py
+++ b/pm4py/objects/petri_net/semantics.py
@@ -68,6 +68,8 @@ class PetriNetSemantics(Generic[N]):
         m_out = copy.copy(marking)
         for a in transition.in_arcs:
             m_out[a.source] -= a.weight
+            if m_out[a.source] == 0:
+                del m_out[a.source]
         for a in transition.out_arcs:
             m_out[a.target] += a.weight
         return m_out
-- 
2.43.0


From a4dc872c3ee8af7ec8af4e50cb410541435899bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 038/220] fix: is_sub_marking compared the tokens in the wrong
 direction

---
 pm4py/objects/petri_net/utils/petri_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/utils/petri_utils.py b/pm4py/objects/petri_net/utils/petri_utils.py
index e9a598b..8a6cbad 100644
--- a/pm4py/objects/petri_net/utils/petri_utils.py
+++ b/pm4py/objects/petri_net/utils/petri_utils.py
@@ -31,7 +31,7 @@ def is_sub_marking(sub_marking: Marking, marking: Marking) -> bool:
     for p in sub_marking:
         if p not in marking:
             return False
-        elif marking[p] > sub_marking[p]:
+        elif marking[p] < sub_marking[p]:
             return False
     return True
 
-- 
2.43.0


From 28e7a353e0a6d63ecee6c82c3a0a9def32bca3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 039/220] fix: firing a transition with a reset and a normal
 arc from the same place could leave negative tokens

---
 .../petri_net/inhibitor_reset/semantics.py    | 20 ++++++++-----------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/pm4py/objects/petri_net/inhibitor_reset/semantics.py b/pm4py/objects/petri_net/inhibitor_reset/semantics.py
index 45e3765..eb9a092 100644
--- a/pm4py/objects/petri_net/inhibitor_reset/semantics.py
+++ b/pm4py/objects/petri_net/inhibitor_reset/semantics.py
@@ -110,15 +110,13 @@ def execute(t, pn, m):
 
     m_out = copy.copy(m)
     for a in t.in_arcs:
-        if isinstance(a, ResetNet.ResetArc):
-            m_out[a.source] = 0
-            del m_out[a.source]
-        elif isinstance(a, InhibitorNet.InhibitorArc):
-            pass
-        else:
+        if not isinstance(a, (ResetNet.ResetArc, InhibitorNet.InhibitorArc)):
             m_out[a.source] -= a.weight
             if m_out[a.source] == 0:
                 del m_out[a.source]
+    for a in t.in_arcs:
+        if isinstance(a, ResetNet.ResetArc):
+            del m_out[a.source]
 
     for a in t.out_arcs:
         m_out[a.target] += a.weight
@@ -129,15 +127,13 @@ def execute(t, pn, m):
 def weak_execute(t, m):
     m_out = copy.copy(m)
     for a in t.in_arcs:
-        if isinstance(a, ResetNet.ResetArc):
-            m_out[a.source] = 0
-            del m_out[a.source]
-        elif isinstance(a, InhibitorNet.InhibitorArc):
-            pass
-        else:
+        if not isinstance(a, (ResetNet.ResetArc, InhibitorNet.InhibitorArc)):
             m_out[a.source] -= a.weight
             if m_out[a.source] <= 0:
                 del m_out[a.source]
+    for a in t.in_arcs:
+        if isinstance(a, ResetNet.ResetArc):
+            del m_out[a.source]
     for a in t.out_arcs:
         m_out[a.target] += a.weight
     return m_out
-- 
2.43.0


From 2a2e9863f7f5d42b76181ae0066f37b237bb69eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 040/220] fix: the outcome of the guards was ignored when
 checking the enabledness in data Petri nets

---
 pm4py/objects/petri_net/data_petri_nets/semantics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/data_petri_nets/semantics.py b/pm4py/objects/petri_net/data_petri_nets/semantics.py
index f9f8db5..ed5b911 100644
--- a/pm4py/objects/petri_net/data_petri_nets/semantics.py
+++ b/pm4py/objects/petri_net/data_petri_nets/semantics.py
@@ -164,7 +164,8 @@ def is_enabled(t, pn, m, e):
         read_variables = t.properties[petri_properties.READ_VARIABLE] if petri_properties.READ_VARIABLE in t.properties else []
         data = copy.copy(m.data_dict)
         data.update(e)
-        evaluate_guard(guard, read_variables, data)
+        if not evaluate_guard(guard, read_variables, data):
+            return False
 
     return True
 
-- 
2.43.0


From ac1a74be70352a9120dd8a47d81eaca58c526d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 041/220] fix: firing in data Petri nets discarded the data of
 the previous marking

---
 pm4py/objects/petri_net/data_petri_nets/data_marking.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pm4py/objects/petri_net/data_petri_nets/data_marking.py b/pm4py/objects/petri_net/data_petri_nets/data_marking.py
index f78f10b..22cfce1 100644
--- a/pm4py/objects/petri_net/data_petri_nets/data_marking.py
+++ b/pm4py/objects/petri_net/data_petri_nets/data_marking.py
@@ -22,6 +22,11 @@ class DataMarking(Marking):
         Marking.__init__(self, marking)
         self.data_dict = {}
 
+    def __copy__(self):
+        ret = DataMarking(self)
+        ret.data_dict = dict(self.data_dict)
+        return ret
+
     def __repr__(self):
         # return str([str(p.name) + ":" + str(self.get(p)) for p in self.keys()])
         # The previous representation had a bug, it took into account the order of the places with tokens
-- 
2.43.0


From 1bbc371cc9bd2464a0d663f19ed2a14b703e8e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 042/220] fix: deep copies of inhibitor and reset nets became
 classic nets

---
 pm4py/objects/petri_net/obj.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/petri_net/obj.py b/pm4py/objects/petri_net/obj.py
index b8076cf..ace34e9 100644
--- a/pm4py/objects/petri_net/obj.py
+++ b/pm4py/objects/petri_net/obj.py
@@ -296,7 +296,8 @@ class PetriNet(object):
 
     def __deepcopy__(self, memodict={}):
         from pm4py.objects.petri_net.utils.petri_utils import add_arc_from_to
-        this_copy = PetriNet(self.name)
+        from pm4py.objects.petri_net import properties
+        this_copy = type(self)(self.name)
         memodict[id(self)] = this_copy
         for place in self.places:
             place_copy = PetriNet.Place(place.name, properties=place.properties)
@@ -307,7 +308,8 @@ class PetriNet(object):
             this_copy.transitions.add(trans_copy)
             memodict[id(trans)] = trans_copy
         for arc in self.arcs:
-            add_arc_from_to(memodict[id(arc.source)], memodict[id(arc.target)], this_copy, weight=arc.weight)
+            add_arc_from_to(memodict[id(arc.source)], memodict[id(arc.target)], this_copy, weight=arc.weight,
+                            type=arc.properties.get(properties.ARCTYPE))
         return this_copy
 
     def __repr__(self):
-- 
2.43.0


From 827eda1d81448b0a459c2606ed52198a9fd70757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 043/220] fix: workflow net checks identified the nodes by
 their names (a place and a transition of the same name were merged)

---
 pm4py/algo/analysis/woflan/algorithm.py                | 10 +++++-----
 pm4py/algo/analysis/workflow_net/variants/petri_net.py | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/algorithm.py b/pm4py/algo/analysis/woflan/algorithm.py
index c123334..f3224e4 100644
--- a/pm4py/algo/analysis/woflan/algorithm.py
+++ b/pm4py/algo/analysis/woflan/algorithm.py
@@ -350,13 +350,13 @@ def step_2(woflan_object, return_asap_when_unsound=False):
         G = nx_utils.DiGraph()
         while len(still_need_to_discover) > 0:
             element = still_need_to_discover.pop()
-            G.add_node(element.name)
+            G.add_node(element)
             for in_arc in element.in_arcs:
-                G.add_node(in_arc.source.name)
-                G.add_edge(in_arc.source.name, element.name)
+                G.add_node(in_arc.source)
+                G.add_edge(in_arc.source, element)
             for out_arc in element.out_arcs:
-                G.add_node(out_arc.target.name)
-                G.add_edge(element.name, out_arc.target.name)
+                G.add_node(out_arc.target)
+                G.add_edge(element, out_arc.target)
         return G
 
     s_c_net, diagnostic_messages = short_circuit_petri_net(woflan_object.get_net(),
diff --git a/pm4py/algo/analysis/workflow_net/variants/petri_net.py b/pm4py/algo/analysis/workflow_net/variants/petri_net.py
index 72ea932..8fb1ee5 100644
--- a/pm4py/algo/analysis/workflow_net/variants/petri_net.py
+++ b/pm4py/algo/analysis/workflow_net/variants/petri_net.py
@@ -88,13 +88,13 @@ def apply(net: PetriNet, parameters: Optional[Dict[Any, Any]] = None) -> bool:
     graph = nx_utils.DiGraph()
     while len(nodes) > 0:
         element = nodes.pop()
-        graph.add_node(element.name)
+        graph.add_node(element)
         for in_arc in element.in_arcs:
-            graph.add_node(in_arc.source.name)
-            graph.add_edge(in_arc.source.name, element.name)
+            graph.add_node(in_arc.source)
+            graph.add_edge(in_arc.source, element)
         for out_arc in element.out_arcs:
-            graph.add_node(out_arc.target.name)
-            graph.add_edge(element.name, out_arc.target.name)
+            graph.add_node(out_arc.target)
+            graph.add_edge(element, out_arc.target)
     if nx_utils.is_strongly_connected(graph):
         return True
     else:
-- 
2.43.0


From 9d8fdf8b65670aa44e05a729f00636f81c19eebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 044/220] fix: check_wfnet ignored the direction of the arcs

---
 pm4py/objects/petri_net/utils/check_soundness.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/check_soundness.py b/pm4py/objects/petri_net/utils/check_soundness.py
index 3d41423..147de1c 100644
--- a/pm4py/objects/petri_net/utils/check_soundness.py
+++ b/pm4py/objects/petri_net/utils/check_soundness.py
@@ -14,7 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
-from pm4py.objects.petri_net.utils.networkx_graph import create_networkx_undirected_graph
+from pm4py.objects.petri_net.utils.networkx_graph import create_networkx_directed_graph_ret_dict_both_ways
 from pm4py.objects.petri_net.utils import explore_path
 from pm4py.objects.petri_net import obj
 from pm4py.util import nx_utils
@@ -39,8 +39,9 @@ def check_source_and_sink_reachability(net, unique_source, unique_sink):
     boolean
         Boolean value that is true if each node is in a path from the source place to the sink place
     """
-    graph, unique_source_corr, unique_sink_corr, inv_dictionary = create_networkx_undirected_graph(net, unique_source,
-                                                                                                   unique_sink)
+    graph, dictionary, inv_dictionary = create_networkx_directed_graph_ret_dict_both_ways(net)
+    unique_source_corr = dictionary[unique_source] if unique_source in dictionary else None
+    unique_sink_corr = dictionary[unique_sink] if unique_sink in dictionary else None
     if unique_source_corr is not None and unique_sink_corr is not None:
         nodes_list = list(graph.nodes())
         finish_to_sink = list(nx_utils.ancestors(graph, unique_sink_corr))
-- 
2.43.0


From 8f614b61cf392df7910bd34817e349d15e0ea97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:57 +0000
Subject: [PATCH 045/220] fix: the place invariants ignored the weight of the
 arcs

---
 .../algo/analysis/woflan/place_invariants/place_invariants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py b/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
index d730416..7d00053 100644
--- a/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
+++ b/pm4py/algo/analysis/woflan/place_invariants/place_invariants.py
@@ -41,10 +41,10 @@ def compute_place_invariants(net):
             t = transition_list[i]
             for in_arc in t.in_arcs:
                 # arcs that go to transition
-                C[place_list.index(in_arc.source), i] -= 1
+                C[place_list.index(in_arc.source), i] -= 1 * in_arc.weight
             for out_arc in t.out_arcs:
                 # arcs that lead away from transition
-                C[place_list.index(out_arc.target), i] += 1
+                C[place_list.index(out_arc.target), i] += 1 * out_arc.weight
             i += 1
         return C
 
-- 
2.43.0


From c2edd6b9e97b9609e2f09377632cd774bf9a09fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 046/220] fix: sound nets were reported as unsound when the
 (heuristic) search for S-components did not cover every place

---
 pm4py/algo/analysis/woflan/algorithm.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/analysis/woflan/algorithm.py b/pm4py/algo/analysis/woflan/algorithm.py
index f3224e4..2ea7ed6 100644
--- a/pm4py/algo/analysis/woflan/algorithm.py
+++ b/pm4py/algo/analysis/woflan/algorithm.py
@@ -398,20 +398,18 @@ def step_3(woflan_object, return_asap_when_unsound=False):
         if woflan_object.print_diagnostics:
             print('The following places are not covered by an s-component: {}.'.format(
                 woflan_object.get_uncovered_places_s_component()))
-        if return_asap_when_unsound:
-            return False
+        # the S-components are searched heuristically (and a sound net does not need to be S-coverable),
+        # so the verdict is left to the next steps
         return step_4(woflan_object, return_asap_when_unsound=return_asap_when_unsound)
 
 
 def step_4(woflan_object, return_asap_when_unsound=False):
     woflan_object.set_not_well_handled_pairs(compute_not_well_handled_pairs(woflan_object.get_s_c_net()))
     if len(woflan_object.get_not_well_handled_pairs()) == 0:
-        woflan_object.diagnostic_messages.append('Petri Net is unsound.')
+        woflan_object.diagnostic_messages.append('There are no not well-handled pairs.')
         if woflan_object.print_diagnostics:
-            print('Petri Net is unsound.')
-        woflan_object.set_left(False)
-        if return_asap_when_unsound:
-            return False
+            print('There are no not well-handled pairs.')
+        woflan_object.set_left(True)
         return step_5(woflan_object, return_asap_when_unsound=return_asap_when_unsound)
     else:
         woflan_object.diagnostic_messages.append('Not well-handled pairs are: {}.'.format(
@@ -501,6 +499,11 @@ def step_10(woflan_object, return_asap_when_unsound=False):
         woflan_object.set_mcg(
             minimal_coverability_graph(woflan_object.get_s_c_net(), woflan_object.get_initial_marking(),
                                        woflan_object.get_net()))
+        if len(check_for_improper_conditions(woflan_object.get_mcg())) > 0:
+            # the coverage of the places by the invariants was not reliable: the net is unbounded
+            if return_asap_when_unsound:
+                return False
+            return step_9(woflan_object, return_asap_when_unsound=return_asap_when_unsound)
     woflan_object.set_dead_tasks(check_for_dead_tasks(woflan_object.get_s_c_net(), woflan_object.get_mcg()))
     if len(woflan_object.get_dead_tasks()) == 0:
         woflan_object.diagnostic_messages.append('There are no dead tasks.')
-- 
2.43.0


From c6bc45ed9489a06aaeb8f19a7f28bb1b34497cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:12 +0000
Subject: [PATCH 047/220] fix: the synchronous product keeps the arc weights of
 the nets (alignments of weighted nets ignored them)

---
 .../petri_net/utils/synchronous_product.py    | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/synchronous_product.py b/pm4py/objects/petri_net/utils/synchronous_product.py
index 67d3a6f..7de7385 100644
--- a/pm4py/objects/petri_net/utils/synchronous_product.py
+++ b/pm4py/objects/petri_net/utils/synchronous_product.py
@@ -51,13 +51,13 @@ def construct(pn1, im1, fm1, pn2, im2, fm2, skip):
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -119,13 +119,13 @@ def construct_cost_aware(pn1, im1, fm1, pn2, im2, fm2, skip, pn1_costs, pn2_cost
                 for p2 in t2.properties:
                     sync.properties[p2] = t2.properties[p2]
                 for a in t1.in_arcs:
-                    add_arc_from_to(p1_map[a.source], sync, sync_net)
+                    add_arc_from_to(p1_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t2.in_arcs:
-                    add_arc_from_to(p2_map[a.source], sync, sync_net)
+                    add_arc_from_to(p2_map[a.source], sync, sync_net, weight=a.weight)
                 for a in t1.out_arcs:
-                    add_arc_from_to(sync, p1_map[a.target], sync_net)
+                    add_arc_from_to(sync, p1_map[a.target], sync_net, weight=a.weight)
                 for a in t2.out_arcs:
-                    add_arc_from_to(sync, p2_map[a.target], sync_net)
+                    add_arc_from_to(sync, p2_map[a.target], sync_net, weight=a.weight)
 
     sync_im = Marking()
     sync_fm = Marking()
@@ -166,8 +166,8 @@ def __copy_into(source_net, target_net, upper, skip):
 
     for t in source_net.transitions:
         for a in t.in_arcs:
-            add_arc_from_to(p_map[a.source], t_map[t], target_net)
+            add_arc_from_to(p_map[a.source], t_map[t], target_net, weight=a.weight)
         for a in t.out_arcs:
-            add_arc_from_to(t_map[t], p_map[a.target], target_net)
+            add_arc_from_to(t_map[t], p_map[a.target], target_net, weight=a.weight)
 
     return t_map, p_map
-- 
2.43.0


From fd000e13c0cc108402b8204408042decf241efe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 048/220] fix: the alignment fitness of the empty trace is 1 on
 a net accepting it (was 0)

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 43cb8a9..901f925 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -158,7 +158,8 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
 
             fitness_num = ali['cost'] // align_utils.STD_MODEL_LOG_MOVE_COST
             fitness_den = ltrace_bwc // align_utils.STD_MODEL_LOG_MOVE_COST
-            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else 0
+            # nothing to align (empty trace, empty path in the model): the trace is perfectly fitting
+            fitness = 1 - fitness_num / fitness_den if fitness_den > 0 else 1
 
             ali["fitness"] = fitness
             # returning also the best worst cost, for log fitness computation
-- 
2.43.0


From 8b93a5a857a8c9e0e5c07e064a60740dce7bf97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 049/220] fix: alignment fitness with the Dijkstra less-memory
 variant accounts for the length of the trace (was negative for long deviating
 traces)

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 901f925..98c88b3 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -145,7 +145,10 @@ def apply_trace(trace, petri_net, initial_marking, final_marking, parameters=Non
     ali = exec_utils.get_variant(variant).apply(trace, petri_net, initial_marking, final_marking,
                                                  parameters=parameters)
 
-    trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, [])
+    # not all the variants set the trace cost function in the parameters
+    trace_cost_function = exec_utils.get_param_value(Parameters.PARAM_TRACE_COST_FUNCTION, parameters, None)
+    if trace_cost_function is None:
+        trace_cost_function = [align_utils.STD_MODEL_LOG_MOVE_COST] * len(trace)
     # Instead of using the length of the trace, use the sum of the trace cost function
     trace_cost_function_sum = sum(trace_cost_function)
 
-- 
2.43.0


From 3267a881469e905d25474b158f7062bbe7d10d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 050/220] fix: aligning a log does not leave the best-worst
 cost of the net in the parameters of the caller (reused for other nets)

---
 pm4py/algo/conformance/alignments/petri_net/algorithm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/conformance/alignments/petri_net/algorithm.py b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
index 98c88b3..8783f4b 100644
--- a/pm4py/algo/conformance/alignments/petri_net/algorithm.py
+++ b/pm4py/algo/conformance/alignments/petri_net/algorithm.py
@@ -199,6 +199,7 @@ def apply_log(log, petri_net, initial_marking, final_marking, parameters=None, v
     """
     if parameters is None:
         parameters = dict()
+    parameters = copy(parameters)
 
     if solver.DEFAULT_LP_SOLVER_VARIANT is not None:
         if not check_soundness.check_easy_soundness_net_in_fin_marking(petri_net, initial_marking, final_marking):
@@ -260,6 +261,7 @@ def apply_multiprocessing(log, petri_net, initial_marking, final_marking, parame
     """
     if parameters is None:
         parameters = {}
+    parameters = copy(parameters)
 
     import multiprocessing
 
-- 
2.43.0


From 20dcf5e469465f3a2a0454bef7ce401c42f9404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 051/220] fix: Dijkstra less-memory alignments are optimal
 (states with a different position in the trace were considered equivalent,
 and synchronous moves prevented model moves)

---
 .../petri_net/variants/dijkstra_less_memory.py     | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
index c457ab3..c160cd9 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py
@@ -476,9 +476,9 @@ def __check_closed(closed, ns):
     bool
         Boolean (true if the state is closed)
     """
-    if ns[0] in closed and closed[ns[0]] <= ns[1]:
-        return True
-    return False
+    # a state with the same marking and a different position in the trace
+    # is not equivalent: the part of the trace which is still to be aligned differs
+    return ns in closed
 
 
 def __add_closed(closed, ns):
@@ -492,7 +492,7 @@ def __add_closed(closed, ns):
     ns
         New state (marking, index)
     """
-    closed[ns[0]] = ns[1]
+    closed.add(ns)
 
 
 def __add_to_open_set(open_set, ns):
@@ -593,7 +593,7 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
     open_set = [initial_state]
     heapq.heapify(open_set)
 
-    closed = {}
+    closed = set()
     dummy_count = 0
     visited = 0
 
@@ -640,10 +640,6 @@ def __dijkstra(model_struct, trace_struct, sync_cost=align_utils.STD_SYNC_COST,
                     # if it can be executed in a sync way, add a new state corresponding
                     # to the sync execution only if it has not already been closed
                     open_set = __add_to_open_set(open_set, new_state)
-                # if a sync move reached new_m, do not schedule any model move that reaches new_m
-                this_closed.add(new_m)
-                del en_t[j]
-                continue
             j = j + 1
         en_t.sort(key=lambda t: transf_model_cost_function[t])
         j = 0
-- 
2.43.0


From 4bfd44731d2338747ccb6bbb896d0eae16ee9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:37 +0000
Subject: [PATCH 052/220] fix: the search of a firing sequence in a
 marking-equation solution requires the final marking to be reached

---
 pm4py/objects/petri_net/utils/align_utils.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/align_utils.py b/pm4py/objects/petri_net/utils/align_utils.py
index a3a660f..749e4d0 100644
--- a/pm4py/objects/petri_net/utils/align_utils.py
+++ b/pm4py/objects/petri_net/utils/align_utils.py
@@ -83,16 +83,15 @@ def search_path_among_sol(sync_net: PetriNet, ini: Marking, fin: Marking,
         marking = curr[2]
         if marking in closed:
             continue
-        if index == len_trace_with_index:
+        if index == len_trace_with_index and marking == fin:
             reach_fm = True
-            if curr[0] < best_tuple[0]:
-                best_tuple = curr
+            best_tuple = curr
             break
         if curr[0] < best_tuple[0]:
             best_tuple = curr
         closed.add(marking)
-        corr_trans = trans_with_index[index]
-        if corr_trans.sub_marking <= marking:
+        corr_trans = trans_with_index[index] if index < len_trace_with_index else None
+        if corr_trans is not None and corr_trans.sub_marking <= marking:
             visited += 1
             new_marking = semantics.weak_execute(corr_trans, marking)
             heapq.heappush(open_set, (-index-1, visited, new_marking, curr[3]+[corr_trans]))
-- 
2.43.0


From ca6ebe4e1f9b48ab36403225523a886a8c93a731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 053/220] fix: tweaked A* alignments: the reported cost is the
 one of the moves, the search handles markings without solution and re-opens
 markings reached at lower cost

---
 .../variants/tweaked_state_equation_a_star.py | 35 ++++++++++++-------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
index d9c2804..42186ea 100644
--- a/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
+++ b/pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py
@@ -389,7 +389,9 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
     incidence_matrix = inc_mat_construct(sync_net)
     ini_vec, fin_vec, cost_vec = utils.__vectorize_initial_final_cost(incidence_matrix, ini, fin, cost_function)
 
-    closed = set()
+    # the heuristics used here are admissible but not consistent: a marking is visited again if it is reached
+    # with a lower cost
+    closed = {}
     heu_dict = {}
     heu_max_ind_dict = {}
     mtcgt_dict = {}
@@ -408,7 +410,7 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
 
     # try to see if the firing sequence is already fine
     firing_sequence, reach_fm, explained_events = me.get_firing_sequence(x)
-    if reach_fm:
+    if reach_fm and sum(cost_function[t] for t in firing_sequence) <= h:
         return __reconstruct_alignment(firing_sequence, h, visited, queued, traversed,
                                        ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
     mm, index = __get_model_marking_and_index(ini)
@@ -432,7 +434,7 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             if (time.time() - start_time) > max_align_time_trace:
                 return None
 
-            already_closed = current_marking in closed
+            already_closed = current_marking in closed and closed[current_marking] <= curr.g
             if already_closed:
                 curr = heapq.heappop(open_set)
                 current_marking = curr.m
@@ -445,8 +447,8 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             else:
                 mtcgt = mtcgt_dict[curr.t]
 
-            h1 = max(mtcgt - curr.g, 0)
-            if h1 > curr.h:
+            h1 = max(mtcgt - curr.g, 0) if mtcgt is not None else None
+            if h1 is not None and h1 > curr.h:
                 tp = utils.TweakedSearchTuple(curr.g + h1, curr.g, h1, curr.m, curr.p, curr.t, curr.x, False, False)
                 curr = heapq.heappushpop(open_set, tp)
                 current_marking = curr.m
@@ -462,6 +464,14 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
 
             me.change_ini_vec(curr.m)
             h, x = me.solve()
+            if h is None:
+                # the final marking cannot be reached from the current marking
+                closed[current_marking] = -1
+                if not open_set:
+                    return None
+                curr = heapq.heappop(open_set)
+                current_marking = curr.m
+                continue
 
             __update_heu_dict_specific_point(heu_dict, heu_max_ind_dict, mm, index, h, x)
 
@@ -470,26 +480,27 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             curr = heapq.heappushpop(open_set, tp)
             current_marking = curr.m
 
-        already_closed = current_marking in closed
+        already_closed = current_marking in closed and closed[current_marking] <= curr.g
         if already_closed:
             continue
         if curr.h < 0.01:
             if current_marking == fin:
                 trans_list = __transitions_list_from_state(curr)
-                return __reconstruct_alignment(trans_list, curr.f, visited, queued, traversed,
+                return __reconstruct_alignment(trans_list, curr.g, visited, queued, traversed,
                                                ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
 
         if curr.virgin:
             # try to see if the firing sequence is already fine
+            me.change_ini_vec(curr.m)
             firing_sequence, reach_fm, explained_events = me.get_firing_sequence(curr.x)
-            if reach_fm:
+            if reach_fm and sum(cost_function[t] for t in firing_sequence) <= curr.h:
                 trans_list = __transitions_list_from_state(curr) + list(firing_sequence)
                 return __reconstruct_alignment(trans_list, curr.f, visited, queued, traversed,
                                                ret_tuple_as_trans_desc=ret_tuple_as_trans_desc, lp_solved=lp_solved)
             mm, index = __get_model_marking_and_index(curr.m)
-            __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, h, x, firing_sequence, incidence_matrix, cost_vec)
+            __update_heu_dict(heu_dict, heu_max_ind_dict, mm, index, curr.h, curr.x, firing_sequence, incidence_matrix, cost_vec)
 
-        closed.add(current_marking)
+        closed[current_marking] = curr.g
         visited += 1
 
         enabled_trans = copy(trans_empty_preset)
@@ -505,9 +516,9 @@ def __search(sync_net, ini, fin, cost_function, skip, ret_tuple_as_trans_desc=Fa
             traversed += 1
             new_marking = utils.add_markings(current_marking, t.add_marking)
 
-            if new_marking in closed:
-                continue
             g = curr.g + cost
+            if new_marking in closed and closed[new_marking] <= g:
+                continue
 
             queued += 1
             h, x = utils.__derive_heuristic(incidence_matrix, cost_vec, curr.x, t, curr.h)
-- 
2.43.0


From 72d93c329ee8d6bead38c1c8360396b4ba6b65e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 054/220] fix: process-tree alignments report exactly the moves
 of the optimal path (synchronous and log moves on the last event were
 confused)

---
 .../process_tree/variants/search_graph_pt.py  | 40 +++++++------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 9614676..069603e 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -52,6 +52,8 @@ class SGASearchState:
         self.parent = parent  # parent search state
         self.children = children if children is not None else set()  # successor search states
         self.path = []
+        # position, among the leaves, of the one executed synchronously with the trace (if any)
+        self.sync_leaf = None
 
     def __lt__(self, other):
         if self.costs < other.costs:
@@ -70,33 +72,19 @@ def _construct_result_dictionary(state: SGASearchState, variant: List[str]):
     result['cost'] = state.costs
     alignment = list()
     current_state = state
-    parent_state = state.parent
-    while parent_state is not None:
-        if len(current_state.leaves) > 0:
-            if current_state.index == len(variant):
-                leaf_labels = list(reversed(list(map(lambda o: o.label, current_state.leaves))))
-                if variant[-1] in leaf_labels:
-                    i = leaf_labels.index(variant[-1])
-                    leaves_reversed = list(reversed(current_state.leaves))
-                    for j in range(len(leaves_reversed)):
-                        if i == j:
-                            alignment.append((variant[-1], leaves_reversed[j]))
-                        else:
-                            alignment.append((align_utils.SKIP, leaves_reversed[j]))
-                else:
-                    if current_state.costs - len(current_state.leaves) > parent_state.costs:
-                        alignment.append((variant[parent_state.index], align_utils.SKIP))
-                    for leaf in reversed(current_state.leaves):
-                        alignment.append((align_utils.SKIP, leaf))
+    while current_state is not None:
+        parent_state = current_state.parent
+        # every state (except the initial one) consumes an event of the trace, either with a synchronous move
+        # on one of its leaves, or with a log move. The leaves before the synchronous one have been executed to enable it;
+        # the ones after to complete the execution of the tree
+        for index in reversed(range(len(current_state.leaves))):
+            if index == current_state.sync_leaf:
+                alignment.append((variant[parent_state.index], current_state.leaves[index]))
             else:
-                alignment.append((variant[parent_state.index], current_state.leaves[len(current_state.leaves) - 1]))
-                leaves_reversed = list(reversed(current_state.leaves))[1:]
-                for n in leaves_reversed:
-                    alignment.append((align_utils.SKIP, n))
-        else:
+                alignment.append((align_utils.SKIP, current_state.leaves[index]))
+        if parent_state is not None and current_state.sync_leaf is None:
             alignment.append((variant[parent_state.index], align_utils.SKIP))
-        parent_state = parent_state.parent
-        current_state = current_state.parent
+        current_state = parent_state
     result['alignment'] = list(reversed(alignment))
     result['optimal'] = True
     result['state'] = state
@@ -123,6 +111,7 @@ def _check_if_state_exists_and_update(search_state: SGASearchState, collection):
                 alt.costs = search_state.costs
                 alt.parent = search_state.parent
                 alt.leaves = search_state.leaves
+                alt.sync_leaf = search_state.sync_leaf
     return match
 
 
@@ -199,6 +188,7 @@ def align_variant(variant, tree_leaf_set, pt):
                                            sga_state.index + 1,
                                            new_state, leaves=leaves, parent=sga_state)
                         new_state.path = tuple(path)
+                        new_state.sync_leaf = len(leaves) - 1
                         open_set, closed_set = _add_new_state(
                             new_state, sga_state,
                             open_set,
-- 
2.43.0


From c3cd6c159efb2d4e0f9d9fc0f717440769f98158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 055/220] fix: process-tree alignment fitness with
 multiprocessing uses the length of the aligned trace (not the one of the last
 trace), and is 1 when there is nothing to align

---
 .../alignments/process_tree/variants/search_graph_pt.py     | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 069603e..9bb3993 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -211,7 +211,7 @@ def align_variant(variant, tree_leaf_set, pt):
 def _apply_variant(variant, tree, leaves, bwc, parameters=None):
     alignment_obj = align_variant(variant, leaves, tree)
     ltrace_bwc = len(variant) + bwc
-    alignment_obj["fitness"] = 1.0 - alignment_obj["cost"] / ltrace_bwc if ltrace_bwc > 0 else 0.0
+    alignment_obj["fitness"] = 1.0 - alignment_obj["cost"] / ltrace_bwc if ltrace_bwc > 0 else 1.0
     return alignment_obj
 
 
@@ -337,8 +337,8 @@ def apply_multiprocessing(obj: Union[EventLog, Trace, pd.DataFrame], pt: Process
             for variant in traces:
                 if variant not in align_dict:
                     al = futures[variant].result()
-                    ltrace_bwc = len(trace) + best_worst_cost
-                    al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 0.0
+                    ltrace_bwc = len(variant) + best_worst_cost
+                    al["fitness"] = 1.0 - al["cost"] / ltrace_bwc if ltrace_bwc > 0 else 1.0
                     align_dict[variant] = al
                 ret.append(align_dict[variant])
             _destroy_progress_bar(progress)
-- 
2.43.0


From d5085a99198a4f5cc9d62fe5f4004f6620e95eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:44 +0000
Subject: [PATCH 056/220] fix: DFG alignments report all their moves (initial
 model moves and final log moves were missing, moves on the artificial end
 node were reported)

---
 .../conformance/alignments/dfg/variants/classic.py    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/dfg/variants/classic.py b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
index a499a86..2946376 100644
--- a/pm4py/algo/conformance/alignments/dfg/variants/classic.py
+++ b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
@@ -401,7 +401,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
         not_end_trace = -curr[POSITION_LOG] < len(trace)
 
         if curr[POSITION_MODEL] == end_node and not not_end_trace:
-            return __return_alignment(curr, trace, num_closed)
+            return __return_alignment(curr, trace, num_closed, end_node)
 
         num_closed = num_closed + 1
 
@@ -464,7 +464,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
                 heapq.heappush(open_set, new_state)
 
 
-def __return_alignment(state, trace, closed):
+def __return_alignment(state, trace, closed, end_node):
     """
     Returns the computed alignment in an intellegible way
 
@@ -476,6 +476,8 @@ def __return_alignment(state, trace, closed):
         List of activities
     closed
         Number of closed states
+    end_node
+        Artificial end node
 
     Returns
     --------------
@@ -487,11 +489,11 @@ def __return_alignment(state, trace, closed):
     visited = state[POSITION_NUM_VISITED]
     moves = []
     while state[POSITION_PREV] is not None:
-        state = state[POSITION_PREV]
         is_lm = state[POSITION_IS_LM]
         is_mm = state[POSITION_IS_MM]
         pl = -state[POSITION_LOG] - 1
-        if pl >= 0:
+        # moving to the (artificial) end node is not a move of the alignment
+        if is_lm or state[POSITION_MODEL] != end_node:
             lm = ">>"
             mm = ">>"
             if not is_lm:
@@ -499,6 +501,7 @@ def __return_alignment(state, trace, closed):
             if not is_mm:
                 lm = trace[pl]
             moves.append((lm, mm))
+        state = state[POSITION_PREV]
     moves.reverse()
 
     return {Outputs.ALIGNMENT.value: moves, Outputs.COST.value: cost, Outputs.VISITED.value: visited,
-- 
2.43.0


From 62e25da0a7e4da69460833852830521be10417c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:56 +0000
Subject: [PATCH 057/220] fix: DFG alignments are optimal (an activity visited
 with a different position in the trace was considered an equivalent state)

---
 .../alignments/dfg/variants/classic.py        | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/dfg/variants/classic.py b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
index 2946376..eef5d84 100644
--- a/pm4py/algo/conformance/alignments/dfg/variants/classic.py
+++ b/pm4py/algo/conformance/alignments/dfg/variants/classic.py
@@ -371,12 +371,9 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
     for x in ea:
         outgoing_nodes[activities_one_instantiation[x]].add(end_node)
 
-    # closed set: the set associates each activity of the model with the index of the trace that lastly visited that.
-    # this is a very efficient closed set since it cuts double-visiting the same activity for state visited later
-    # that have a lower index of a trace.
-    closed = {activities_one_instantiation[x]: -1 for x in activities_model}
-    closed[start_node] = -1
-    closed[end_node] = -1
+    # closed set: contains the visited states (activity of the model, index of the trace). A state visited later for
+    # the same activity with a lower index of the trace cannot be cut, as the suffix to be aligned is different.
+    closed = set()
 
     f = 0
     h = 0
@@ -393,11 +390,11 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
 
         num_visited = num_visited + 1
 
-        if -curr[POSITION_LOG] <= closed[curr[POSITION_MODEL]]:
+        if (curr[POSITION_MODEL], curr[POSITION_LOG]) in closed:
             # closed
             continue
 
-        closed[curr[POSITION_MODEL]] = -curr[POSITION_LOG]
+        closed.add((curr[POSITION_MODEL], curr[POSITION_LOG]))
         not_end_trace = -curr[POSITION_LOG] < len(trace)
 
         if curr[POSITION_MODEL] == end_node and not not_end_trace:
@@ -427,7 +424,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
 
                     new_state = (g, curr[POSITION_LOG] - 1, num_visited, -h, real_f, f, activities_one_instantiation[trace_curr],
                                  False, False, curr)
-                    if -new_state[POSITION_LOG] > closed[new_state[POSITION_MODEL]]:
+                    if (new_state[POSITION_MODEL], new_state[POSITION_LOG]) not in closed:
                         heapq.heappush(open_set, new_state)
 
                 for act in list_act:
@@ -435,7 +432,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
                         new_state = (
                             curr[POSITION_G], curr[POSITION_LOG], num_visited, curr[POSITION_H], curr[POSITION_REAL_F], curr[POSITION_F],
                             end_node, False, False, curr)
-                        if -new_state[POSITION_LOG] > closed[new_state[POSITION_MODEL]]:
+                        if (new_state[POSITION_MODEL], new_state[POSITION_LOG]) not in closed:
                             heapq.heappush(open_set, new_state)
                     elif not not_end_trace or not trace_curr in list_act:
                         f = curr[POSITION_F] + model_move_cost_function[act]
@@ -448,7 +445,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
                             g, curr[POSITION_LOG], num_visited, -h, real_f, f, activities_one_instantiation[act], False,
                             True,
                             curr)
-                        if -new_state[POSITION_LOG] > closed[new_state[POSITION_MODEL]]:
+                        if (new_state[POSITION_MODEL], new_state[POSITION_LOG]) not in closed:
                             heapq.heappush(open_set, new_state)
 
         if not_end_trace and not curr[POSITION_IS_MM]:
@@ -460,7 +457,7 @@ def __apply_list_activities(trace, dfg, sa, ea, parameters=None):
             g = f + h
 
             new_state = (g, curr[POSITION_LOG] - 1, num_visited, -h, real_f, f, curr[POSITION_MODEL], True, False, curr)
-            if -new_state[POSITION_LOG] > closed[new_state[POSITION_MODEL]]:
+            if (new_state[POSITION_MODEL], new_state[POSITION_LOG]) not in closed:
                 heapq.heappush(open_set, new_state)
 
 
-- 
2.43.0


From c750c8ddb33cc7805510377791f337d817e528ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:24 +0000
Subject: [PATCH 058/220] fix: process-tree alignments distinguish equal
 subtrees of a sequence by identity

---
 .../process_tree/util/search_graph_pt_replay_semantics.py  | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
index aba4767..e23dc55 100644
--- a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
+++ b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
@@ -58,9 +58,10 @@ def can_enable(tree: ProcessTree, state: ProcessTreeState) -> bool:
                 return frozenset(map(lambda child: state[(id(child), child)], tree.parent.children)) == {
                     ProcessTree.OperatorState.FUTURE}
             elif ptu.is_operator(tree.parent, Operator.SEQUENCE):
-                return True if tree.parent.children.index(tree) == 0 else ptu.is_in_state(
-                    tree.parent.children[tree.parent.children.index(tree) - 1],
-                    ProcessTree.OperatorState.CLOSED, state)
+                # identify the node by identity: the equality of process trees is structural
+                index = [i for i, c in enumerate(tree.parent.children) if c is tree][0]
+                return True if index == 0 else ptu.is_in_state(tree.parent.children[index - 1],
+                                                               ProcessTree.OperatorState.CLOSED, state)
             elif ptu.is_operator(tree.parent, Operator.LOOP):
                 return frozenset(map(lambda child: state[(id(child), child)], tree.parent.children)) == {
                     ProcessTree.OperatorState.FUTURE, ProcessTree.OperatorState.CLOSED}
-- 
2.43.0


From 5024542fe67164232ab6f386a2720467b1cbdbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 059/220] fix: process-tree alignments are optimal when nested
 loops can be repeated, and when the choice taken by a synchronous move forces
 other moves

---
 .../util/search_graph_pt_replay_semantics.py  | 25 ++++++++++++++-----
 .../process_tree/variants/search_graph_pt.py  | 11 +++++++-
 2 files changed, 29 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
index e23dc55..482a0d0 100644
--- a/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
+++ b/pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py
@@ -231,7 +231,20 @@ def shortest_path_to_close(tree: ProcessTree, state: ProcessTreeState) -> Tuple[
     return path, state
 
 
-def shortest_path_to_enable(tree: ProcessTree, state: ProcessTreeState) -> Tuple[
+def get_open_loops(tree: ProcessTree, state: ProcessTreeState) -> List[ProcessTree]:
+    """
+    Gets the loops (from the innermost to the outermost) which are currently open and contain the given node
+    """
+    loops = []
+    parent = tree.parent
+    while parent is not None:
+        if parent.operator == Operator.LOOP and state[(id(parent), parent)] == ProcessTree.OperatorState.OPEN:
+            loops.append(parent)
+        parent = parent.parent
+    return loops
+
+
+def shortest_path_to_enable(tree: ProcessTree, state: ProcessTreeState, loop: ProcessTree = None) -> Tuple[
     List[Tuple[ProcessTree, ProcessTree.OperatorState]], ProcessTreeState]:
     if state[(id(tree), tree)] == ProcessTree.OperatorState.ENABLED:
         return list(), state
@@ -271,11 +284,11 @@ def shortest_path_to_enable(tree: ProcessTree, state: ProcessTreeState) -> Tuple
         return path, state
     else:
         path, state = shortest_path_to_close(tree, state)
-        parent = tree.parent
-        while parent is not None:
-            if parent.operator == Operator.LOOP and state[(id(parent), parent)] == ProcessTree.OperatorState.OPEN:
-                break
-            parent = parent.parent
+        # the node needs to be executed again: repeat the specified loop, or the innermost one
+        parent = loop
+        if parent is None:
+            loops = get_open_loops(tree, state)
+            parent = loops[0] if loops else None
         if parent is not None and parent.operator == Operator.LOOP:
             if state[(id(parent.children[0]), parent.children[0])] == ProcessTree.OperatorState.OPEN:
                 e_path, state = shortest_path_to_close(parent.children[0], state)
diff --git a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
index 9bb3993..2f85d20 100644
--- a/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
+++ b/pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py
@@ -140,6 +140,9 @@ def _need_log_move(old_state, new_state, path) -> bool:
     for choice in choices:
         choice = choice[1]
         if pt_util.is_operator(choice, Operator.XOR):
+            for child in choice.children:
+                if old_state[(id(child), child)] != new_state[(id(child), child)]:
+                    return True
             if (pt_util.is_in_state(choice, ProcessTree.OperatorState.FUTURE, old_state) or pt_util.is_in_state(choice,
                                                                                                                 ProcessTree.OperatorState.CLOSED,
                                                                                                                 old_state)) and \
@@ -174,8 +177,14 @@ def align_variant(variant, tree_leaf_set, pt):
                 candidates = [t for (i,t) in tree_leaf_set if
                               t.label is not None and t.label == variant[sga_state.index]]
                 need_log_move = len(candidates) == 0
+                # a leaf which has been already executed can be executed again by repeating any of the loops containing it
+                options = []
                 for leaf in candidates:
-                    path, new_state = pt_sem.shortest_path_to_enable(leaf, copy.copy(sga_state.state))
+                    loops = pt_sem.get_open_loops(leaf, sga_state.state) if pt_util.is_in_state(
+                        leaf, ProcessTree.OperatorState.CLOSED, sga_state.state) else []
+                    options.extend((leaf, loop) for loop in (loops or [None]))
+                for leaf, loop in options:
+                    path, new_state = pt_sem.shortest_path_to_enable(leaf, copy.copy(sga_state.state), loop)
                     need_log_move = True if path is None else need_log_move
                     if path is not None:
                         model_moves = _obtain_leaves_from_state_path(path)
-- 
2.43.0


From 9038583509fe97411815c8fdeba4fc152f570599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:12 +0000
Subject: [PATCH 060/220] fix: check_is_fitting considers the activity key in
 all its steps (KeyError with a non-default one)

---
 pm4py/conformance.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pm4py/conformance.py b/pm4py/conformance.py
index d438e2c..630939a 100644
--- a/pm4py/conformance.py
+++ b/pm4py/conformance.py
@@ -581,12 +581,13 @@ def precision_footprints(*args) -> float:
 
 
 @deprecation.deprecated(removed_in="2.3.0", deprecated_in="3.0.0", details="this method will be removed in a future release.")
-def __check_is_fit_process_tree(trace, tree) -> bool:
+def __check_is_fit_process_tree(trace, tree, activity_key=xes_constants.DEFAULT_NAME_KEY) -> bool:
     """
     Check if a trace object is fit against a process tree model
 
     :param trace: trace
     :param tree: process tree
+    :param activity_key: attribute to be used as activity
     :rtype: ``bool``
     """
     __event_log_deprecation_warning(trace)
@@ -595,7 +596,7 @@ def __check_is_fit_process_tree(trace, tree) -> bool:
     log = EventLog()
     log.append(trace)
     fp_tree = discover_footprints(tree)
-    fp_log = discover_footprints(log)
+    fp_log = discover_footprints(log, activity_key=activity_key)
     fp_conf_res = conformance_diagnostics_footprints(fp_log, fp_tree)[0]
     # CHECK 1) if footprints already say is not fit, then return False
     # (if they say True, it might be a false positive)
@@ -604,14 +605,14 @@ def __check_is_fit_process_tree(trace, tree) -> bool:
     else:
         from pm4py.convert import convert_to_petri_net
         net, im, fm = convert_to_petri_net(tree)
-        tbr_conf_res = conformance_diagnostics_token_based_replay(log, net, im, fm, return_diagnostics_dataframe=False)[0]
+        tbr_conf_res = conformance_diagnostics_token_based_replay(log, net, im, fm, return_diagnostics_dataframe=False, activity_key=activity_key)[0]
         # CHECK 2) if TBR says that is fit, then return True
         # (if they say False, it might be a false negative)
         if tbr_conf_res["trace_is_fit"]:
             return True
         else:
             # CHECK 3) alignments definitely say if the trace is fit or not if the previous methods fail
-            align_conf_res = conformance_diagnostics_alignments(log, tree, return_diagnostics_dataframe=False)[0]
+            align_conf_res = conformance_diagnostics_alignments(log, tree, return_diagnostics_dataframe=False, activity_key=activity_key)[0]
             return align_conf_res["fitness"] == 1.0
 
 
@@ -639,14 +640,14 @@ def __check_is_fit_petri_net(trace, net, im, fm, activity_key=xes_constants.DEFA
     else:
         log = EventLog()
         log.append(trace)
-        tbr_conf_res = conformance_diagnostics_token_based_replay(log, net, im, fm, return_diagnostics_dataframe=False)[0]
+        tbr_conf_res = conformance_diagnostics_token_based_replay(log, net, im, fm, return_diagnostics_dataframe=False, activity_key=activity_key)[0]
         # CHECK 2) if TBR says that is fit, then return True
         # (if they say False, it might be a false negative)
         if tbr_conf_res["trace_is_fit"]:
             return True
         else:
             # CHECK 3) alignments definitely say if the trace is fit or not if the previous methods fail
-            align_conf_res = conformance_diagnostics_alignments(log, net, im, fm, return_diagnostics_dataframe=False)[0]
+            align_conf_res = conformance_diagnostics_alignments(log, net, im, fm, return_diagnostics_dataframe=False, activity_key=activity_key)[0]
             return align_conf_res["fitness"] == 1.0
 
 
@@ -677,7 +678,7 @@ def check_is_fitting(*args, activity_key=xes_constants.DEFAULT_NAME_KEY) -> bool
             trace.append(Event({activity_key: act}))
 
     if isinstance(model, ProcessTree):
-        return __check_is_fit_process_tree(trace, model)
+        return __check_is_fit_process_tree(trace, model, activity_key=activity_key)
     elif isinstance(model, tuple) and isinstance(model[0], PetriNet):
         return __check_is_fit_petri_net(trace, model[0], model[1], model[2], activity_key=activity_key)
 
-- 
2.43.0


From b3de00e8ae2b188fe6673f32cdda0ebfd5ddb6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:18 +0000
Subject: [PATCH 061/220] fix: the bottom-up visit of a process tree considers
 every node when some subtrees are equal

---
 pm4py/objects/process_tree/utils/bottomup.py | 28 ++++++--------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/pm4py/objects/process_tree/utils/bottomup.py b/pm4py/objects/process_tree/utils/bottomup.py
index df0b9e1..4670745 100644
--- a/pm4py/objects/process_tree/utils/bottomup.py
+++ b/pm4py/objects/process_tree/utils/bottomup.py
@@ -210,27 +210,15 @@ def get_bottomup_nodes(tree, parameters=None):
     if parameters is None:
         parameters = {}
 
-    to_visit = [tree]
-    all_nodes = set()
-    while len(to_visit) > 0:
-        n = to_visit.pop(0)
-        all_nodes.add(n)
-        for child in n.children:
-            to_visit.append(child)
-    # starts to visit the tree from the leafs
-    bottomup = [x for x in all_nodes if len(x.children) == 0]
-    # then add iteratively the parent
+    # visit the nodes level by level (every node, also when it is structurally equal to another one)
+    all_nodes = [tree]
     i = 0
-    while i < len(bottomup):
-        parent = bottomup[i].parent
-        if parent is not None and parent not in bottomup:
-            is_ok = True
-            for child in parent.children:
-                if not child in bottomup:
-                    is_ok = False
-                    break
-            if is_ok:
-                bottomup.append(parent)
+    while i < len(all_nodes):
+        all_nodes.extend(all_nodes[i].children)
         i = i + 1
+    # starts from the leafs
+    bottomup = [x for x in all_nodes if len(x.children) == 0]
+    # then add the parents, from the deepest level to the root
+    bottomup.extend(x for x in reversed(all_nodes) if len(x.children) > 0)
 
     return bottomup
-- 
2.43.0


From bfcd1d05b30fc9ceb66a344fc3be81807262c605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 062/220] fix: check_is_fitting on process trees computes the
 footprints of the trace with the given activity key

---
 pm4py/conformance.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/conformance.py b/pm4py/conformance.py
index 630939a..6b0bb95 100644
--- a/pm4py/conformance.py
+++ b/pm4py/conformance.py
@@ -595,8 +595,10 @@ def __check_is_fit_process_tree(trace, tree, activity_key=xes_constants.DEFAULT_
     from pm4py.discovery import discover_footprints
     log = EventLog()
     log.append(trace)
+    from pm4py.algo.discovery.footprints import algorithm as footprints_discovery
+    from pm4py.util.constants import PARAMETER_CONSTANT_ACTIVITY_KEY
     fp_tree = discover_footprints(tree)
-    fp_log = discover_footprints(log, activity_key=activity_key)
+    fp_log = footprints_discovery.apply(log, parameters={PARAMETER_CONSTANT_ACTIVITY_KEY: activity_key})
     fp_conf_res = conformance_diagnostics_footprints(fp_log, fp_tree)[0]
     # CHECK 1) if footprints already say is not fit, then return False
     # (if they say True, it might be a false positive)
-- 
2.43.0


From 68b7b2c669074a74c37d97031cb370325d4c9bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:31 +0000
Subject: [PATCH 063/220] fix: the trace-based reduction of a process tree has
 the footprints of every node when some subtrees are equal

---
 pm4py/algo/reduction/process_tree/variants/tree_tr_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py b/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py
index fdcc6de..30eaa9f 100644
--- a/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py
+++ b/pm4py/algo/reduction/process_tree/variants/tree_tr_based.py
@@ -72,7 +72,7 @@ def apply(tree: ProcessTree, trace: Trace, parameters: Optional[Dict[Any, Any]]
 
     bottomup_nodes = bottomup.get_bottomup_nodes(tree)
     fps = footprints.get_all_footprints(tree)
-    fps = {id(x): y for x, y in fps.items()}
+    fps = {id(x): fps[x] for x in bottomup_nodes}
 
     return reduce(bottomup_nodes, fps, activities)
 
-- 
2.43.0


From e420458711d4422bee51d5b2e67bf3610c36b2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 064/220] fix: token-based replay adds exactly the missing
 tokens also when some tokens of a weighted arc are there

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 9fac2b7..0cd102c 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -93,7 +93,7 @@ def add_missing_tokens(t, marking):
         if marking[a.source] < a.weight:
             missing = missing + (a.weight - marking[a.source])
             tokens_added[a.source] = a.weight - marking[a.source]
-            marking[a.source] = marking[a.source] + a.weight
+            marking[a.source] = a.weight
     return [missing, tokens_added]
 
 
-- 
2.43.0


From f9f9f0ddc8a8a10bfc056619af076006424c8c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 065/220] fix: token-based replay does not report as fit a
 trace that does not put the tokens of the final marking

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 0cd102c..1786115 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -681,7 +681,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
         remaining = remaining + current_remaining_map[p]
 
     if consider_remaining_in_fitness:
-        is_fit = (missing == 0) and (remaining == 0)
+        is_fit = (missing == 0) and (remaining == 0) and len(diff_fin_mark_mark) == 0
     else:
         is_fit = (missing == 0)
 
-- 
2.43.0


From 9f77a14cf453bb601ea79a471be83dca3b65e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 066/220] fix: the activities of other traces that are not in
 the model do not make a trace unfit in the token-based replay

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index 1786115..cb3146b 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -685,7 +685,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
     else:
         is_fit = (missing == 0)
 
-    if consider_activities_not_in_model_in_fitness and notexisting_activities_in_model:
+    if consider_activities_not_in_model_in_fitness and any(event[activity_key] not in trans_map for event in trace):
         is_fit = False
 
     # separate global counts from local statistics in the case these are not enabled by the options
-- 
2.43.0


From 5d83bca5826152fd280513efdb8775480a262226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 067/220] fix: the missing tokens of a place are counted for
 every occurrence of the variant in the token-based replay

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index cb3146b..e6ccf60 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -524,7 +524,7 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                             for place in tokens_added.keys():
                                 if place in place_fitness:
                                     place_fitness[place]["underfed_traces"].add(trace)
-                                place_fitness[place]["m"] += tokens_added[place]
+                                place_fitness[place]["m"] += tokens_added[place] * trace_occurrences
                             if trace not in transition_fitness[t]["underfed_traces"]:
                                 transition_fitness[t]["underfed_traces"][trace] = list()
                             transition_fitness[t]["underfed_traces"][trace].append(current_event_map)
-- 
2.43.0


From 7ee2206524f73b97c5a041868ffb87b159acbf58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:38 +0000
Subject: [PATCH 068/220] fix: all the markings reached through hidden
 transitions are considered to find the visible transitions eventually enabled

---
 pm4py/objects/petri_net/utils/align_utils.py | 40 +++++++++-----------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/align_utils.py b/pm4py/objects/petri_net/utils/align_utils.py
index 749e4d0..a49eeea 100644
--- a/pm4py/objects/petri_net/utils/align_utils.py
+++ b/pm4py/objects/petri_net/utils/align_utils.py
@@ -436,34 +436,30 @@ def get_visible_transitions_eventually_enabled_by_marking(net, marking):
     marking
         Current marking
     """
-    all_enabled_transitions = sorted(list(semantics.enabled_transitions(net, marking)),
-                                     key=lambda x: (str(x.name), id(x)))
-    initial_all_enabled_transitions_marking_dictio = {}
-    all_enabled_transitions_marking_dictio = {}
-    for trans in all_enabled_transitions:
-        all_enabled_transitions_marking_dictio[trans] = marking
-        initial_all_enabled_transitions_marking_dictio[trans] = marking
     visible_transitions = set()
-    visited_transitions = set()
+    # the markings reachable by firing hidden transitions, with the markings traversed to reach them
+    to_visit = [(copy(marking), [])]
+    visited_markings = set()
 
-    i = 0
-    while i < len(all_enabled_transitions):
-        t = all_enabled_transitions[i]
-        marking_copy = copy(all_enabled_transitions_marking_dictio[t])
+    while to_visit:
+        curr_marking, ancestors = to_visit.pop(0)
+        if curr_marking in visited_markings:
+            continue
+        visited_markings.add(curr_marking)
 
-        if repr([t, marking_copy]) not in visited_transitions:
+        for t in sorted(list(semantics.enabled_transitions(net, curr_marking)), key=lambda x: (str(x.name), id(x))):
             if t.label is not None:
                 visible_transitions.add(t)
             else:
-                if semantics.is_enabled(t, net, marking_copy):
-                    new_marking = semantics.execute(t, net, marking_copy)
-                    new_enabled_transitions = sorted(list(semantics.enabled_transitions(net, new_marking)),
-                                                     key=lambda x: (str(x.name), id(x)))
-                    for t2 in new_enabled_transitions:
-                        all_enabled_transitions.append(t2)
-                        all_enabled_transitions_marking_dictio[t2] = new_marking
-            visited_transitions.add(repr([t, marking_copy]))
-        i = i + 1
+                new_marking = semantics.execute(t, net, curr_marking)
+                new_ancestors = ancestors + [curr_marking]
+                for anc in new_ancestors:
+                    if anc <= new_marking and anc != new_marking:
+                        # the hidden transitions can put an arbitrary number of tokens in these places
+                        for p in new_marking:
+                            if new_marking[p] > anc[p]:
+                                new_marking[p] = float("inf")
+                to_visit.append((new_marking, new_ancestors))
 
     return visible_transitions
 
-- 
2.43.0


From addbfb4af4731354b28c4b6ba6f940dc674e229b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 069/220] fix: all the tokens removed by the cleaning of the
 token flood are counted as remaining

---
 pm4py/algo/conformance/tokenreplay/variants/token_replay.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
index e6ccf60..4d2c2e6 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/token_replay.py
@@ -558,11 +558,12 @@ def apply_trace(trace, net, initial_marking, final_marking, trans_map, enable_pl
                                     if p1 in comp and p2 in comp:
                                         place_to_delete = [place for place in list(marking.keys()) if place.name == p1]
                                         if len(place_to_delete) == 1:
+                                            removed_tokens = marking[place_to_delete[0]]
                                             del marking[place_to_delete[0]]
                                             if not place_to_delete[0] in current_remaining_map:
                                                 current_remaining_map[place_to_delete[0]] = 0
                                             current_remaining_map[place_to_delete[0]] = current_remaining_map[
-                                                                                            place_to_delete[0]] + 1
+                                                                                            place_to_delete[0]] + removed_tokens
                         pass
                 else:
                     if not trace[i][activity_key] in notexisting_activities_in_model:
-- 
2.43.0


From 56701783bf47871b3bfe90d402f027d5bb10ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 070/220] fix: the backwards token-based replay fires a single
 transition for an event

---
 pm4py/algo/conformance/tokenreplay/variants/backwards.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/backwards.py b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
index 84fe0dc..39593e2 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/backwards.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
@@ -216,7 +216,7 @@ def tr_vlist(vlist, net, im, fm, tmap, bmap, parameters=None):
                     m, tokens_counter = execute_tr(m, t, tokens_counter)
                     visited_transitions.append(t)
                     rep_ok = True
-                    continue
+                    break
                 elif len(tmap[act]) == 1:
                     back_res = explore_backwards([(get_bmap(net, t.in_marking, bmap), copy(t.in_marking), list())],
                                                  set(), net, m, bmap)
-- 
2.43.0


From 7d90cb8ec278435eb3973ff64bb001a0d06c5317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 071/220] fix: the backwards token-based replay consumes the
 tokens of the final marking

---
 pm4py/algo/conformance/tokenreplay/variants/backwards.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/backwards.py b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
index 39593e2..b8b224b 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/backwards.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
@@ -254,7 +254,7 @@ def tr_vlist(vlist, net, im, fm, tmap, bmap, parameters=None):
                 tokens_counter["missing"] += diff2[p]
 
     for p in fm:
-        tokens_counter["consumed"] += m[p]
+        tokens_counter["consumed"] += fm[p]
 
     trace_fitness = 0.5 * (1.0 - float(tokens_counter["missing"]) / float(tokens_counter["consumed"])) + 0.5 * (
             1.0 - float(tokens_counter["remaining"]) / float(tokens_counter["produced"]))
-- 
2.43.0


From 2b71d4a3e554f30affa685bb87de5d002ab85a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:11 +0000
Subject: [PATCH 072/220] fix: the backwards token-based replay computes the
 fitness when no token is produced or consumed

---
 pm4py/algo/conformance/tokenreplay/variants/backwards.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/tokenreplay/variants/backwards.py b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
index b8b224b..5ec2449 100644
--- a/pm4py/algo/conformance/tokenreplay/variants/backwards.py
+++ b/pm4py/algo/conformance/tokenreplay/variants/backwards.py
@@ -256,8 +256,11 @@ def tr_vlist(vlist, net, im, fm, tmap, bmap, parameters=None):
     for p in fm:
         tokens_counter["consumed"] += fm[p]
 
-    trace_fitness = 0.5 * (1.0 - float(tokens_counter["missing"]) / float(tokens_counter["consumed"])) + 0.5 * (
-            1.0 - float(tokens_counter["remaining"]) / float(tokens_counter["produced"]))
+    if tokens_counter["consumed"] > 0 and tokens_counter["produced"] > 0:
+        trace_fitness = 0.5 * (1.0 - float(tokens_counter["missing"]) / float(tokens_counter["consumed"])) + 0.5 * (
+                1.0 - float(tokens_counter["remaining"]) / float(tokens_counter["produced"]))
+    else:
+        trace_fitness = 1.0
 
     enabled_transitions_in_marking = get_visible_transitions_eventually_enabled_by_marking(net, m)
 
-- 
2.43.0


From 635da87b0b90d99d85c6542968e7b4eedd15d974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 073/220] fix: the inductive miner accepts the variants
 (counter of activity tuples) as input

---
 pm4py/algo/discovery/inductive/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/inductive/algorithm.py b/pm4py/algo/discovery/inductive/algorithm.py
index 71f1c61..e6fbf37 100644
--- a/pm4py/algo/discovery/inductive/algorithm.py
+++ b/pm4py/algo/discovery/inductive/algorithm.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from collections import Counter
 from enum import Enum
 from typing import Optional, Dict, Any, Union
 
@@ -67,7 +68,7 @@ def apply(obj: Union[EventLog, pd.DataFrame, DFG, UVCL], parameters: Optional[Di
         idfg = InductiveDFG(dfg=obj, skip=False)
         process_tree = imd.apply(IMDataStructureDFG(idfg), parameters)
     else:
-        if type(obj) in [UVCL]:
+        if isinstance(obj, Counter):
             uvcl = obj
         else:
             uvcl = comut.get_variants(comut.project_univariate(obj, key=ack, df_glue=cidk, df_sorting_criterion_key=tk))
-- 
2.43.0


From a5ec6274d4112d9c6bbf27873393bec0ca047bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:59 +0000
Subject: [PATCH 074/220] fix: the inductive miner on DFGs handles a single
 activity that is only an end activity

---
 pm4py/algo/discovery/inductive/base_case/single_activity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/inductive/base_case/single_activity.py b/pm4py/algo/discovery/inductive/base_case/single_activity.py
index 3f8a74c..77ffe07 100644
--- a/pm4py/algo/discovery/inductive/base_case/single_activity.py
+++ b/pm4py/algo/discovery/inductive/base_case/single_activity.py
@@ -46,4 +46,4 @@ class SingleActivityBaseCaseDFG(BaseCase[IMDataStructureDFG]):
 
     @classmethod
     def leaf(cls, obj=IMDataStructureDFG, parameters: Optional[Dict[str, Any]] = None) -> ProcessTree:
-        return ProcessTree(label=list(obj.dfg.start_activities)[0])
+        return ProcessTree(label=list(set(obj.dfg.start_activities).union(obj.dfg.end_activities))[0])
-- 
2.43.0


From 5343ce40708187d61f7ea4e59094e5ab176b6066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:10 +0000
Subject: [PATCH 075/220] fix: the loop cut of the inductive miner returns a do
 and a redo part, instead of loops with more than two children

---
 pm4py/algo/discovery/inductive/cuts/loop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/inductive/cuts/loop.py b/pm4py/algo/discovery/inductive/cuts/loop.py
index 6cb178d..636008e 100644
--- a/pm4py/algo/discovery/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/inductive/cuts/loop.py
@@ -67,7 +67,8 @@ class LoopCut(Cut[T], ABC, Generic[T]):
 
         groups = list(filter(lambda g: len(g) > 0, groups))
 
-        return groups if len(groups) > 1 else None
+        # loops have exactly two children (do, redo): alternative redo parts are separated by an exclusive choice
+        return [groups[0], set().union(*groups[1:])] if len(groups) > 1 else None
 
     @classmethod
     def _check_start_completeness(cls, dfg: DFG, start_activities: Collection[Any], end_activities: Collection[Any],
-- 
2.43.0


From 55a3117bc634b7d06930961b31d0ee33f8fbef65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 076/220] fix: alpha+ keeps every predecessor of a length-one
 loop (not only the last one seen)

---
 pm4py/algo/discovery/alpha/variants/plus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 1980c30..de7c226 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -101,7 +101,7 @@ def preprocessing(log: EventLog, parameters: Optional[Dict[Union[str, Parameters
                 filtered_trace.append(current)
             if successor in loop_one_list:
                 if not current in loop_one_list:
-                    if current in A:
+                    if successor in A:
                         A[successor].append(current)
                     else:
                         A[successor] = [current]
-- 
2.43.0


From 94cfd3ca58c53dc9959ff875f739fcd149030f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 077/220] fix: alpha+ attaches length-one loops to the
 discovered place instead of to a new unmarked one (dead transition)

---
 pm4py/algo/discovery/alpha/variants/plus.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index de7c226..88918ec 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -457,8 +457,7 @@ def postprocessing(net: PetriNet, initial_marking: Marking, final_marking: Marki
                 in_part = pair_try[0]
                 out_part = pair_try[1]
                 if pair[0].issubset(in_part) and pair[1].issubset(out_part):
-                    pair_try_place = PetriNet.Place(str(pair_try))
-                    net.places.add(pair_try_place)
+                    pair_try_place = [p for p in net.places if p.name == str(pair_try)][0]
                     add_arc_from_to(label_transition_dict[key], pair_try_place, net)
                     add_arc_from_to(pair_try_place, label_transition_dict[key], net)
     return net, initial_marking, final_marking
-- 
2.43.0


From 41a8946ff33b93ef5b2f1d9ef77d789647ff90be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 078/220] fix: alpha+ sharp relation between an activity and
 one that is never followed (artificial end)

---
 pm4py/algo/discovery/alpha/variants/plus.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 88918ec..30e6437 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -390,6 +390,7 @@ def get_sharp_relation(follows, instance_one, instance_two):
     if instance_two in follows:
         if instance_one in follows[instance_two]:
             return False
+    return True
 
 
 def get_sharp_relations_for_sets(follows, set_1, set_2):
-- 
2.43.0


From ec7bea00b1b436206e6795df88de0121f0ee4954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 079/220] fix: prefix tree marks the root as final when the log
 contains the empty trace

---
 pm4py/algo/transformation/log_to_trie/algorithm.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_trie/algorithm.py b/pm4py/algo/transformation/log_to_trie/algorithm.py
index bdeab05..f63aa16 100644
--- a/pm4py/algo/transformation/log_to_trie/algorithm.py
+++ b/pm4py/algo/transformation/log_to_trie/algorithm.py
@@ -55,6 +55,5 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
                 node = Trie(label=activity, parent=trie, depth=trie.depth + 1)
                 trie.children.append(node)
                 trie = node
-            if i == len(variant) - 1:
-                trie.final = True
+        trie.final = True
     return root
-- 
2.43.0


From 3af694856a72d36cf01e43ace99f1b133fe28feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:03 +0000
Subject: [PATCH 080/220] fix: batch detection scans the intervals in order (a
 heap is not a sorted list)

---
 pm4py/algo/discovery/batches/utils/detection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/batches/utils/detection.py b/pm4py/algo/discovery/batches/utils/detection.py
index ea8d2cf..be1c0ef 100644
--- a/pm4py/algo/discovery/batches/utils/detection.py
+++ b/pm4py/algo/discovery/batches/utils/detection.py
@@ -18,7 +18,7 @@ from enum import Enum
 from typing import Tuple, List, Any, Set, Optional, Dict, Union
 
 from pm4py.util import exec_utils
-import heapq
+import bisect
 from copy import copy
 
 
@@ -85,7 +85,7 @@ def __merge_near_intervals(intervals: List[Tuple[float, float, Set[Any]]], max_a
                 # remove the i interval
                 del intervals[i]
                 # add the new interval to the list
-                heapq.heappush(intervals, new_interval)
+                bisect.insort(intervals, new_interval)
                 # set the variable continue_cycle to True
                 continue_cycle = True
                 i = i - 1
@@ -153,7 +153,7 @@ def __detect_single(events: List[Tuple[float, float, str]], parameters: Optional
 
     intervals = [(e[0], e[1], {copy(e)}) for e in
                  events]
-    heapq.heapify(intervals)
+    intervals.sort()
     intervals = __merge_overlapping_intervals(intervals)
     intervals = __merge_near_intervals(intervals, merge_distance)
     batches = [x for x in intervals if len(x[2]) >= min_batch_size]
-- 
2.43.0


From fd2bd38917745bcc517a36d8849d21d48f3e2399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:11 +0000
Subject: [PATCH 081/220] fix: trace-based correlation mining honours the
 attribute keys passed by the user

---
 .../algo/discovery/correlation_mining/variants/trace_based.py  | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
index 2c1a9f9..dc08fc7 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
@@ -58,7 +58,8 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
         Performance DFG (containing the estimated performance for the arcs)
     """
     traces_list, trace_grouped_list, activities, activities_counter = preprocess_log(log, activities=None,
-                                                                                     activities_counter=None)
+                                                                                     activities_counter=None,
+                                                                                     parameters=parameters)
 
     PS_matrix, duration_matrix = get_PS_duration_matrix(activities, trace_grouped_list, parameters=parameters)
 
-- 
2.43.0


From c52ec60b74e6a2bb3aa57e2a0885faf9d76907bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:11 +0000
Subject: [PATCH 082/220] fix: correlation mining sorts the completion
 timestamps before the ordered scan (interval logs)

---
 pm4py/algo/discovery/correlation_mining/variants/classic.py   | 4 ++--
 .../algo/discovery/correlation_mining/variants/trace_based.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/discovery/correlation_mining/variants/classic.py b/pm4py/algo/discovery/correlation_mining/variants/classic.py
index c4509b7..4997def 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/classic.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/classic.py
@@ -211,7 +211,7 @@ def get_precede_succeed_matrix(activities, activities_grouped, timestamp_key, st
     """
     ret = np.zeros((len(activities), len(activities)))
     for i in range(len(activities)):
-        ai = [x[timestamp_key] for x in activities_grouped[activities[i]]]
+        ai = sorted(x[timestamp_key] for x in activities_grouped[activities[i]])
         if ai:
             for j in range(len(activities)):
                 if not i == j:
@@ -257,7 +257,7 @@ def get_duration_matrix(activities, activities_grouped, timestamp_key, start_tim
     # greedy algorithm
     ret = np.zeros((len(activities), len(activities)))
     for i in range(len(activities)):
-        ai = [x[timestamp_key] for x in activities_grouped[activities[i]]]
+        ai = sorted(x[timestamp_key] for x in activities_grouped[activities[i]])
         if ai:
             for j in range(len(activities)):
                 if not i == j:
diff --git a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
index dc08fc7..9fcb81c 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/trace_based.py
@@ -223,7 +223,7 @@ def get_precede_succeed_matrix(activities, trace_grouped_list, timestamp_key, st
                 count = 0
                 total = 0
                 for tr in trace_grouped_list:
-                    ai = [x[timestamp_key] for x in tr[i]]
+                    ai = sorted(x[timestamp_key] for x in tr[i])
                     aj = [x[start_timestamp_key] for x in tr[j]]
                     if ai and aj:
                         total += len(ai) * len(aj)
@@ -268,7 +268,7 @@ def get_duration_matrix(activities, trace_grouped_list, timestamp_key, start_tim
                 tm0 = []
                 tm1 = []
                 for tr in trace_grouped_list:
-                    ai = [x[timestamp_key] for x in tr[i]]
+                    ai = sorted(x[timestamp_key] for x in tr[i])
                     aj = [x[start_timestamp_key] for x in tr[j]]
                     if ai and aj:
                         tm0 = cm_util.calculate_time_match_fifo(ai, aj, times0=tm0)
-- 
2.43.0


From 926277df273a83ed303b0b0809caadfe5c07953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 083/220] fix: correlation mining no longer changes the
 caller's parameters dictionary

---
 pm4py/algo/discovery/correlation_mining/variants/classic.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/correlation_mining/variants/classic.py b/pm4py/algo/discovery/correlation_mining/variants/classic.py
index 4997def..75aa869 100644
--- a/pm4py/algo/discovery/correlation_mining/variants/classic.py
+++ b/pm4py/algo/discovery/correlation_mining/variants/classic.py
@@ -157,8 +157,7 @@ def preprocess_log(log, activities=None, parameters=None):
     activities
         List of activities of the log
     """
-    if parameters is None:
-        parameters = {}
+    parameters = {} if parameters is None else dict(parameters)
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters,
-- 
2.43.0


From d389c28eb6e8ffc17504ff144fd2dbf11f269baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 084/220] fix: alpha+ only merges pairs when all their elements
 are causally related

---
 pm4py/algo/discovery/alpha/variants/plus.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 30e6437..196392a 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -331,7 +331,8 @@ def processing(log: EventLog, causal: Tuple[str, str], follows: Tuple[str, str])
                                                                                                             t1[1],
                                                                                                             t2[1]):
                         new_alpha_pair = (t1[0] | t2[0], t1[1] | t2[1])
-                        if new_alpha_pair not in pairs:
+                        if new_alpha_pair not in pairs and all(
+                                b in causal.get(a, ()) for a in new_alpha_pair[0] for b in new_alpha_pair[1]):
                             pairs.append((t1[0] | t2[0], t1[1] | t2[1]))
     # maximize pairs
     cleaned_pairs = list(filter(lambda p: __pair_maximizer(pairs, p), pairs))
-- 
2.43.0


From a8bf8862c6ef7a7af4b11fbb200e64d055b4b6b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 085/220] fix: a self-loop on a state not seen before no longer
 creates a duplicate transition-system state

---
 pm4py/algo/discovery/transition_system/variants/view_based.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/transition_system/variants/view_based.py b/pm4py/algo/discovery/transition_system/variants/view_based.py
index 406529b..e72205f 100644
--- a/pm4py/algo/discovery/transition_system/variants/view_based.py
+++ b/pm4py/algo/discovery/transition_system/variants/view_based.py
@@ -78,6 +78,7 @@ def __construct_state_path(view_sequence, transition_system, include_data=False)
     for i in range(0, len(view_sequence) - 1):
         sf = {'state': s for s in transition_system.states if s.name == view_sequence[i][0]}
         sf = sf['state'] if len(sf) > 0 else ts.TransitionSystem.State(view_sequence[i][0])
+        transition_system.states.add(sf)
         st = {'state': s for s in transition_system.states if s.name == view_sequence[i + 1][0]}
         st = st['state'] if len(st) > 0 else ts.TransitionSystem.State(view_sequence[i + 1][0])
         t = {'t': t for t in sf.outgoing if t.name == view_sequence[i][1] and t.from_state == sf and t.to_state == st}
@@ -93,7 +94,6 @@ def __construct_state_path(view_sequence, transition_system, include_data=False)
             sf.data[ts_constants.OUTGOING_EVENTS].append(view_sequence[i][2])
             st.data[ts_constants.INGOING_EVENTS].append(view_sequence[i][2])
             t.data[ts_constants.EVENTS].append(view_sequence[i][2])
-        transition_system.states.add(sf)
         transition_system.states.add(st)
         transition_system.transitions.add(t)
 
-- 
2.43.0


From 860859a5ce4496e33103b01dc559d84545033718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:52 +0000
Subject: [PATCH 086/220] fix: heuristics net: incoming length-two-loop edges
 carry the frequency of their own direction

---
 pm4py/algo/discovery/heuristics/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/heuristics/variants/classic.py b/pm4py/algo/discovery/heuristics/variants/classic.py
index abe06cb..9c709bf 100644
--- a/pm4py/algo/discovery/heuristics/variants/classic.py
+++ b/pm4py/algo/discovery/heuristics/variants/classic.py
@@ -511,7 +511,7 @@ def calculate(heu_net, dependency_thresh=defaults.DEFAULT_DEPENDENCY_THRESH,
                         heu_net.nodes[n1].add_output_connection(heu_net.nodes[n2], 0,
                                                                 v_n1_n2, repr_value=repr_value)
                         heu_net.nodes[n2].add_input_connection(heu_net.nodes[n1], 0,
-                                                               v_n2_n1, repr_value=repr_value)
+                                                               v_n1_n2, repr_value=repr_value)
 
                     if (n2, n1) not in added_loops:
                         repr_value = heu_net.performance_matrix[n2][n1] if n2 in heu_net.performance_matrix and n1 in \
@@ -520,7 +520,7 @@ def calculate(heu_net, dependency_thresh=defaults.DEFAULT_DEPENDENCY_THRESH,
                         heu_net.nodes[n2].add_output_connection(heu_net.nodes[n1], 0,
                                                                 v_n2_n1, repr_value=repr_value)
                         heu_net.nodes[n1].add_input_connection(heu_net.nodes[n2], 0,
-                                                               v_n1_n2, repr_value=repr_value)
+                                                               v_n2_n1, repr_value=repr_value)
     if len(heu_net.nodes) == 0:
         for act in heu_net.activities:
             heu_net.nodes[act] = Node(heu_net, act, heu_net.activities_occurrences[act],
-- 
2.43.0


From 3726789739e847550200b9333f7079a51b990ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:39 +0000
Subject: [PATCH 087/220] fix: alpha+ does not remove the place holding the
 initial marking together with the final hidden transition

---
 pm4py/algo/discovery/alpha/variants/plus.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/alpha/variants/plus.py b/pm4py/algo/discovery/alpha/variants/plus.py
index 196392a..b89f4d8 100644
--- a/pm4py/algo/discovery/alpha/variants/plus.py
+++ b/pm4py/algo/discovery/alpha/variants/plus.py
@@ -594,7 +594,7 @@ def remove_final_hidden_if_possible(net: PetriNet, fm: Marking):
     source_places_last_hidden = [x.source for x in last_hidden.in_arcs]
     removal_possible = len(source_places_last_hidden) == 1
     for place in source_places_last_hidden:
-        if len(place.out_arcs) > 1:
+        if len(place.out_arcs) > 1 or len(place.in_arcs) == 0:
             removal_possible = False
             break
         else:
-- 
2.43.0


From 230af514e76ba80109a44336858ee97020eccd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 088/220] fix: footprints of an inclusive choice: skippable
 when one child is, and only the activities common to all children always
 happen

---
 .../algo/discovery/footprints/tree/variants/bottomup.py  | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
index a06ac77..72b8210 100644
--- a/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
+++ b/pm4py/algo/discovery/footprints/tree/variants/bottomup.py
@@ -365,8 +365,15 @@ def get_footprints(node, footprints_dictio):
         return get_footprints_leaf(node, footprints_dictio)
     elif node.operator == Operator.XOR:
         return get_footprints_xor(node, footprints_dictio)
-    elif node.operator == Operator.PARALLEL or node.operator == Operator.OR:
+    elif node.operator == Operator.PARALLEL:
         return get_footprints_parallel(node, footprints_dictio)
+    elif node.operator == Operator.OR:
+        footprints = get_footprints_parallel(node, footprints_dictio)
+        # a single child may be executed alone
+        footprints_xor = get_footprints_xor(node, footprints_dictio)
+        footprints[SKIPPABLE] = footprints_xor[SKIPPABLE]
+        footprints[ACTIVITIES_ALWAYS_HAPPENING] = footprints_xor[ACTIVITIES_ALWAYS_HAPPENING]
+        return footprints
     elif node.operator == Operator.SEQUENCE:
         return get_footprints_sequence(node, footprints_dictio)
     elif node.operator == Operator.LOOP:
-- 
2.43.0


From f281bf455f2f14007463cce1bc9c0bd4cef277c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 089/220] fix: minimum trace length of an inclusive choice is
 the shortest child, not the sum of all of them

---
 pm4py/objects/process_tree/utils/bottomup.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/process_tree/utils/bottomup.py b/pm4py/objects/process_tree/utils/bottomup.py
index 4670745..60e5c6b 100644
--- a/pm4py/objects/process_tree/utils/bottomup.py
+++ b/pm4py/objects/process_tree/utils/bottomup.py
@@ -183,9 +183,9 @@ def get_min_length_dict(node, min_length_dict):
             min_length_dict[node] = 0
         else:
             min_length_dict[node] = 1
-    elif node.operator == Operator.XOR:
+    elif node.operator == Operator.XOR or node.operator == Operator.OR:
         min_length_dict[node] = min(min_length_dict[x] for x in node.children)
-    elif node.operator == Operator.PARALLEL or node.operator == Operator.SEQUENCE or node.operator == Operator.OR:
+    elif node.operator == Operator.PARALLEL or node.operator == Operator.SEQUENCE:
         min_length_dict[node] = sum(min_length_dict[x] for x in node.children)
     elif node.operator == Operator.LOOP:
         min_length_dict[node] = min_length_dict[node.children[0]]
-- 
2.43.0


From bacb057b266ad7831ece2f31c8df76192c04f030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 090/220] fix: footprints of a net with duplicate labels: a
 pair is either sequential or parallel

---
 pm4py/algo/discovery/footprints/petri/variants/reach_graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py b/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py
index 92bf741..bc7ec6b 100644
--- a/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py
+++ b/pm4py/algo/discovery/footprints/petri/variants/reach_graph.py
@@ -93,7 +93,7 @@ def apply(net: PetriNet, im: Marking, parameters: Optional[Dict[Any, Any]] = Non
     par_els = {(x[0], x[1]) for x in sequence if (x[1], x[0]) in sequence}
     for el in par_els:
         parallel.add(el)
-        sequence.remove(el)
+    sequence = sequence.difference(parallel)
 
     activities = set(x.label for x in net.transitions if x.label is not None)
     start_activities = set(x.label for x in eventually_enabled[im])
-- 
2.43.0


From 625ffe5fe95ef681c0a62679cf4353e5cc2cacac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 091/220] fix: footprints fitness of a log of single-event
 traces considers the start/end deviations

---
 pm4py/algo/conformance/footprints/util/evaluation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/footprints/util/evaluation.py b/pm4py/algo/conformance/footprints/util/evaluation.py
index d7894f4..faebc05 100644
--- a/pm4py/algo/conformance/footprints/util/evaluation.py
+++ b/pm4py/algo/conformance/footprints/util/evaluation.py
@@ -90,8 +90,12 @@ def fp_fitness(fp_log, fp_model, conf_results, parameters=None):
         fitness = ((1.0 - sum_dev / sum_dfg) * (num_sequence_log + num_parallel_log) + (
                     num_start_activities_log + num_end_activities_log - num_start_activities_dev - num_end_activities_dev)) / (
                            num_sequence_log + num_parallel_log + num_start_activities_log + num_end_activities_log)
+    elif num_start_activities_log + num_end_activities_log > 0:
+        # no directly-follows relation in the log: only the start/end activities can be compared
+        fitness = (num_start_activities_log + num_end_activities_log - num_start_activities_dev - num_end_activities_dev) / float(
+            num_start_activities_log + num_end_activities_log)
     else:
-        # return fitness 1.0 if DFG is empty
+        # return fitness 1.0 if the log has no events
         fitness = 1.0
 
     if fit_traces is not None:
-- 
2.43.0


From 7b1f6f95b77cf53866fd2ee9cce4604c7d64a90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 092/220] fix: DECLARE discovery: init template on a case
 without any considered activity (IndexError)

---
 pm4py/algo/discovery/declare/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 6c25f7e..2a26ded 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -146,7 +146,7 @@ def init_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]]
                         allowed_templates: Collection[str]):
     if INIT in allowed_templates:
         for act in activities:
-            if act == trace[0]:
+            if trace and act == trace[0]:
                 rules[__rule_init_column(act)] = 1
             else:
                 rules[__rule_init_column(act)] = -1
-- 
2.43.0


From 5f5f39f45f06bdc0ee153d3ac894d97c3a46f289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 093/220] fix: DECLARE discovery: a case without the activity
 violates the exactly-one constraint (as in the conformance checking)

---
 pm4py/algo/discovery/declare/variants/classic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 2a26ded..eb75683 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -139,6 +139,8 @@ def exactly_one_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str
                     rules[__rule_exactly_one_column(act)] = 1
                 else:
                     rules[__rule_exactly_one_column(act)] = -1
+            else:
+                rules[__rule_exactly_one_column(act)] = -1
 
 
 def init_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int], trace: Collection[str],
-- 
2.43.0


From 5e3788321fb824838f8e3bdc6b25e51237bfb81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:34 +0000
Subject: [PATCH 094/220] fix: DECLARE discovery: a case with B but without A
 violates the (alternate, chain) precedence of (A, B)

---
 pm4py/algo/discovery/declare/variants/classic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index eb75683..5a5f892 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -191,7 +191,7 @@ def precedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str,
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_precedence(act2, act)] = -1
                     else:
                         if act_idxs[act2][0] < act_idxs[act][0]:
                             rules[__rule_precedence(act2, act)] = 1
@@ -258,7 +258,7 @@ def altprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, s
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_alternate_precedence(act2, act)] = -1
                     else:
                         is_ok_alt_prec = False
                         if len(act_idxs[act]) == len(act_idxs[act2]):
@@ -282,7 +282,7 @@ def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str,
             for act2 in activities:
                 if act2 != act:
                     if act2 not in act_counter:
-                        pass
+                        rules[__rule_chain_precedence(act2, act)] = -1
                     else:
                         is_ok_chain_prec = False
                         if len(act_idxs[act]) == len(act_idxs[act2]):
-- 
2.43.0


From a73d25ee8e6e7aa2f644eeaba900a2d366e4ccd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 095/220] fix: DECLARE alternate/chain templates: discovery and
 conformance checking follow the same, documented semantics (A B A violated no
 alternate precedence, chain response ignored further B, ...)

---
 .../conformance/declare/variants/classic.py   | 113 ++++--------------
 .../discovery/declare/variants/classic.py     |  61 ++--------
 2 files changed, 32 insertions(+), 142 deletions(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index d74d5d9..d397a40 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -20,6 +20,7 @@ from pm4py.objects.log.obj import EventLog
 import pandas as pd
 from typing import Union, Dict, Optional, Any, List
 from pm4py.algo.discovery.declare.templates import *
+from pm4py.algo.discovery.declare.variants.classic import is_alternating
 from pm4py.util import exec_utils, constants, xes_constants, pandas_utils
 from collections import Counter
 
@@ -118,24 +119,10 @@ def __check_alt_response(trace: List[str], model: Dict[str, Dict[Any, Dict[str,
                          trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
                          parameters: Optional[Dict[Any, Any]] = None):
     if ALTRESPONSE in model:
-        for act_couple in model[RESPONSE]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while spec_idxs:
-                if spec_idxs[0][0] != act_couple[0]:
-                    del spec_idxs[0]
-                else:
-                    break
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1]):
-                    is_ok = False
-                    break
+        for act_couple in model[ALTRESPONSE]:
+            idxs0 = act_idxs.get(act_couple[0], [])
+            idxs1 = act_idxs.get(act_couple[1], [])
+            is_ok = not idxs0 or (len(idxs1) > 0 and is_alternating(idxs0, idxs1) and idxs0[-1] < idxs1[-1])
             if not is_ok:
                 trace_dict["deviations"].append([ALTRESPONSE, act_couple])
 
@@ -145,23 +132,9 @@ def __check_chain_response(trace: List[str], model: Dict[str, Dict[Any, Dict[str
                            parameters: Optional[Dict[Any, Any]] = None):
     if CHAINRESPONSE in model:
         for act_couple in model[CHAINRESPONSE]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while spec_idxs:
-                if spec_idxs[0][0] != act_couple[0]:
-                    del spec_idxs[0]
-                else:
-                    break
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1] or spec_idxs[i + 1][1] != spec_idxs[i][1] + 1):
-                    is_ok = False
-                    break
+            idxs0 = act_idxs.get(act_couple[0], [])
+            idxs1 = act_idxs.get(act_couple[1], [])
+            is_ok = all(i + 1 in idxs1 for i in idxs0)
             if not is_ok:
                 trace_dict["deviations"].append([CHAINRESPONSE, act_couple])
 
@@ -171,23 +144,9 @@ def __check_alt_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[str
                            parameters: Optional[Dict[Any, Any]] = None):
     if ALTPRECEDENCE in model:
         for act_couple in model[ALTPRECEDENCE]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while len(spec_idxs) > 1:
-                if spec_idxs[1][0] != act_couple[1]:
-                    del spec_idxs[0]
-                else:
-                    break
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1]):
-                    is_ok = False
-                    break
+            idxs0 = act_idxs.get(act_couple[0], [])
+            idxs1 = act_idxs.get(act_couple[1], [])
+            is_ok = not idxs1 or (len(idxs0) > 0 and is_alternating(idxs0, idxs1) and idxs0[0] < idxs1[0])
             if not is_ok:
                 trace_dict["deviations"].append([ALTPRECEDENCE, act_couple])
 
@@ -197,23 +156,9 @@ def __check_chain_precedence(trace: List[str], model: Dict[str, Dict[Any, Dict[s
                              parameters: Optional[Dict[Any, Any]] = None):
     if CHAINPRECEDENCE in model:
         for act_couple in model[CHAINPRECEDENCE]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            while len(spec_idxs) > 1:
-                if spec_idxs[1][0] != act_couple[1]:
-                    del spec_idxs[0]
-                else:
-                    break
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1] or spec_idxs[i + 1][1] != spec_idxs[i][1] + 1):
-                    is_ok = False
-                    break
+            idxs0 = act_idxs.get(act_couple[0], [])
+            idxs1 = act_idxs.get(act_couple[1], [])
+            is_ok = all(i - 1 in idxs0 for i in idxs1)
             if not is_ok:
                 trace_dict["deviations"].append([CHAINPRECEDENCE, act_couple])
 
@@ -223,18 +168,9 @@ def __check_alt_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str
                            parameters: Optional[Dict[Any, Any]] = None):
     if ALTSUCCESSION in model:
         for act_couple in model[ALTSUCCESSION]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1]):
-                    is_ok = False
-                    break
+            idxs0 = act_idxs.get(act_couple[0], [])
+            idxs1 = act_idxs.get(act_couple[1], [])
+            is_ok = len(idxs0) == len(idxs1) and is_alternating(idxs0, idxs1) and idxs0[:1] <= idxs1[:1]
             if not is_ok:
                 trace_dict["deviations"].append([ALTSUCCESSION, act_couple])
 
@@ -244,18 +180,9 @@ def __check_chain_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[s
                              parameters: Optional[Dict[Any, Any]] = None):
     if CHAINSUCCESSION in model:
         for act_couple in model[CHAINSUCCESSION]:
-            spec_idxs = []
-            if act_couple[0] in trace:
-                spec_idxs = spec_idxs + [(act_couple[0], i) for i in act_idxs[act_couple[0]]]
-            if act_couple[1] in trace:
-                spec_idxs = spec_idxs + [(act_couple[1], i) for i in act_idxs[act_couple[1]]]
-            spec_idxs = sorted(spec_idxs, key=lambda x: (x[1], x[0]))
-            is_ok = True
-            for i in range(len(spec_idxs)):
-                if i % 2 == 0 and (spec_idxs[i][0] != act_couple[0] or i == len(spec_idxs) - 1 or spec_idxs[i + 1][0] !=
-                                   act_couple[1] or spec_idxs[i + 1][1] != spec_idxs[i][1] + 1):
-                    is_ok = False
-                    break
+            idxs0 = act_idxs.get(act_couple[0], [])
+            idxs1 = act_idxs.get(act_couple[1], [])
+            is_ok = [i + 1 for i in idxs0] == idxs1
             if not is_ok:
                 trace_dict["deviations"].append([CHAINSUCCESSION, act_couple])
 
diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 5a5f892..bd664c3 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -199,6 +199,14 @@ def precedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str,
                             rules[__rule_precedence(act2, act)] = -1
 
 
+def is_alternating(idxs1: List[int], idxs2: List[int]) -> bool:
+    """
+    Checks if the occurrences of two activities (given by their positions in the trace) alternate without repetitions
+    """
+    occs = sorted([(i, 1) for i in idxs1] + [(i, 2) for i in idxs2])
+    return all(occs[i][1] != occs[i + 1][1] for i in range(len(occs) - 1))
+
+
 def altresponse_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int], trace: Collection[str],
                                activities: Set[str], act_counter: TCounter[str], act_idxs: Dict[str, List[int]],
                                allowed_templates: Collection[str]):
@@ -209,18 +217,7 @@ def altresponse_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str
                     if act2 not in act_counter:
                         rules[__rule_alternate_response(act, act2)] = -1
                     else:
-                        is_ok_alt_resp = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
-                            lenn = len(act_idxs[act])
-                            is_ok_alt_resp = True
-
-                            for i in range(lenn):
-                                if act_idxs[act][i] > act_idxs[act2][i] or (
-                                        i < lenn - 1 and act_idxs[act][i + 1] < act_idxs[act2][i]):
-                                    is_ok_alt_resp = False
-                                    break
-                                elif act_idxs[act][i] + 1 != act_idxs[act2][i]:
-                                    pass
+                        is_ok_alt_resp = is_alternating(act_idxs[act], act_idxs[act2]) and act_idxs[act][-1] < act_idxs[act2][-1]
                         rules[__rule_alternate_response(act, act2)] = 1 if is_ok_alt_resp else -1
 
 
@@ -234,19 +231,7 @@ def chainresponse_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, s
                     if act2 not in act_counter:
                         rules[__rule_chain_response(act, act2)] = -1
                     else:
-                        is_ok_chain_resp = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
-                            lenn = len(act_idxs[act])
-                            is_ok_chain_resp = True
-
-                            for i in range(lenn):
-                                if act_idxs[act][i] > act_idxs[act2][i] or (
-                                        i < lenn - 1 and act_idxs[act][i + 1] < act_idxs[act2][i]):
-                                    is_ok_chain_resp = False
-                                    break
-                                elif act_idxs[act][i] + 1 != act_idxs[act2][i]:
-                                    is_ok_chain_resp = False
-                                    break
+                        is_ok_chain_resp = all(i + 1 in act_idxs[act2] for i in act_idxs[act])
                         rules[__rule_chain_response(act, act2)] = 1 if is_ok_chain_resp else -1
 
 
@@ -260,17 +245,7 @@ def altprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, s
                     if act2 not in act_counter:
                         rules[__rule_alternate_precedence(act2, act)] = -1
                     else:
-                        is_ok_alt_prec = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
-                            lenn = len(act_idxs[act])
-                            is_ok_alt_prec = True
-                            for i in range(lenn):
-                                if act_idxs[act2][i] > act_idxs[act][i] or (
-                                        i < lenn - 1 and act_idxs[act2][i + 1] < act_idxs[act][i]):
-                                    is_ok_alt_prec = False
-                                    break
-                                elif act_idxs[act2][i] + 1 != act_idxs[act][i]:
-                                    pass
+                        is_ok_alt_prec = is_alternating(act_idxs[act2], act_idxs[act]) and act_idxs[act2][0] < act_idxs[act][0]
                         rules[__rule_alternate_precedence(act2, act)] = 1 if is_ok_alt_prec else -1
 
 
@@ -284,19 +259,7 @@ def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str,
                     if act2 not in act_counter:
                         rules[__rule_chain_precedence(act2, act)] = -1
                     else:
-                        is_ok_chain_prec = False
-                        if len(act_idxs[act]) == len(act_idxs[act2]):
-                            lenn = len(act_idxs[act])
-                            is_ok_chain_prec = True
-                            # check alternate and chain response
-                            for i in range(lenn):
-                                if act_idxs[act2][i] > act_idxs[act][i] or (
-                                        i < lenn - 1 and act_idxs[act2][i + 1] < act_idxs[act][i]):
-                                    is_ok_chain_prec = False
-                                    break
-                                elif act_idxs[act2][i] + 1 != act_idxs[act][i]:
-                                    is_ok_chain_prec = False
-                                    break
+                        is_ok_chain_prec = all(i - 1 in act_idxs[act2] for i in act_idxs[act])
                         rules[__rule_chain_precedence(act2, act)] = 1 if is_ok_chain_prec else -1
 
 
-- 
2.43.0


From dd6b51d17f69106caaf1530f37254196c0624d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 096/220] fix: DECLARE conformance checking: succession is not
 violated by a case containing neither of the activities

---
 pm4py/algo/conformance/declare/variants/classic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index d397a40..36b9c28 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -110,6 +110,8 @@ def __check_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, in
                        act_idxs: Dict[str, List[int]], parameters: Optional[Dict[Any, Any]] = None):
     if SUCCESSION in model:
         for act_couple in model[SUCCESSION]:
+            if not act_couple[0] in trace and not act_couple[1] in trace:
+                continue
             if (not act_couple[0] in trace or not act_couple[1] in trace) or min(act_idxs[act_couple[0]]) > min(
                     act_idxs[act_couple[1]]) or max(act_idxs[act_couple[0]]) > max(act_idxs[act_couple[1]]):
                 trace_dict["deviations"].append([SUCCESSION, act_couple])
-- 
2.43.0


From dbfa9884aabaf5bc178304851069b86c67d0425f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 097/220] fix: DECLARE conformance checking:
 non-(chain-)succession was never checked, non-coexistence was reported twice

---
 .../conformance/declare/variants/classic.py   | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 36b9c28..92628ce 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -189,6 +189,30 @@ def __check_chain_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[s
                 trace_dict["deviations"].append([CHAINSUCCESSION, act_couple])
 
 
+def __check_non_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
+                           trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
+                           parameters: Optional[Dict[Any, Any]] = None):
+    if NONSUCCESSION in model:
+        for act_couple in model[NONSUCCESSION]:
+            idxs0 = act_idxs.get(act_couple[0], [])
+            idxs1 = act_idxs.get(act_couple[1], [])
+            is_ok = not idxs0 or not idxs1 or idxs0[0] > idxs1[-1]
+            if not is_ok:
+                trace_dict["deviations"].append([NONSUCCESSION, act_couple])
+
+
+def __check_non_chain_succession(trace: List[str], model: Dict[str, Dict[Any, Dict[str, int]]],
+                                 trace_dict: Dict[str, List[Any]], act_idxs: Dict[str, List[int]],
+                                 parameters: Optional[Dict[Any, Any]] = None):
+    if NONCHAINSUCCESSION in model:
+        for act_couple in model[NONCHAINSUCCESSION]:
+            idxs0 = act_idxs.get(act_couple[0], [])
+            idxs1 = act_idxs.get(act_couple[1], [])
+            is_ok = not any(i + 1 in idxs1 for i in idxs0)
+            if not is_ok:
+                trace_dict["deviations"].append([NONCHAINSUCCESSION, act_couple])
+
+
 def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[str, int]]],
                parameters: Optional[Dict[Any, Any]] = None) -> List[Dict[str, Any]]:
     if parameters is None:
@@ -227,7 +251,8 @@ def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[s
         __check_alt_succession(trace, model, ret, act_idxs, parameters)
         __check_chain_succession(trace, model, ret, act_idxs, parameters)
         __check_absence(trace, model, ret, parameters)
-        __check_non_coexistence(trace, model, ret, parameters)
+        __check_non_succession(trace, model, ret, act_idxs, parameters)
+        __check_non_chain_succession(trace, model, ret, act_idxs, parameters)
 
         ret["no_dev_total"] = len(ret["deviations"])
         ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"]
-- 
2.43.0


From 9ced403f2e118823a448c2c30deb7adda3366d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:05 +0000
Subject: [PATCH 098/220] fix: DECLARE conformance checking against a model
 without constraints (ZeroDivisionError)

---
 pm4py/algo/conformance/declare/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 92628ce..1901c35 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -255,7 +255,7 @@ def apply_list(projected_log: List[List[str]], model: Dict[str, Dict[Any, Dict[s
         __check_non_chain_succession(trace, model, ret, act_idxs, parameters)
 
         ret["no_dev_total"] = len(ret["deviations"])
-        ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"]
+        ret["dev_fitness"] = 1 - ret["no_dev_total"] / ret["no_constr_total"] if ret["no_constr_total"] > 0 else 1.0
         ret["is_fit"] = ret["no_dev_total"] == 0
 
         conf_cases.append(ret)
-- 
2.43.0


From 99a1e7a8915917d995cc5a953854f51d90b07a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 099/220] fix: DECLARE discovery: non-(chain-)succession is
 violated whenever B (directly) follows A, also if the (chain) succession does
 not hold

---
 .../discovery/declare/variants/classic.py     | 48 ++++++++++++++-----
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index bd664c3..5e91ccc 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -263,6 +263,29 @@ def chainprecedence_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str,
                         rules[__rule_chain_precedence(act2, act)] = 1 if is_ok_chain_prec else -1
 
 
+def nonsuccession_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int], trace: Collection[str],
+                                 activities: Set[str], act_counter: TCounter[str], act_idxs: Dict[str, List[int]],
+                                 allowed_templates: Collection[str]):
+    if NONSUCCESSION in allowed_templates:
+        for act in activities:
+            for act2 in activities:
+                if act2 != act and (act in act_counter or act2 in act_counter):
+                    is_ok = act not in act_counter or act2 not in act_counter or act_idxs[act][0] > act_idxs[act2][-1]
+                    rules[__rule_non_succession(act, act2)] = 1 if is_ok else -1
+
+
+def nonchainsuccession_template_step1(rules: Dict[Union[Tuple[str, str], Tuple[str, str, str]], int], trace: Collection[str],
+                                      activities: Set[str], act_counter: TCounter[str], act_idxs: Dict[str, List[int]],
+                                      allowed_templates: Collection[str]):
+    if NONCHAINSUCCESSION in allowed_templates:
+        for act in activities:
+            for act2 in activities:
+                if act2 != act and (act in act_counter or act2 in act_counter):
+                    is_ok = act not in act_counter or act2 not in act_counter or not any(
+                        i + 1 in act_idxs[act2] for i in act_idxs[act])
+                    rules[__rule_non_chain_succession(act, act2)] = 1 if is_ok else -1
+
+
 def absence_template(table, columns: Collection[str], activities: Set[str],
                      allowed_templates: Collection[str]) -> pd.DataFrame:
     if ABSENCE in allowed_templates and EXISTENCE in allowed_templates:
@@ -407,24 +430,25 @@ def noncoexistence_template(table, columns: Collection[str], activities: Set[str
     return table
 
 
-def nonsuccession_template(table, columns: Collection[str], activities: Set[str],
-                           allowed_templates: Collection[str]) -> pd.DataFrame:
-    if NONSUCCESSION in allowed_templates and SUCCESSION in allowed_templates and RESPONSE in allowed_templates and PRECEDENCE in allowed_templates:
+def nonsuccession_template_step2(table, columns: Collection[str], activities: Set[str],
+                                 allowed_templates: Collection[str]) -> pd.DataFrame:
+    if NONSUCCESSION in allowed_templates:
         for act in activities:
             for act2 in activities:
                 if act2 != act:
-                    table[__rule_non_succession(act, act2)] = -1 * table[__rule_succession(act, act2)]
+                    if __rule_non_succession(act, act2) not in columns:
+                        table[__rule_non_succession(act, act2)] = [0] * len(table[list(table.keys())[0]])
     return table
 
 
-def nonchainsuccession_template(table, columns: Collection[str], activities: Set[str],
-                                allowed_templates: Collection[str]) -> pd.DataFrame:
-    if NONCHAINSUCCESSION in allowed_templates and CHAINSUCCESSION in allowed_templates and CHAINRESPONSE in allowed_templates and CHAINPRECEDENCE in allowed_templates:
+def nonchainsuccession_template_step2(table, columns: Collection[str], activities: Set[str],
+                                      allowed_templates: Collection[str]) -> pd.DataFrame:
+    if NONCHAINSUCCESSION in allowed_templates:
         for act in activities:
             for act2 in activities:
                 if act2 != act:
-                    table[__rule_non_chain_succession(act, act2)] = -1 * table[
-                        __rule_chain_succession(act, act2)]
+                    if __rule_non_chain_succession(act, act2) not in columns:
+                        table[__rule_non_chain_succession(act, act2)] = [0] * len(table[list(table.keys())[0]])
     return table
 
 
@@ -476,6 +500,8 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
         chainresponse_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
         altprecedence_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
         chainprecedence_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
+        nonsuccession_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
+        nonchainsuccession_template_step1(rules, trace, activities, act_counter, act_idxs, allowed_templates)
 
         for i in range(occs):
             table.append(rules)
@@ -508,8 +534,8 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
     table2 = chainsuccession_template(table2, columns, activities, allowed_templates)
     table2 = coexistence_template(table2, columns, activities, allowed_templates)
     table2 = noncoexistence_template(table2, columns, activities, allowed_templates)
-    table2 = nonsuccession_template(table2, columns, activities, allowed_templates)
-    table2 = nonchainsuccession_template(table2, columns, activities, allowed_templates)
+    table2 = nonsuccession_template_step2(table2, columns, activities, allowed_templates)
+    table2 = nonchainsuccession_template_step2(table2, columns, activities, allowed_templates)
 
     return pandas_utils.instantiate_dataframe(table2)
 
-- 
2.43.0


From f78cbe68fa794e92a0eb7cd38737189299799de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:33 +0000
Subject: [PATCH 100/220] fix: DECLARE discovery: templates derived from others
 (absence, succession, coexistence, ...) can be selected on their own

---
 pm4py/algo/discovery/declare/variants/classic.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 5e91ccc..6bae886 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -475,7 +475,12 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
     if activities is None:
         activities = set(y for x in projected_log for y in x)
 
-    allowed_templates = set(allowed_templates)
+    selected_templates = set(allowed_templates)
+    # the templates which are derived from other ones
+    requirements = {ABSENCE: {EXISTENCE}, SUCCESSION: {RESPONSE, PRECEDENCE},
+                    ALTSUCCESSION: {ALTRESPONSE, ALTPRECEDENCE}, CHAINSUCCESSION: {CHAINRESPONSE, CHAINPRECEDENCE},
+                    COEXISTENCE: {RESPONDED_EXISTENCE}, NONCOEXISTENCE: {COEXISTENCE, RESPONDED_EXISTENCE}}
+    allowed_templates = selected_templates.union(*[requirements.get(x, set()) for x in selected_templates])
     activities = set(activities)
 
     vars = Counter([tuple([y for y in x if y in activities]) for x in projected_log])
@@ -537,6 +542,8 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
     table2 = nonsuccession_template_step2(table2, columns, activities, allowed_templates)
     table2 = nonchainsuccession_template_step2(table2, columns, activities, allowed_templates)
 
+    table2 = {c: table2[c] for c in table2 if c[0] in selected_templates}
+
     return pandas_utils.instantiate_dataframe(table2)
 
 
-- 
2.43.0


From f32159e434d604e94222d98d6552efb6b1ed0621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 101/220] fix: DECLARE discovery: only one of the two
 thresholds provided (TypeError), no constraint activated (IndexError)

---
 pm4py/algo/discovery/declare/variants/classic.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 6bae886..7e02be4 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -524,6 +524,9 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
     for c in table2:
         table2[c] = np.array(table2[c])
 
+    if not columns:
+        return pandas_utils.instantiate_dataframe({})
+
     table2 = absence_template(table2, columns, activities, allowed_templates)
     table2 = exactly_one_template_step2(table2, columns, activities, allowed_templates)
     table2 = responded_existence_template_step2(table2, columns, activities, allowed_templates)
@@ -557,7 +560,7 @@ def get_rules_from_rules_df(rules_df, parameters: Optional[Dict[Any, Any]] = Non
     min_confidence_ratio = exec_utils.get_param_value(Parameters.MIN_CONFIDENCE_RATIO, parameters, None)
     rules = {}
 
-    if min_support_ratio is None and min_confidence_ratio is None:
+    if min_support_ratio is None or min_confidence_ratio is None:
         # auto determine the minimum support and confidence ratio by identifying the values for the best feature
         auto_selection_multiplier = exec_utils.get_param_value(Parameters.AUTO_SELECTION_MULTIPLIER, parameters, 0.8)
         cols_prod = []
@@ -570,10 +573,14 @@ def get_rules_from_rules_df(rules_df, parameters: Optional[Dict[Any, Any]] = Non
                 prod = supp_ratio * conf_ratio
                 cols_prod.append((col_name, prod))
         cols_prod = sorted(cols_prod, key=lambda x: (x[1], x[0]), reverse=True)
+        if not cols_prod:
+            return rules
         col = rules_df[cols_prod[0][0]]
         supp = len(col[col != 0])
-        min_support_ratio = float(supp) / float(len(rules_df)) * auto_selection_multiplier
-        min_confidence_ratio = float(len(col[col == 1])) / float(supp) * auto_selection_multiplier
+        if min_support_ratio is None:
+            min_support_ratio = float(supp) / float(len(rules_df)) * auto_selection_multiplier
+        if min_confidence_ratio is None:
+            min_confidence_ratio = float(len(col[col == 1])) / float(supp) * auto_selection_multiplier
 
     for col_name in rules_df:
         col = rules_df[col_name]
-- 
2.43.0


From 2120c8693f49a4841dc1ddc28481c190e4c4fa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:49 +0000
Subject: [PATCH 102/220] fix: DECLARE discovery: the minimum
 support/confidence are inclusive (minimum confidence 1.0 selected no
 constraint)

---
 pm4py/algo/discovery/declare/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 7e02be4..73cc3d0 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -586,10 +586,10 @@ def get_rules_from_rules_df(rules_df, parameters: Optional[Dict[Any, Any]] = Non
         col = rules_df[col_name]
         supp = len(col[col != 0])
 
-        if supp > len(rules_df) * min_support_ratio:
+        if 0 < supp >= len(rules_df) * min_support_ratio:
             conf = len(col[col == 1])
 
-            if conf > supp * min_confidence_ratio:
+            if 0 < conf >= supp * min_confidence_ratio:
                 rule, key = __col_to_dict_rule(col_name)
                 if rule not in rules:
                     rules[rule] = {}
-- 
2.43.0


From b6aac190743dbe3cea28e3e43d879da4d709d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 103/220] fix: iteration over the cases of a dataframe whose
 cases are interleaved (the result of the sorting was discarded): DECLARE, log
 skeleton, temporal profile, project_on_event_attribute

---
 pm4py/streaming/conversion/from_pandas.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pm4py/streaming/conversion/from_pandas.py b/pm4py/streaming/conversion/from_pandas.py
index ecb911e..63ed43d 100644
--- a/pm4py/streaming/conversion/from_pandas.py
+++ b/pm4py/streaming/conversion/from_pandas.py
@@ -43,10 +43,9 @@ class PandasDataframeAsIterable(object):
                                                    xes_constants.DEFAULT_TIMESTAMP_KEY)
         index_key = exec_utils.get_param_value(Parameters.INDEX_KEY, parameters, constants.DEFAULT_INDEX_KEY)
 
-        if not (hasattr(dataframe, "attrs") and dataframe.attrs):
-            # dataframe has not been initialized through format_dataframe
-            dataframe = pandas_utils.insert_index(dataframe, index_key)
-            dataframe.sort_values([case_id_key, timestamp_key, index_key])
+        # the events of a case need to be contiguous (which is not assured also for a formatted dataframe)
+        dataframe = pandas_utils.insert_index(dataframe, index_key)
+        dataframe = dataframe.sort_values([case_id_key, timestamp_key, index_key])
 
         cases = dataframe[case_id_key].to_numpy()
 
-- 
2.43.0


From 8db13d2cf08c801555ddf778f230c0d0cc754d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:19 +0000
Subject: [PATCH 104/220] fix: DECLARE / trace segments on a dataframe with a
 custom timestamp column (KeyError)

---
 pm4py/algo/conformance/declare/variants/classic.py | 5 ++++-
 pm4py/algo/discovery/declare/variants/classic.py   | 5 ++++-
 pm4py/stats.py                                     | 3 ++-
 pm4py/utils.py                                     | 5 ++++-
 4 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/conformance/declare/variants/classic.py b/pm4py/algo/conformance/declare/variants/classic.py
index 1901c35..3cb0095 100644
--- a/pm4py/algo/conformance/declare/variants/classic.py
+++ b/pm4py/algo/conformance/declare/variants/classic.py
@@ -27,6 +27,7 @@ from collections import Counter
 
 class Parameters(Enum):
     CASE_ID_KEY = constants.PARAMETER_CONSTANT_CASEID_KEY
+    TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_TIMESTAMP_KEY
     ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
 
 
@@ -297,10 +298,12 @@ def apply(log: Union[EventLog, pd.DataFrame], model: Dict[str, Dict[Any, Dict[st
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
 
     import pm4py
 
-    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key)
+    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key,
+                                                     timestamp_key=timestamp_key)
 
     ret = apply_list(projected_log, model, parameters=parameters)
 
diff --git a/pm4py/algo/discovery/declare/variants/classic.py b/pm4py/algo/discovery/declare/variants/classic.py
index 73cc3d0..c08761f 100644
--- a/pm4py/algo/discovery/declare/variants/classic.py
+++ b/pm4py/algo/discovery/declare/variants/classic.py
@@ -29,6 +29,7 @@ import numpy as np
 class Parameters(Enum):
     ACTIVITY_KEY = constants.PARAMETER_CONSTANT_ACTIVITY_KEY
     CASE_ID_KEY = constants.PARAMETER_CONSTANT_CASEID_KEY
+    TIMESTAMP_KEY = constants.PARAMETER_CONSTANT_TIMESTAMP_KEY
     CONSIDERED_ACTIVITIES = "considered_activities"
     MIN_SUPPORT_RATIO = "min_support_ratio"
     MIN_CONFIDENCE_RATIO = "min_confidence_ratio"
@@ -459,6 +460,7 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
 
     activity_key = exec_utils.get_param_value(Parameters.ACTIVITY_KEY, parameters, xes_constants.DEFAULT_NAME_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
 
     allowed_templates = exec_utils.get_param_value(Parameters.ALLOWED_TEMPLATES, parameters, None)
 
@@ -469,7 +471,8 @@ def form_rules_table(log: Union[EventLog, pd.DataFrame],
 
     import pm4py
 
-    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key)
+    projected_log = pm4py.project_on_event_attribute(log, activity_key, case_id_key=case_id_key,
+                                                     timestamp_key=timestamp_key)
     activities = exec_utils.get_param_value(Parameters.CONSIDERED_ACTIVITIES, parameters, None)
 
     if activities is None:
diff --git a/pm4py/stats.py b/pm4py/stats.py
index 8db7a02..e62cac7 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -736,7 +736,8 @@ def get_frequent_trace_segments(log: Union[EventLog, pd.DataFrame], min_occ: int
     import pm4py.utils
     from prefixspan import PrefixSpan
 
-    projection = pm4py.utils.project_on_event_attribute(log, attribute_key=activity_key, case_id_key=case_id_key)
+    projection = pm4py.utils.project_on_event_attribute(log, attribute_key=activity_key, case_id_key=case_id_key,
+                                                     timestamp_key=timestamp_key)
     traces0 = PrefixSpan(projection).frequent(min_occ)
     traces = {}
     for x in traces0:
diff --git a/pm4py/utils.py b/pm4py/utils.py
index 92f72a1..4f974ab 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -422,7 +422,7 @@ def parse_event_log_string(traces: Collection[str], sep: str = ",",
     return dataframe
 
 
-def project_on_event_attribute(log: Union[EventLog, pd.DataFrame], attribute_key=xes_constants.DEFAULT_NAME_KEY, case_id_key=None) -> \
+def project_on_event_attribute(log: Union[EventLog, pd.DataFrame], attribute_key=xes_constants.DEFAULT_NAME_KEY, case_id_key=None, timestamp_key=None) -> \
 List[List[str]]:
     """
     Project the event log on a specified event attribute. The result is a list, containing a list for each case:
@@ -442,6 +442,7 @@ List[List[str]]:
     :param log: Event log / Pandas dataframe
     :param attribute_key: The attribute to be used
     :param case_id_key: The attribute to be used as case identifier
+    :param timestamp_key: The attribute to be used as timestamp (to sort the events of a dataframe)
     :rtype: ``List[List[str]]``
 
     .. code-block:: python3
@@ -459,6 +460,8 @@ List[List[str]]:
         parameters = {from_pandas.Parameters.ACTIVITY_KEY: attribute_key}
         if case_id_key is not None:
             parameters[from_pandas.Parameters.CASE_ID_KEY] = case_id_key
+        if timestamp_key is not None:
+            parameters[from_pandas.Parameters.TIMESTAMP_KEY] = timestamp_key
         it = from_pandas.apply(log, parameters=parameters)
         for trace in it:
             output.append([x[xes_constants.DEFAULT_NAME_KEY] if xes_constants.DEFAULT_NAME_KEY is not None else None for x in trace])
-- 
2.43.0


From 63d41f6921507ae72b363d7ffc57a23de2972131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 105/220] fix: log skeleton discovery: several following
 (preceding) events of one occurrence covered other occurrences violating the
 always-after (always-before) relation

---
 pm4py/algo/discovery/log_skeleton/trace_skel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/log_skeleton/trace_skel.py b/pm4py/algo/discovery/log_skeleton/trace_skel.py
index f9dd74a..aad3209 100644
--- a/pm4py/algo/discovery/log_skeleton/trace_skel.py
+++ b/pm4py/algo/discovery/log_skeleton/trace_skel.py
@@ -55,7 +55,8 @@ def after(trace):
     rel
         After- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j > i)
+    # every occurrence counts once for each activity following it
+    return list((trace[i], y) for i in range(len(trace)) for y in set(trace[i + 1:]))
 
 
 def before(trace):
@@ -72,7 +73,8 @@ def before(trace):
     rel
         Before- inside the trace
     """
-    return list((trace[i], trace[j]) for i in range(len(trace)) for j in range(len(trace)) if j < i)
+    # every occurrence counts once for each activity preceding it
+    return list((trace[i], y) for i in range(len(trace)) for y in set(trace[:i]))
 
 
 def combos(trace):
-- 
2.43.0


From ad16bf5b2c487c66613fbe6557b07a0f866d7d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 106/220] fix: log skeleton conformance checking:
 always-after/before and directly-follows relations are violated if they do
 not hold for one of the occurrences of the activity

---
 pm4py/algo/discovery/log_skeleton/trace_skel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/log_skeleton/trace_skel.py b/pm4py/algo/discovery/log_skeleton/trace_skel.py
index aad3209..fc3f1bb 100644
--- a/pm4py/algo/discovery/log_skeleton/trace_skel.py
+++ b/pm4py/algo/discovery/log_skeleton/trace_skel.py
@@ -132,4 +132,11 @@ def get_trace_info(trace):
     """
     Technical method for conformance checking
     """
-    return (equivalence(trace), after(trace), before(trace), combos(trace), directly_follows(trace), activ_freq(trace))
+    freq = activ_freq(trace)
+
+    def always(rel):
+        # a relation is respected by the trace if it holds for all the occurrences of its first activity
+        return set(x for x, y in Counter(rel).items() if y == freq[x[0]])
+
+    return (equivalence(trace), always(after(trace)), always(before(trace)), combos(trace),
+            always(directly_follows(trace)), freq)
-- 
2.43.0


From 6d9393e2399c750a68ab243e2bf65887274f617a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 107/220] fix: log skeleton discovery: the noise threshold on
 the activity frequencies of a dataframe considered the number of events
 instead of the number of cases

---
 pm4py/algo/discovery/log_skeleton/variants/classic.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/log_skeleton/variants/classic.py b/pm4py/algo/discovery/log_skeleton/variants/classic.py
index dcaa298..42a8ded 100644
--- a/pm4py/algo/discovery/log_skeleton/variants/classic.py
+++ b/pm4py/algo/discovery/log_skeleton/variants/classic.py
@@ -277,14 +277,16 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
         all_activs = log[activity_key].value_counts().to_dict()
         logs_traces = Counter([tuple(x) for x in log.groupby(case_id_key)[activity_key].agg(list).to_dict().values()])
 
+    len_log = sum(logs_traces.values())
+
     ret = {}
     ret[Outputs.EQUIVALENCE.value] = equivalence(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_AFTER.value] = always_after(logs_traces, all_activs, noise_threshold=noise_threshold)
     ret[Outputs.ALWAYS_BEFORE.value] = always_before(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, len(log),
+    ret[Outputs.NEVER_TOGETHER.value] = never_together(logs_traces, all_activs, len_log,
                                                        noise_threshold=noise_threshold)
     ret[Outputs.DIRECTLY_FOLLOWS.value] = directly_follows(logs_traces, all_activs, noise_threshold=noise_threshold)
-    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, len(log), noise_threshold=noise_threshold)
+    ret[Outputs.ACTIV_FREQ.value] = activ_freq(logs_traces, all_activs, len_log, noise_threshold=noise_threshold)
 
     return ret
 
-- 
2.43.0


From cc1b8d493d3dc68c3adce85ec6bdc1736098100b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 108/220] fix: temporal profile: diagnostics dataframe of
 dataframes and of event logs (KeyError, the module was checked instead of the
 log)

---
 pm4py/algo/conformance/temporal_profile/algorithm.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/conformance/temporal_profile/algorithm.py b/pm4py/algo/conformance/temporal_profile/algorithm.py
index e4ab4b6..b0aa510 100644
--- a/pm4py/algo/conformance/temporal_profile/algorithm.py
+++ b/pm4py/algo/conformance/temporal_profile/algorithm.py
@@ -89,13 +89,15 @@ def get_diagnostics_dataframe(elog: Union[EventLog, pd.DataFrame], conf_result:
     if parameters is None:
         parameters = {}
 
-    if pandas_utils.check_is_pandas_dataframe(log):
+    if pandas_utils.check_is_pandas_dataframe(elog):
         case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
         cases = pandas_utils.format_unique(elog[case_id_key].unique())
     else:
         elog = log_converter.apply(elog, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
         case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, xes_constants.DEFAULT_TRACEID_KEY)
-        cases = [x.attributes[case_id_key] for x in elog]
+        # the case attributes of an event log do not have the prefix which is used in the dataframes
+        cases = [x.attributes[case_id_key if case_id_key in x.attributes else xes_constants.DEFAULT_TRACEID_KEY] for x in
+                 elog]
 
     case = []
     source_activities = []
-- 
2.43.0


From ef0a928812adce237bf85b900421a1f5b0ebe6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 109/220] fix: temporal profile: conformance checking of a
 dataframe against an empty profile (KeyError)

---
 pm4py/algo/conformance/temporal_profile/variants/dataframe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/conformance/temporal_profile/variants/dataframe.py b/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
index bd9afcd..3623724 100644
--- a/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
+++ b/pm4py/algo/conformance/temporal_profile/variants/dataframe.py
@@ -86,7 +86,8 @@ def apply(df: pd.DataFrame, temporal_profile: typing.TemporalProfile,
 
     temporal_profile = pandas_utils.instantiate_dataframe([{activity_key: x[0], activity_key + "_2": x[1], "@@min": y[0] - zeta * y[1],
                                       "@@max": y[0] + zeta * y[1], "@@mean": y[0], "@@std": y[1]} for x, y in
-                                     temporal_profile.items()])
+                                     temporal_profile.items()],
+                                    columns=[activity_key, activity_key + "_2", "@@min", "@@max", "@@mean", "@@std"])
 
     cases = pandas_utils.format_unique(df[case_id_key].unique())
     ret = [[] for c in cases]
-- 
2.43.0


From 171e1e09fdcfab219525cced69fd2748a591adaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:02 +0000
Subject: [PATCH 110/220] fix: parsing an ISO date with a UTC offset replaced
 the offset by UTC instead of converting, shifting the instant

---
 pm4py/util/dt_parsing/variants/strpfromiso.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/util/dt_parsing/variants/strpfromiso.py b/pm4py/util/dt_parsing/variants/strpfromiso.py
index c3c4e2d..bfc7916 100644
--- a/pm4py/util/dt_parsing/variants/strpfromiso.py
+++ b/pm4py/util/dt_parsing/variants/strpfromiso.py
@@ -34,7 +34,11 @@ def fix_dataframe_column(serie):
 
 def fix_naivety(dt):
     if constants.ENABLE_DATETIME_COLUMNS_AWARE:
-        dt = dt.replace(tzinfo=timezone.utc)
+        if dt.tzinfo is None:
+            dt = dt.replace(tzinfo=timezone.utc)
+        else:
+            # keep the instant, as in fix_dataframe_column
+            dt = dt.astimezone(timezone.utc)
     else:
         dt = dt.replace(tzinfo=None)
 
-- 
2.43.0


From 8f5d92c7863b08232c3d56cda00324bef64f7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:18 +0000
Subject: [PATCH 111/220] fix: value compression of the XES importers exchanged
 equal values of different types (1, 1.0, True)

---
 .../log/importer/xes/variants/iterparse_mem_compressed.py | 8 +++++---
 pm4py/objects/log/importer/xes/variants/line_by_line.py   | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index dfb8627..69acdbe 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -421,12 +421,14 @@ def __parse_attribute(elem, store, key, value, tree, compression_dict):
             # set up a new instantiation
             compression_dict[key] = key
 
-        if value in compression_dict:
+        # equal values of different types (1, 1.0, True) must not be exchanged
+        typed_value = (type(value), value)
+        if typed_value in compression_dict:
             # using existing istantiations of existing objects
-            value = compression_dict[value]
+            value = compression_dict[typed_value]
         else:
             # set up a new instantiation
-            compression_dict[value] = value
+            compression_dict[typed_value] = value
 
         if type(store) is list:
             # changes to the store of lists: not dictionaries anymore
diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index a8ec29f..90c506c 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -94,10 +94,12 @@ def read_attribute_key_value(tag, content, date_parser, values_dict, set_attribu
             values_dict[key] = key
 
         # limits the number of different instantations of the same value
-        if value in values_dict:
-            value = values_dict[value]
+        # (equal values of different types, e.g. 1, 1.0 and True, must not be exchanged)
+        typed_value = (type(value), value)
+        if typed_value in values_dict:
+            value = values_dict[typed_value]
         else:
-            values_dict[value] = value
+            values_dict[typed_value] = value
 
     return key, value
 
-- 
2.43.0


From 247e2c271ca31b95003c42e3497dcb4ad32f1200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 112/220] fix: iterparse XES importers lost nested attributes
 and lists whose children were not parsed yet at the start of the element
 (file chunk boundaries); iterparse_20 lost the elements of lists

---
 .../log/importer/xes/variants/iterparse.py    | 51 ++++++++----
 .../log/importer/xes/variants/iterparse_20.py | 57 ++++++++-----
 .../xes/variants/iterparse_mem_compressed.py  | 79 ++++++++++++-------
 3 files changed, 125 insertions(+), 62 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/iterparse.py b/pm4py/objects/log/importer/xes/variants/iterparse.py
index 28702eb..070369b 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse.py
@@ -111,7 +111,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_store(elem.getparent(), tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -181,6 +181,12 @@ def import_from_context(context, num_traces, parameters=None):
                     tree = __parse_attribute(elem, parent, elem.get(xes_constants.KEY_KEY), None, tree)
                 continue
 
+            elif elem.tag.endswith(xes_constants.TAG_VALUES):
+                if parent is not None:
+                    # the elements of a list are stored in the list itself
+                    tree[elem] = parent
+                continue
+
             elif elem.tag.endswith(xes_constants.TAG_ID):
                 if parent is not None:
                     tree = __parse_attribute(elem, parent, elem.get(xes_constants.KEY_KEY),
@@ -412,20 +418,35 @@ def import_from_string(log_string, parameters=None):
     return import_from_context(context, num_traces, parameters=parameters)
 
 
-def __parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
+def __get_store(elem, tree):
+    """
+    Gets the object in which the attributes contained in the given element should be stored.
+    (an attribute becomes a nested attribute/a list when the first contained attribute is met,
+    since at the start of an element its children have not necessarily been parsed yet)
+    """
+    store = tree[elem] if elem in tree else None
+    if type(store) is tuple:
+        parent_store, key, value = store
+        if elem.tag.endswith(xes_constants.TAG_LIST):
+            store = list()
         else:
-            store[key] = value
-    else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
+            store = dict()
+        attribute = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: store}
+        if type(parent_store) is list:
+            parent_store[key] = (parent_store[key][0], attribute)
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            parent_store[key] = attribute
+        tree[elem] = store
+    return store
+
+
+def __parse_attribute(elem, store, key, value, tree):
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
+        tree[elem] = (store, len(store) - 1, value)
+    else:
+        store[key] = value
+        tree[elem] = (store, key, value)
     return tree
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_20.py b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
index 585d730..9ef9961 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_20.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_20.py
@@ -111,7 +111,7 @@ def import_from_context(context, num_traces, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_store(elem.getparent(), tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -181,6 +181,12 @@ def import_from_context(context, num_traces, parameters=None):
                     tree = __parse_attribute(elem, parent, elem.get(xes_constants.KEY_KEY), None, tree)
                 continue
 
+            elif elem.tag.endswith(xes_constants.TAG_VALUES):
+                if parent is not None:
+                    # the elements of a list are stored in the list itself
+                    tree[elem] = parent
+                continue
+
             elif elem.tag.endswith(xes_constants.TAG_ID):
                 if parent is not None:
                     tree = __parse_attribute(elem, parent, elem.get(xes_constants.KEY_KEY),
@@ -412,24 +418,39 @@ def import_from_string(log_string, parameters=None):
     return import_from_context(context, num_traces, parameters=parameters)
 
 
-def __parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
-        elif type(store) is set:
-            store.add((key, value))
-        else:
-            store[key] = value
-    else:
+def __get_store(elem, tree):
+    """
+    Gets the object in which the attributes contained in the given element should be stored.
+    (an attribute becomes a nested attribute/a list when the first contained attribute is met,
+    since at the start of an element its children have not necessarily been parsed yet)
+    """
+    store = tree[elem] if elem in tree else None
+    if type(store) is tuple:
+        parent_store, key, value = store
         if elem.tag.endswith(xes_constants.TAG_LIST):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            store = list()
         elif elem.tag.endswith(xes_constants.TAG_CONTAINER):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: set()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            store = set()
+        else:
+            store = dict()
+        attribute = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: store}
+        if type(parent_store) is list:
+            parent_store[key] = (parent_store[key][0], attribute)
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            parent_store[key] = attribute
+        tree[elem] = store
+    return store
+
+
+def __parse_attribute(elem, store, key, value, tree):
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
+        tree[elem] = (store, len(store) - 1, value)
+    elif type(store) is set:
+        store.add((key, value))
+    else:
+        store[key] = value
+        tree[elem] = (store, key, value)
     return tree
diff --git a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
index 69acdbe..964344a 100644
--- a/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
+++ b/pm4py/objects/log/importer/xes/variants/iterparse_mem_compressed.py
@@ -113,7 +113,7 @@ def import_from_context(context, num_traces, log, parameters=None):
 
     for tree_event, elem in context:
         if tree_event == _EVENT_START:  # starting to read
-            parent = tree[elem.getparent()] if elem.getparent() in tree else None
+            parent = __get_store(elem.getparent(), tree)
 
             if elem.tag.endswith(xes_constants.TAG_STRING):
                 if parent is not None:
@@ -188,6 +188,12 @@ def import_from_context(context, num_traces, log, parameters=None):
                                              compression_dictio)
                 continue
 
+            elif elem.tag.endswith(xes_constants.TAG_VALUES):
+                if parent is not None:
+                    # the elements of a list are stored in the list itself
+                    tree[elem] = parent
+                continue
+
             elif elem.tag.endswith(xes_constants.TAG_ID):
                 if parent is not None:
                     tree = __parse_attribute(elem, parent, elem.get(xes_constants.KEY_KEY),
@@ -412,36 +418,51 @@ def import_from_string(log_string, parameters=None):
     return import_from_context(context, num_traces, log, parameters=parameters)
 
 
-def __parse_attribute(elem, store, key, value, tree, compression_dict):
-    if len(elem.getchildren()) == 0:
-        if key in compression_dict:
-            # using existing istantiations of existing objects
-            key = compression_dict[key]
+def __get_store(elem, tree):
+    """
+    Gets the object in which the attributes contained in the given element should be stored.
+    (an attribute becomes a nested attribute/a list when the first contained attribute is met,
+    since at the start of an element its children have not necessarily been parsed yet)
+    """
+    store = tree[elem] if elem in tree else None
+    if type(store) is tuple:
+        parent_store, key, value = store
+        if elem.tag.endswith(xes_constants.TAG_LIST):
+            store = list()
         else:
-            # set up a new instantiation
-            compression_dict[key] = key
-
-        # equal values of different types (1, 1.0, True) must not be exchanged
-        typed_value = (type(value), value)
-        if typed_value in compression_dict:
-            # using existing istantiations of existing objects
-            value = compression_dict[typed_value]
+            store = dict()
+        attribute = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: store}
+        if type(parent_store) is list:
+            parent_store[key] = (parent_store[key][0], attribute)
         else:
-            # set up a new instantiation
-            compression_dict[typed_value] = value
+            parent_store[key] = attribute
+        tree[elem] = store
+    return store
 
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
-        else:
-            store[key] = value
+
+def __parse_attribute(elem, store, key, value, tree, compression_dict):
+    if key in compression_dict:
+        # using existing istantiations of existing objects
+        key = compression_dict[key]
     else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
-        else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+        # set up a new instantiation
+        compression_dict[key] = key
+
+    # equal values of different types (1, 1.0, True) must not be exchanged
+    typed_value = (type(value), value)
+    if typed_value in compression_dict:
+        # using existing istantiations of existing objects
+        value = compression_dict[typed_value]
+    else:
+        # set up a new instantiation
+        compression_dict[typed_value] = value
+
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
+        tree[elem] = (store, len(store) - 1, value)
+    else:
+        store[key] = value
+        tree[elem] = (store, key, value)
     return tree
-- 
2.43.0


From 51c271b5169a3bff48f77f6b5fb2da2e0cec6039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 113/220] fix: line_by_line XES importer read one trace more
 than MAX_TRACES

---
 pm4py/objects/log/importer/xes/variants/line_by_line.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index 90c506c..cca9e25 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -179,10 +179,10 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
                 elif tag.startswith("/trace"):
                     log.append(trace)
                     tracecount += 1
-                    if tracecount > max_no_traces_to_import:
-                        break
                     trace = None
             elif tag.startswith("trace"):
+                if tracecount >= max_no_traces_to_import:
+                    break
                 trace = Trace()
 
     if timestamp_sort:
-- 
2.43.0


From 848eb90fe71ef6b65744d6caf6c3892796b780d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:15 +0000
Subject: [PATCH 114/220] fix: line_by_line XES exporter: names of
 extensions/classifiers/globals not escaped, classifier attributes with spaces
 not quoted, values with a double quote unreadable for the text-based
 importers

---
 .../log/exporter/xes/variants/line_by_line.py   | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/pm4py/objects/log/exporter/xes/variants/line_by_line.py b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
index 2c8e2bd..1f3a7fe 100644
--- a/pm4py/objects/log/exporter/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
@@ -21,7 +21,7 @@ from io import BytesIO
 
 from pm4py.objects.log.util import xes as xes_util
 from pm4py.util import exec_utils, constants
-from xml.sax.saxutils import quoteattr
+from xml.sax.saxutils import escape as xml_escape
 
 
 class Parameters(Enum):
@@ -117,7 +117,8 @@ def escape(stru):
     escaped_stru
         Escaped string
     """
-    return quoteattr(stru)
+    # always uses double quotes (expected by the text-based importers)
+    return "\"" + xml_escape(stru, {"\"": "&quot;", "\n": "&#10;", "\r": "&#13;", "\t": "&#9;"}) + "\""
 
 
 def export_attribute(attr_name, attr_value, indent_level):
@@ -222,15 +223,17 @@ def export_log_line_by_line(log, fp_obj, encoding, parameters=None):
         encoding))
     fp_obj.write(("<log "+xes_util.TAG_VERSION+"=\""+xes_util.VALUE_XES_VERSION+"\" "+xes_util.TAG_FEATURES+"=\""+xes_util.VALUE_XES_FEATURES+"\" "+xes_util.TAG_XMLNS+"=\""+xes_util.VALUE_XMLNS+"\">\n").encode(encoding))
     for ext_name, ext_value in log.extensions.items():
-        fp_obj.write((get_tab_indent(1) + "<extension name=\"%s\" prefix=\"%s\" uri=\"%s\" />\n" % (
-            ext_name, ext_value[xes_util.KEY_PREFIX], ext_value[xes_util.KEY_URI])).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<extension name=%s prefix=%s uri=%s />\n" % (
+            escape(ext_name), escape(ext_value[xes_util.KEY_PREFIX]), escape(ext_value[xes_util.KEY_URI]))).encode(encoding))
     for clas_name, clas_attributes in log.classifiers.items():
-        fp_obj.write((get_tab_indent(1) + "<classifier name=\"%s\" keys=\"%s\" />\n" % (
-            clas_name, " ".join(clas_attributes))).encode(encoding))
+        if any(" " in x for x in clas_attributes):
+            clas_attributes = ["'" + x + "'" for x in clas_attributes]
+        fp_obj.write((get_tab_indent(1) + "<classifier name=%s keys=%s />\n" % (
+            escape(clas_name), escape(" ".join(clas_attributes)))).encode(encoding))
     for attr_name, attr_value in log.attributes.items():
         fp_obj.write(export_attribute(attr_name, attr_value, 1).encode(encoding))
     for scope in log.omni_present:
-        fp_obj.write((get_tab_indent(1) + "<global scope=\"%s\">\n" % (scope)).encode(encoding))
+        fp_obj.write((get_tab_indent(1) + "<global scope=%s>\n" % (escape(scope))).encode(encoding))
         for attr_name, attr_value in log.omni_present[scope].items():
             fp_obj.write(export_attribute(attr_name, attr_value, 2).encode(encoding))
         fp_obj.write((get_tab_indent(1) + "</global>\n").encode(encoding))
-- 
2.43.0


From 36fe82146e5d8b8cc19686316834092327f4e1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:30 +0000
Subject: [PATCH 115/220] fix: text-based XES importers (chunk_regex,
 line_by_line) kept XML escapes in keys and values; chunk_regex broke on
 multi-byte characters at chunk boundaries

---
 pm4py/objects/log/importer/xes/variants/chunk_regex.py | 10 +++++++---
 .../objects/log/importer/xes/variants/line_by_line.py  |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/log/importer/xes/variants/chunk_regex.py b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
index 8bf8853..45acbd1 100644
--- a/pm4py/objects/log/importer/xes/variants/chunk_regex.py
+++ b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
@@ -14,10 +14,12 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+import codecs
 import gzip
 import os
 import sys
 from enum import Enum
+from html import unescape
 from io import BytesIO
 
 from pm4py.objects.log.obj import EventLog, Trace, Event
@@ -59,13 +61,15 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
     nb = 2 ** 12 # bytes per chunk
     rex = re.compile(r"(<|>)")
     parser = dt_parser.get()
+    # a chunk might end in the middle of a multi-byte character
+    decoder = codecs.getincrementaldecoder(encoding)()
     cont = F.read(nb)
     curr_els_attrs = []
     fk_dict = {}
     log = EventLog()
     trace = None
     while cont:
-        lst = deque(rex.split(cont.decode(encoding)))
+        lst = deque(rex.split(decoder.decode(cont)))
         while lst:
             el = lst.popleft()
             if len(el.rstrip()) > 0:
@@ -77,7 +81,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                     # need to read more
                     cont = F.read(nb)
                     if cont:
-                        lst2 = rex.split(cont.decode(encoding))
+                        lst2 = rex.split(decoder.decode(cont))
                         el = el + lst2[0]
                         lst = deque(lst2[1:])
                     else:
@@ -91,7 +95,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                 idx = el.find(' ')
                 if idx > -1:
                     tag = el[:idx]
-                    el = el.split('\"')
+                    el = [unescape(x) for x in el.split('\"')]
                     el[-1] = el[-1].strip()
                     if tag == "string":
                         curr_els_attrs[-1][el[1]] = el[3]
diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index cca9e25..0ed0530 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -18,6 +18,7 @@ import gzip
 import os
 import sys
 from enum import Enum
+from html import unescape
 from io import BytesIO
 
 from pm4py.objects.log.obj import EventLog, Trace, Event
@@ -156,7 +157,7 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
     f.seek(skip_bytes)
 
     for line in f:
-        content = line.decode(encoding).split("\"")
+        content = [unescape(x) for x in line.decode(encoding).split("\"")]
         if len(content) > 0:
             tag = content[0].split("<")[-1]
             if trace is not None:
-- 
2.43.0


From 9c78c2739dee9a404f6dd0875cac449d9a5c475e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 116/220] fix: chunk_regex XES importer dropped attributes of
 type id

---
 pm4py/objects/log/importer/xes/variants/chunk_regex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/importer/xes/variants/chunk_regex.py b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
index 45acbd1..e777164 100644
--- a/pm4py/objects/log/importer/xes/variants/chunk_regex.py
+++ b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
@@ -97,7 +97,7 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                     tag = el[:idx]
                     el = [unescape(x) for x in el.split('\"')]
                     el[-1] = el[-1].strip()
-                    if tag == "string":
+                    if tag == "string" or tag == "id":
                         curr_els_attrs[-1][el[1]] = el[3]
                         if el[-1] != '/':
                             curr_els_attrs.append(fk_dict)
-- 
2.43.0


From b60977597a1097818c9155299d370e38b8ab646a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:31 +0000
Subject: [PATCH 117/220] fix: XES exporters wrote NumPy integers, floats,
 booleans and dates as strings

---
 .../log/exporter/xes/variants/etree_xes_exp.py | 18 ++++++++++++++++--
 .../log/exporter/xes/variants/line_by_line.py  | 18 ++++++++++++++++--
 2 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py b/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
index 7275fa7..293fe48 100644
--- a/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
+++ b/pm4py/objects/log/exporter/xes/variants/etree_xes_exp.py
@@ -51,7 +51,20 @@ __TYPE_CORRESPONDENCE = {
     "dict": xes_util.TAG_LIST,
     "numpy.int64": xes_util.TAG_INT,
     "numpy.float64": xes_util.TAG_FLOAT,
-    "numpy.datetime64": xes_util.TAG_DATE
+    "numpy.datetime64": xes_util.TAG_DATE,
+    # names of the NumPy types, as returned by type(...).__name__
+    "int8": xes_util.TAG_INT,
+    "int16": xes_util.TAG_INT,
+    "int32": xes_util.TAG_INT,
+    "int64": xes_util.TAG_INT,
+    "uint8": xes_util.TAG_INT,
+    "uint16": xes_util.TAG_INT,
+    "uint32": xes_util.TAG_INT,
+    "uint64": xes_util.TAG_INT,
+    "float32": xes_util.TAG_FLOAT,
+    "float64": xes_util.TAG_FLOAT,
+    "bool_": xes_util.TAG_BOOLEAN,
+    "datetime64": xes_util.TAG_DATE
 }
 # if a type is not found in the previous list, then default to string
 __DEFAULT_TYPE = xes_util.TAG_STRING
@@ -90,7 +103,8 @@ def __get_xes_attr_value(attr_value, attr_type_xes):
 
     """
     if attr_type_xes == xes_util.TAG_DATE:
-        return attr_value.isoformat()
+        # numpy.datetime64 objects are already printed in the ISO format
+        return attr_value.isoformat() if hasattr(attr_value, "isoformat") else str(attr_value)
     elif attr_type_xes == xes_util.TAG_BOOLEAN:
         return str(attr_value).lower()
     return str(attr_value)
diff --git a/pm4py/objects/log/exporter/xes/variants/line_by_line.py b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
index 1f3a7fe..2fe30f7 100644
--- a/pm4py/objects/log/exporter/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/exporter/xes/variants/line_by_line.py
@@ -41,7 +41,20 @@ __TYPE_CORRESPONDENCE = {
     "dict": xes_util.TAG_LIST,
     "numpy.int64": xes_util.TAG_INT,
     "numpy.float64": xes_util.TAG_FLOAT,
-    "numpy.datetime64": xes_util.TAG_DATE
+    "numpy.datetime64": xes_util.TAG_DATE,
+    # names of the NumPy types, as returned by type(...).__name__
+    "int8": xes_util.TAG_INT,
+    "int16": xes_util.TAG_INT,
+    "int32": xes_util.TAG_INT,
+    "int64": xes_util.TAG_INT,
+    "uint8": xes_util.TAG_INT,
+    "uint16": xes_util.TAG_INT,
+    "uint32": xes_util.TAG_INT,
+    "uint64": xes_util.TAG_INT,
+    "float32": xes_util.TAG_FLOAT,
+    "float64": xes_util.TAG_FLOAT,
+    "bool_": xes_util.TAG_BOOLEAN,
+    "datetime64": xes_util.TAG_DATE
 }
 # if a type is not found in the previous list, then default to string
 __DEFAULT_TYPE = xes_util.TAG_STRING
@@ -80,7 +93,8 @@ def __get_xes_attr_value(attr_value, attr_type_xes):
 
     """
     if attr_type_xes == xes_util.TAG_DATE:
-        return attr_value.isoformat()
+        # numpy.datetime64 objects are already printed in the ISO format
+        return attr_value.isoformat() if hasattr(attr_value, "isoformat") else str(attr_value)
     elif attr_type_xes == xes_util.TAG_BOOLEAN:
         return str(attr_value).lower()
     return str(attr_value)
-- 
2.43.0


From bc9faae145cf3b0bc05c85ea80cba966d1a33b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:22 +0000
Subject: [PATCH 118/220] fix: text-based XES importers mishandled empty
 traces/events written as self-closing elements

---
 pm4py/objects/log/importer/xes/variants/chunk_regex.py  | 8 ++++++++
 pm4py/objects/log/importer/xes/variants/line_by_line.py | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pm4py/objects/log/importer/xes/variants/chunk_regex.py b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
index e777164..99dc3ae 100644
--- a/pm4py/objects/log/importer/xes/variants/chunk_regex.py
+++ b/pm4py/objects/log/importer/xes/variants/chunk_regex.py
@@ -170,6 +170,14 @@ def import_log_from_file_object(F, encoding, file_size=sys.maxsize, parameters=N
                         curr_els_attrs.append(trace.attributes)
                         log.append(trace)
                         continue
+                    elif el == "event/":
+                        # event without attributes
+                        trace.append(Event())
+                        continue
+                    elif el == "trace/":
+                        # trace without attributes and events
+                        log.append(Trace())
+                        continue
                     elif el == "log":
                         curr_els_attrs.append(log.attributes)
                         continue
diff --git a/pm4py/objects/log/importer/xes/variants/line_by_line.py b/pm4py/objects/log/importer/xes/variants/line_by_line.py
index 0ed0530..b8fbbc2 100644
--- a/pm4py/objects/log/importer/xes/variants/line_by_line.py
+++ b/pm4py/objects/log/importer/xes/variants/line_by_line.py
@@ -170,6 +170,9 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
                     elif tag.startswith("/event"):
                         trace.append(event)
                         event = None
+                elif tag.startswith("event/"):
+                    # event without attributes
+                    trace.append(Event())
                 elif tag.startswith("event"):
                     event = Event()
                 elif len(content) == 5:
@@ -185,6 +188,11 @@ def import_log_from_file_object(f, encoding, file_size=sys.maxsize, parameters=N
                 if tracecount >= max_no_traces_to_import:
                     break
                 trace = Trace()
+                if tag.startswith("trace/"):
+                    # trace without attributes and events
+                    log.append(trace)
+                    tracecount += 1
+                    trace = None
 
     if timestamp_sort:
         log = sorting.sort_timestamp(log, timestamp_key=timestamp_key, reverse_sort=reverse_sort)
-- 
2.43.0


From 2df536a68c2c9cdcd0820213e9606339bf96fdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 119/220] fix: format_dataframe overwrote a chosen column
 (case, activity, start timestamp) having the name of another standard column
 before reading it

---
 pm4py/utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index 4f974ab..c1ab883 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -71,18 +71,24 @@ def format_dataframe(df: pd.DataFrame, case_id: str = constants.CASE_CONCEPT_NAM
         raise Exception(activity_key + " column (activity) is not in the dataframe!")
     if timestamp_key not in df.columns:
         raise Exception(timestamp_key + " column (timestamp) is not in the dataframe!")
+    # reads the columns before setting the standard ones
+    # (a chosen column might have the name of another standard column)
+    case_column, activity_column, timestamp_column = df[case_id], df[activity_key], df[timestamp_key]
+    start_timestamp_column = df[start_timestamp_key] if start_timestamp_key in df.columns else None
     if case_id != constants.CASE_CONCEPT_NAME:
         if constants.CASE_CONCEPT_NAME in df.columns:
             del df[constants.CASE_CONCEPT_NAME]
-        df[constants.CASE_CONCEPT_NAME] = df[case_id]
+        df[constants.CASE_CONCEPT_NAME] = case_column
     if activity_key != xes_constants.DEFAULT_NAME_KEY:
         if xes_constants.DEFAULT_NAME_KEY in df.columns:
             del df[xes_constants.DEFAULT_NAME_KEY]
-        df[xes_constants.DEFAULT_NAME_KEY] = df[activity_key]
+        df[xes_constants.DEFAULT_NAME_KEY] = activity_column
     if timestamp_key != xes_constants.DEFAULT_TIMESTAMP_KEY:
         if xes_constants.DEFAULT_TIMESTAMP_KEY in df.columns:
             del df[xes_constants.DEFAULT_TIMESTAMP_KEY]
-        df[xes_constants.DEFAULT_TIMESTAMP_KEY] = df[timestamp_key]
+        df[xes_constants.DEFAULT_TIMESTAMP_KEY] = timestamp_column
+    if start_timestamp_column is not None and start_timestamp_key != xes_constants.DEFAULT_START_TIMESTAMP_KEY:
+        df[xes_constants.DEFAULT_START_TIMESTAMP_KEY] = start_timestamp_column
     # makes sure that the timestamps column are of timestamp type
     df = dataframe_utils.convert_timestamp_columns_in_df(df, timest_format=timest_format)
     # drop NaN(s) in the main columns (case ID, activity, timestamp) to ensure functioning of the
@@ -111,8 +117,7 @@ def format_dataframe(df: pd.DataFrame, case_id: str = constants.CASE_CONCEPT_NAM
     if not hasattr(df, 'attrs'):
         # legacy (Python 3.6) support
         df.attrs = {}
-    if start_timestamp_key in df.columns:
-        df[xes_constants.DEFAULT_START_TIMESTAMP_KEY] = df[start_timestamp_key]
+    if start_timestamp_column is not None:
         df.attrs[constants.PARAMETER_CONSTANT_START_TIMESTAMP_KEY] = xes_constants.DEFAULT_START_TIMESTAMP_KEY
     df.attrs[constants.PARAMETER_CONSTANT_ACTIVITY_KEY] = xes_constants.DEFAULT_NAME_KEY
     df.attrs[constants.PARAMETER_CONSTANT_TIMESTAMP_KEY] = xes_constants.DEFAULT_TIMESTAMP_KEY
-- 
2.43.0


From da7736e212e0328813bd947e4c9021e38e7e1675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 120/220] fix: format_dataframe turned case identifiers and
 activities that look like dates ("2020", "20200101") into timestamps

---
 pm4py/utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index c1ab883..ef94f5e 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -90,7 +90,11 @@ def format_dataframe(df: pd.DataFrame, case_id: str = constants.CASE_CONCEPT_NAM
     if start_timestamp_column is not None and start_timestamp_key != xes_constants.DEFAULT_START_TIMESTAMP_KEY:
         df[xes_constants.DEFAULT_START_TIMESTAMP_KEY] = start_timestamp_column
     # makes sure that the timestamps column are of timestamp type
-    df = dataframe_utils.convert_timestamp_columns_in_df(df, timest_format=timest_format)
+    # (case identifiers and activities are kept as they are, even if they look like dates, e.g. "2020")
+    identifiers = {case_id, activity_key, constants.CASE_CONCEPT_NAME, xes_constants.DEFAULT_NAME_KEY} - {
+        timestamp_key, start_timestamp_key}
+    df = dataframe_utils.convert_timestamp_columns_in_df(df, timest_format=timest_format,
+                                                         timest_columns=set(df.columns) - identifiers)
     # drop NaN(s) in the main columns (case ID, activity, timestamp) to ensure functioning of the
     # algorithms
     prev_length = len(df)
-- 
2.43.0


From 780c935386e5dbff5a30d8dfa3bdbe9f5b95fb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 121/220] fix: format_dataframe added and removed columns of
 the dataframe passed as argument

---
 pm4py/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/utils.py b/pm4py/utils.py
index ef94f5e..17784ef 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -71,6 +71,8 @@ def format_dataframe(df: pd.DataFrame, case_id: str = constants.CASE_CONCEPT_NAM
         raise Exception(activity_key + " column (activity) is not in the dataframe!")
     if timestamp_key not in df.columns:
         raise Exception(timestamp_key + " column (timestamp) is not in the dataframe!")
+    # do not alter the columns of the dataframe of the caller
+    df = df.copy(deep=False)
     # reads the columns before setting the standard ones
     # (a chosen column might have the name of another standard column)
     case_column, activity_column, timestamp_column = df[case_id], df[activity_key], df[timestamp_key]
-- 
2.43.0


From d16b250b871472db473ae740b4b71cd59db5951b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:23 +0000
Subject: [PATCH 122/220] fix: converting an event log to a dataframe added the
 case attributes to the events of the log itself

---
 pm4py/objects/conversion/log/variants/to_event_stream.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/log/variants/to_event_stream.py b/pm4py/objects/conversion/log/variants/to_event_stream.py
index ca07578..8188ea8 100644
--- a/pm4py/objects/conversion/log/variants/to_event_stream.py
+++ b/pm4py/objects/conversion/log/variants/to_event_stream.py
@@ -279,7 +279,8 @@ def __transform_event_log_to_event_stream(log, include_case_attributes=True,
                                     omni_present=log.omni_present, extensions=log.extensions, properties=log.properties)
     for index, trace in enumerate(log):
         for event in trace:
-            new_event = deepcopy(event) if enable_deepcopy else event
+            # the events of the log should never be altered (the case attributes are added to the new events)
+            new_event = deepcopy(event) if enable_deepcopy else copy(event)
             if include_case_attributes:
                 for key, value in trace.attributes.items():
                     new_event[case_attribute_prefix + key] = value
-- 
2.43.0


From 2bbb89f44d941b04246dfb45e4e45afb286840ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 123/220] fix: WF-net to process tree conversion ignored the
 markings (e.g. several tokens in the source), so that check_is_fitting
 accepted non-fitting traces

---
 .../objects/conversion/wf_net/variants/to_process_tree.py  | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
index 42f1b61..0c3d534 100644
--- a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
+++ b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
@@ -350,6 +350,13 @@ def apply(net, im, fm, parameters=None):
     debug = exec_utils.get_param_value(Parameters.DEBUG, parameters, False)
     fold = exec_utils.get_param_value(Parameters.FOLD, parameters, True)
 
+    # the tree describes the behavior of the net between the markings with a single token in the source/sink place
+    sources = [p for p in net.places if len(p.in_arcs) == 0]
+    sinks = [p for p in net.places if len(p.out_arcs) == 0]
+    for marking, border in ((im, sources), (fm, sinks)):
+        if marking and (len(border) != 1 or dict(marking) != {border[0]: 1}):
+            raise ValueError('The initial/final marking is not the one of a WF-net')
+
     grouped_net = group_blocks_in_net(net, parameters=parameters)
 
     if debug:
-- 
2.43.0


From b3d11968438a38e0f123fe309cb41f083364ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 124/220] fix: PTML importer misplaced the exit of
 three-children loops (moved to the end of the parent, or lost at the root)

---
 pm4py/objects/process_tree/importer/variants/ptml.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/process_tree/importer/variants/ptml.py b/pm4py/objects/process_tree/importer/variants/ptml.py
index e672bed..45cbd2a 100644
--- a/pm4py/objects/process_tree/importer/variants/ptml.py
+++ b/pm4py/objects/process_tree/importer/variants/ptml.py
@@ -152,6 +152,7 @@ def import_tree_from_xml_object(root, parameters=None):
     # make sure that .PTML files having loops with 3 children are imported
     # into the PM4Py process tree structure
     # we want loops to have two children
+    root = nodes[root]
     for node in nodes.values():
         if node.operator == Operator.LOOP and len(node.children) == 3:
             if not (node.children[2].operator is None and node.children[2].label is None):
@@ -163,10 +164,12 @@ def import_tree_from_xml_object(root, parameters=None):
                 new_parent_node.children.append(node.children[2])
                 if parent_node is not None:
                     new_parent_node.parent = parent_node
-                    del parent_node.children[parent_node.children.index(node)]
-                    parent_node.children.append(new_parent_node)
+                    # the position is found by identity: the equality between process trees is structural
+                    index = [x is node for x in parent_node.children].index(True)
+                    parent_node.children[index] = new_parent_node
+                else:
+                    root = new_parent_node
             del node.children[2]
 
-    root = nodes[root]
     tree_sort(root)
     return root
-- 
2.43.0


From 8e03ad44f949287fb755c18659737d771acc1421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 125/220] fix: DFG exporter crashed when a start/end activity
 is not contained in any edge (e.g. traces with a single event)

---
 pm4py/objects/dfg/exporter/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/dfg/exporter/variants/classic.py b/pm4py/objects/dfg/exporter/variants/classic.py
index e7bf5f0..7346391 100644
--- a/pm4py/objects/dfg/exporter/variants/classic.py
+++ b/pm4py/objects/dfg/exporter/variants/classic.py
@@ -60,7 +60,7 @@ def export_line_by_line(dfg, parameters=None):
         raise Exception(
             "error: impossible to determine automatically the end activities from the DFG. Please specify them manually through the END_ACTIVITIES parameter")
 
-    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg)))
+    activities = list(set(x[0] for x in dfg).union(set(x[1] for x in dfg)).union(start_activities).union(end_activities))
 
     yield "%d\n" % (len(activities))
     for act in activities:
-- 
2.43.0


From 12001899af834143062a8fd2c1cd3a7bd8b324b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 126/220] fix: DFG importer removed the leading/trailing spaces
 of the activities

---
 pm4py/objects/dfg/importer/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/dfg/importer/variants/classic.py b/pm4py/objects/dfg/importer/variants/classic.py
index e55de1a..03f64d3 100644
--- a/pm4py/objects/dfg/importer/variants/classic.py
+++ b/pm4py/objects/dfg/importer/variants/classic.py
@@ -54,7 +54,7 @@ def import_dfg_from_rows(rows, parameters=None):
     num_activities = int(rows[0])
     i = 1
     while i <= num_activities:
-        activities.append(rows[i].strip())
+        activities.append(rows[i].rstrip("\r\n"))
         i = i + 1
 
     num_sa = int(rows[i])
-- 
2.43.0


From 80e7180fc0a889d92ce61bd65820f468c7cfac94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 127/220] fix: process tree parser truncated the labels
 containing a quote

---
 pm4py/objects/process_tree/utils/generic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/process_tree/utils/generic.py b/pm4py/objects/process_tree/utils/generic.py
index 66b0193..eca1f79 100644
--- a/pm4py/objects/process_tree/utils/generic.py
+++ b/pm4py/objects/process_tree/utils/generic.py
@@ -16,6 +16,7 @@
 '''
 import copy
 import hashlib
+import re
 from typing import Optional, List, Dict, Tuple
 
 from pm4py.objects.process_tree import obj as pt
@@ -283,7 +284,9 @@ def parse_recursive(string_rep, depth_cache, depth):
         label = None
         if string_rep.startswith('\''):
             string_rep = string_rep[1:]
-            escape_ext = string_rep.find('\'')
+            # the label is closed by the first quote that is followed by a separator
+            # (the label itself may contain other quotes)
+            escape_ext = re.search(r"'(?=\s*([,)]|$))", string_rep).start()
             label = string_rep[0:escape_ext]
             string_rep = string_rep[escape_ext + 1:]
         else:
-- 
2.43.0


From c4e349bc94e1fc44f9538e6c85d9bab5836257b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 128/220] fix: BPMN exporter dropped the name of the gateways

---
 pm4py/objects/bpmn/exporter/variants/etree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/bpmn/exporter/variants/etree.py b/pm4py/objects/bpmn/exporter/variants/etree.py
index 14099e4..d01fbff 100644
--- a/pm4py/objects/bpmn/exporter/variants/etree.py
+++ b/pm4py/objects/bpmn/exporter/variants/etree.py
@@ -148,15 +148,15 @@ def get_xml_string(bpmn_graph, parameters=None):
         elif isinstance(node, BPMN.ExclusiveGateway):
             task = ET.SubElement(process, "bpmn:exclusiveGateway",
                                  {"id": node.get_id(), "gatewayDirection": node.get_gateway_direction().value,
-                                  "name": ""})
+                                  "name": node.get_name()})
         elif isinstance(node, BPMN.ParallelGateway):
             task = ET.SubElement(process, "bpmn:parallelGateway",
                                  {"id": node.get_id(), "gatewayDirection": node.get_gateway_direction().value,
-                                  "name": ""})
+                                  "name": node.get_name()})
         elif isinstance(node, BPMN.InclusiveGateway):
             task = ET.SubElement(process, "bpmn:inclusiveGateway",
                                  {"id": node.get_id(), "gatewayDirection": node.get_gateway_direction().value,
-                                  "name": ""})
+                                  "name": node.get_name()})
         else:
             raise Exception("Unexpected node type.")
 
-- 
2.43.0


From d95983bcfe521f701a9e29a973206189a933f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 129/220] fix: BPMN importer lost the sequence flows without
 diagram information

---
 pm4py/objects/bpmn/importer/variants/lxml.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/bpmn/importer/variants/lxml.py b/pm4py/objects/bpmn/importer/variants/lxml.py
index 8526ea9..42aef23 100644
--- a/pm4py/objects/bpmn/importer/variants/lxml.py
+++ b/pm4py/objects/bpmn/importer/variants/lxml.py
@@ -231,13 +231,13 @@ def parse_element(bpmn_graph, counts, curr_el, parents, incoming_dict, outgoing_
         for seq_flow_id in outgoing_dict:
             if outgoing_dict[seq_flow_id][0] in nodes_dict:
                 outgoing_dict[seq_flow_id] = (nodes_dict[outgoing_dict[seq_flow_id][0]], outgoing_dict[seq_flow_id][1], outgoing_dict[seq_flow_id][2], outgoing_dict[seq_flow_id][3])
-        for flow_id in flow_info:
-            if flow_id in outgoing_dict and flow_id in incoming_dict:
+        for flow_id in outgoing_dict:
+            if flow_id in incoming_dict:
                 if isinstance(outgoing_dict[flow_id][0], BPMN.BPMNNode) and isinstance(incoming_dict[flow_id][0], BPMN.BPMNNode):
                     flow = BPMN.SequenceFlow(outgoing_dict[flow_id][0], incoming_dict[flow_id][0], id=flow_id, name=outgoing_dict[flow_id][3], process=outgoing_dict[flow_id][1])
                     bpmn_graph.add_flow(flow)
                     layout.get(flow).del_waypoints()
-                    for waypoint in flow_info[flow_id]:
+                    for waypoint in flow_info.get(flow_id, []):
                         layout.get(flow).add_waypoint(waypoint)
         for node_id in nodes_bounds:
             if node_id in nodes_dict:
-- 
2.43.0


From f4243dab7260a01f2e1769a16f9e86000bd71baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 130/220] fix: layouting (hence writing) a BPMN diagram with a
 self-loop crashed with a ZeroDivisionError

---
 .../objects/bpmn/layout/variants/graphviz.py  | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/pm4py/objects/bpmn/layout/variants/graphviz.py b/pm4py/objects/bpmn/layout/variants/graphviz.py
index c889a3f..dfff99d 100644
--- a/pm4py/objects/bpmn/layout/variants/graphviz.py
+++ b/pm4py/objects/bpmn/layout/variants/graphviz.py
@@ -195,6 +195,10 @@ def apply(bpmn_graph, parameters=None):
 
         diff_x = abs(x_trg - x_src)
         diff_y = abs(y_src - y_trg)
+        diff_sum = diff_x + diff_y
+        if diff_sum == 0:
+            # self-loop
+            diff_sum = 1
 
         if not (x_src, y_src) in outgoing_edges:
             outgoing_edges[(x_src, y_src)] = {}
@@ -206,18 +210,18 @@ def apply(bpmn_graph, parameters=None):
                                                          EndpointDirection.TOP: 0.0, EndpointDirection.BOTTOM: 0.0}
 
         if x_trg > x_src:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.RIGHT] = diff_x / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.LEFT] = diff_x / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.RIGHT] = diff_x / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.LEFT] = diff_x / diff_sum
         else:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.LEFT] = diff_x / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.RIGHT] = diff_x / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.LEFT] = diff_x / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.RIGHT] = diff_x / diff_sum
 
         if y_src > y_trg:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.TOP] = diff_y / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.BOTTOM] = diff_y / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.TOP] = diff_y / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.BOTTOM] = diff_y / diff_sum
         else:
-            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.BOTTOM] = diff_y / (diff_x + diff_y)
-            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.TOP] = diff_y / (diff_x + diff_y)
+            outgoing_edges[(x_src, y_src)][(x_trg, y_trg)][EndpointDirection.BOTTOM] = diff_y / diff_sum
+            ingoing_edges[(x_trg, y_trg)][(x_src, y_src)][EndpointDirection.TOP] = diff_y / diff_sum
 
     # normalization
     outgoing_edges0 = deepcopy(outgoing_edges)
-- 
2.43.0


From e3bcb5755d8eff016a06072c74bc1c743b0b3160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:22 +0000
Subject: [PATCH 131/220] fix: POWL parser lost order edges between nodes whose
 text is contained in the text of another node, and misread activities
 starting with X, * or tau

---
 pm4py/objects/powl/parser.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/pm4py/objects/powl/parser.py b/pm4py/objects/powl/parser.py
index 7ad3e34..b0e9ce3 100644
--- a/pm4py/objects/powl/parser.py
+++ b/pm4py/objects/powl/parser.py
@@ -71,8 +71,6 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
 
-            pattern = '(' + '|'.join(map(re.escape, list(nodes_dict))) + ')'
-
             PO = StrictPartialOrder(nodes=nodes)
 
             # reads the edges of the POWL
@@ -81,14 +79,17 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 if indented_str_list[i] == '}':
                     break
 
-                split_list = [x for x in re.split(pattern, indented_str_list[i]) if x]
-
-                if len(split_list) == 3:
-                    PO.order.add_edge(nodes_dict[split_list[0]], nodes_dict[split_list[2]])
+                # the text of a node may be contained in the text of another node
+                for match in re.finditer('-->', indented_str_list[i]):
+                    source = indented_str_list[i][:match.start()].strip()
+                    target = indented_str_list[i][match.end():].strip()
+                    if source in nodes_dict and target in nodes_dict:
+                        PO.order.add_edge(nodes_dict[source], nodes_dict[target])
+                        break
 
                 i = i + 1
 
-        elif indented_str_list[0].startswith('X'):
+        elif re.match(r'X\s*\(', indented_str_list[0]):
             i = 1
             while i < len(indented_str_list):
                 if indented_str_list[i] == ')':
@@ -97,7 +98,7 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
             PO = OperatorPOWL(PTOperator.XOR, nodes)
-        elif indented_str_list[0].startswith('*'):
+        elif re.match(r'\*\s*\(', indented_str_list[0]):
             i = 1
             while i < len(indented_str_list):
                 if indented_str_list[i] == ')':
@@ -106,7 +107,7 @@ def parse_powl_model_string(powl_string, level=0) -> POWL:
                 nodes.append(N)
                 i = i + 1
             PO = OperatorPOWL(PTOperator.LOOP, nodes)
-        elif indented_str_list[0].startswith('tau'):
+        elif indented_str_list[0] == 'tau':
             PO = SilentTransition()
         else:
             label = indented_str_list[0]
-- 
2.43.0


From 94dacf83abd74c6382b93ad0bf266cb4b901a5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 132/220] fix: OCEL JSON/XML exporters truncated the timestamps
 to the second and labelled the local time of other timezones as UTC

---
 .../ocel/exporter/util/clean_dataframes.py        | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/util/clean_dataframes.py b/pm4py/objects/ocel/exporter/util/clean_dataframes.py
index 6365dd5..872d6ae 100644
--- a/pm4py/objects/ocel/exporter/util/clean_dataframes.py
+++ b/pm4py/objects/ocel/exporter/util/clean_dataframes.py
@@ -21,6 +21,17 @@ import pandas as pd
 from pm4py.objects.ocel.obj import OCEL
 
 
+def __format_dates(col: pd.Series) -> pd.Series:
+    """
+    Formats the dates of a column (in UTC), keeping the sub-second part when there is one
+    """
+    if getattr(col.dtype, "tz", None) is not None:
+        col = col.dt.tz_convert("UTC")
+    if (col.dt.microsecond > 0).any():
+        return col.dt.strftime('%Y-%m-%dT%H:%M:%S.%fZ')
+    return col.dt.strftime('%Y-%m-%dT%H:%M:%SZ')
+
+
 def get_dataframes_from_ocel(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Tuple[
     pd.DataFrame, pd.DataFrame]:
     if parameters is None:
@@ -31,13 +42,13 @@ def get_dataframes_from_ocel(ocel: OCEL, parameters: Optional[Dict[Any, Any]] =
         if str(events[col].dtype) == "object":
             events[col] = events[col].astype('string')
         elif "date" in str(events[col].dtype):
-            events[col] = events[col].dt.strftime('%Y-%m-%dT%H:%M:%SZ')
+            events[col] = __format_dates(events[col])
 
     objects = ocel.objects.copy()
     for col in objects.columns:
         if str(objects[col].dtype) == "object":
             objects[col] = objects[col].astype('string')
         elif "date" in str(objects[col].dtype):
-            objects[col] = objects[col].dt.strftime('%Y-%m-%dT%H:%M:%SZ')
+            objects[col] = __format_dates(objects[col])
 
     return events, objects
-- 
2.43.0


From 27753350af2b15630456eb726d502ecb7bd5bc4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 133/220] fix: OCEL JSON exporter crashed on object changes of
 date attributes

---
 pm4py/objects/ocel/exporter/jsonocel/variants/ocel20.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20.py b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20.py
index 697bdc0..66e2ff3 100644
--- a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20.py
@@ -15,6 +15,8 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 import json
+
+import pandas as pd
 from enum import Enum
 from typing import Optional, Dict, Any
 
@@ -76,7 +78,8 @@ def get_enriched_object(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None)
     if len(ocel.object_changes) > 0:
         object_changes = ocel.object_changes.to_dict("records")
         for i in range(len(object_changes)):
-            object_changes[i][event_timestamp] = object_changes[i][event_timestamp].isoformat()
+            # avoids the missing values (the columns of the other changed fields), and formats the dates
+            object_changes[i] = {k: (v.isoformat() if hasattr(v, "isoformat") else v) for k, v in object_changes[i].items() if pd.notnull(v)}
 
         base_object[constants.OCEL_OBJCHANGES_KEY] = object_changes
 
-- 
2.43.0


From c08efbb2aa74965b192751d052829df66e40a191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:22 +0000
Subject: [PATCH 134/220] fix: OCEL 2.0 SQLite importer crashed on logs without
 object changes

---
 pm4py/objects/ocel/importer/sqlite/variants/ocel20.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
index ad84a3a..c3faa1f 100644
--- a/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/importer/sqlite/variants/ocel20.py
@@ -132,7 +132,9 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None):
         objects = object_types_coll
         object_changes = None
 
-    del objects[event_timestamp]
+    if event_timestamp in objects.columns:
+        # the column does not exist when there are no changes of the attributes of the objects
+        del objects[event_timestamp]
     del objects[cumcount_field]
 
     E2O = pd.read_sql("SELECT * FROM event_object", conn)
-- 
2.43.0


From 3c13796f9a93a4cd4d000c9d97fbd350794b0192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 135/220] fix: OCEL JSON importer kept a single qualifier when
 an object is related to an event several times

---
 .../ocel/importer/jsonocel/variants/classic.py        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/classic.py b/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
index bc33981..38c755e 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/classic.py
@@ -80,17 +80,20 @@ def get_base_ocel(json_obj: Any, parameters: Optional[Dict[Any, Any]] = None):
         this_rel = {}
         for obj in ev[constants.OCEL_OMAP_KEY]:
             if obj in types_dict:
-                this_rel[obj] = {event_id: ev_id, event_activity: ev[event_activity],
+                this_rel[obj] = [{event_id: ev_id, event_activity: ev[event_activity],
                                   event_timestamp: parser.apply(ev[event_timestamp]), object_id: obj,
-                                  object_type: types_dict[obj]}
+                                  object_type: types_dict[obj]}]
         if constants.OCEL_TYPED_OMAP_KEY in ev:
             for element in ev[constants.OCEL_TYPED_OMAP_KEY]:
                 if object_id in element:
                     key1 = element[object_id]
                     if key1 in this_rel:
-                        this_rel[key1][constants.DEFAULT_QUALIFIER] = element[constants.DEFAULT_QUALIFIER]
+                        if constants.DEFAULT_QUALIFIER in this_rel[key1][-1]:
+                            # the same object is related to the event with several qualifiers
+                            this_rel[key1].append(dict(this_rel[key1][-1]))
+                        this_rel[key1][-1][constants.DEFAULT_QUALIFIER] = element[constants.DEFAULT_QUALIFIER]
         for obj in this_rel:
-            relations.append(this_rel[obj])
+            relations.extend(this_rel[obj])
         events.append(dct)
 
     if constants.OCEL_OBJCHANGES_KEY in json_obj:
-- 
2.43.0


From 380082af03cd0566e1adf99ec572ce0592bbd6bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:26 +0000
Subject: [PATCH 136/220] fix: OCEL 2.0 SQLite exporter crashed when the names
 of two types coincide after removing the special characters

---
 .../ocel/exporter/sqlite/variants/ocel20.py   | 14 +++++++++----
 pm4py/objects/ocel/util/names_stripping.py    | 20 +++++++++++++++++++
 2 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
index 79a91a8..abed3ff 100644
--- a/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
+++ b/pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py
@@ -66,9 +66,15 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
     EVENT_CORR_TYPE = pandas_utils.instantiate_dataframe({"ocel_type": event_types, "ocel_type_map": event_types})
     OBJECT_CORR_TYPE = pandas_utils.instantiate_dataframe({"ocel_type": object_types, "ocel_type_map": object_types})
 
+    event_types_map = {x: x for x in event_types}
+    object_types_map = {x: x for x in object_types}
+
     if enable_names_stripping:
-        EVENT_CORR_TYPE["ocel_type_map"] = EVENT_CORR_TYPE["ocel_type_map"].apply(lambda x: names_stripping.apply(x))
-        OBJECT_CORR_TYPE["ocel_type_map"] = OBJECT_CORR_TYPE["ocel_type_map"].apply(lambda x: names_stripping.apply(x))
+        event_types_map = names_stripping.apply_collection(event_types)
+        object_types_map = names_stripping.apply_collection(object_types)
+
+        EVENT_CORR_TYPE["ocel_type_map"] = EVENT_CORR_TYPE["ocel_type"].map(event_types_map)
+        OBJECT_CORR_TYPE["ocel_type_map"] = OBJECT_CORR_TYPE["ocel_type"].map(object_types_map)
 
     EVENT_CORR_TYPE.to_sql("event_map_type", conn, index=False)
     OBJECT_CORR_TYPE.to_sql("object_map_type", conn, index=False)
@@ -88,7 +94,7 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
         df = df.rename(columns={event_id: "ocel_id", event_timestamp: "ocel_time"})
         df["ocel_id"] = df["ocel_id"].astype("string")
 
-        act_red = names_stripping.apply(act) if enable_names_stripping else act
+        act_red = event_types_map[act]
 
         df = df.drop_duplicates()
         df.to_sql("event_"+act_red, conn, index=False)
@@ -106,7 +112,7 @@ def apply(ocel: OCEL, file_path: str, parameters: Optional[Dict[Any, Any]] = Non
 
         df["ocel_id"] = df["ocel_id"].astype("string")
 
-        ot_red = names_stripping.apply(ot) if enable_names_stripping else ot
+        ot_red = object_types_map[ot]
 
         df.to_sql("object_"+ot_red, conn, index=False)
 
diff --git a/pm4py/objects/ocel/util/names_stripping.py b/pm4py/objects/ocel/util/names_stripping.py
index 3a93fc8..8789ffe 100644
--- a/pm4py/objects/ocel/util/names_stripping.py
+++ b/pm4py/objects/ocel/util/names_stripping.py
@@ -16,6 +16,7 @@
 '''
 
 import re
+from typing import Collection, Dict
 
 
 match = re.compile(r'[^0-9a-zA-Z]+')
@@ -32,3 +33,22 @@ def apply(X: str, max_len: int = 100) -> str:
     if len(stru) > max_len:
         stru = stru[:100]
     return stru
+
+
+def apply_collection(names: Collection[str], max_len: int = 100) -> Dict[str, str]:
+    """
+    Strips a collection of names, keeping the stripped names different
+    (ignoring the case, since the names of the SQLite tables are case-insensitive)
+    """
+    ret = {}
+    used = set()
+    for name in names:
+        base = apply(name, max_len=max_len)
+        stripped = base
+        i = 1
+        while stripped.lower() in used:
+            i = i + 1
+            stripped = base + str(i)
+        used.add(stripped.lower())
+        ret[name] = stripped
+    return ret
-- 
2.43.0


From d61eeae4fe052f46057405b2f0e8e6bbb0538dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 137/220] fix: OCEL 2.0 JSON exporter crashed on the changes of
 objects without initial attributes

---
 .../objects/ocel/exporter/jsonocel/variants/ocel20_standard.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
index 8849068..3e5c1e6 100644
--- a/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py
@@ -98,7 +98,7 @@ def apply(ocel: OCEL, target_path: str, parameters: Optional[Dict[Any, Any]] = N
         oid = change["ocel:oid"]
         obj = json_object["objects"][obj_idx[oid]]
 
-        obj["attributes"].append(
+        obj.setdefault("attributes", []).append(
             {"name": change["ocel:field"], "time": change["ocel:timestamp"], "value": change[change["ocel:field"]]})
 
         json_object["objects"][obj_idx[oid]] = obj
-- 
2.43.0


From f070746cc4195a746ca1d50fddc054841a65a3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:32 +0000
Subject: [PATCH 138/220] fix: OCEL 2.0 JSON importer read the first change of
 an attribute without initial value as initial value, losing its timestamp

---
 .../ocel/importer/jsonocel/variants/ocel20_standard.py        | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
index cd705b2..416f2fb 100644
--- a/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
+++ b/pm4py/objects/ocel/importer/jsonocel/variants/ocel20_standard.py
@@ -79,7 +79,9 @@ def apply(file_path: str, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         dct["ocel:ovmap"] = {}
         if "attributes" in obj and obj["attributes"]:
             for x in obj["attributes"]:
-                if x["name"] in dct["ocel:ovmap"]:
+                # as in the XML importer, the initial values are marked by the epoch
+                initial = "time" not in x or str(x["time"]) == "0" or str(x["time"]).startswith("1970-01-01T00:00:00")
+                if not initial:
                     legacy_obj["ocel:objectChanges"].append({"ocel:oid": obj["id"], "ocel:type": obj["type"], "ocel:field": x["name"], x["name"]: x["value"], "ocel:timestamp": x["time"]})
                 else:
                     dct["ocel:ovmap"][x["name"]] = x["value"]
-- 
2.43.0


From c0711ad6584227654d450b798af0b691e02b468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 139/220] fix: the connected components of an OCEL ignored the
 objects that share no event with another object (filter_ocel_cc_*, split_ocel
 and sample_ocel_connected_components lost them)

---
 .../ocel/split_ocel/variants/connected_components.py          | 1 +
 pm4py/filtering.py                                            | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
index 22ac53b..b779ba1 100644
--- a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
+++ b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
@@ -57,6 +57,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
 
     g0 = object_interaction_graph.apply(ocel, parameters=parameters)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index 7b49ce3..efdcc44 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -1144,6 +1144,7 @@ def filter_ocel_cc_object(ocel: OCEL, object_id: str, conn_comp: Optional[List[L
 
         g0 = object_interaction_graph.apply(ocel)
         g = nx_utils.Graph()
+        g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
         for edge in g0:
             g.add_edge(edge[0], edge[1])
@@ -1187,6 +1188,7 @@ def filter_ocel_cc_length(ocel: OCEL, min_cc_length: int, max_cc_length: int) ->
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
@@ -1227,6 +1229,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
@@ -1265,6 +1268,7 @@ def filter_ocel_cc_activity(ocel: OCEL, activity: str) -> OCEL:
 
     g0 = object_interaction_graph.apply(ocel)
     g = nx_utils.Graph()
+    g.add_nodes_from(ocel.objects[ocel.object_id_column])
 
     for edge in g0:
         g.add_edge(edge[0], edge[1])
-- 
2.43.0


From a63b6328d0be043ba88483359daa49d45f9d0f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 140/220] fix: filter_ocel_cc_otype with positive=False kept
 the components having an object of another type, including those having an
 object of the given type

---
 pm4py/filtering.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pm4py/filtering.py b/pm4py/filtering.py
index efdcc44..926dd55 100644
--- a/pm4py/filtering.py
+++ b/pm4py/filtering.py
@@ -1220,10 +1220,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
         ocel = pm4py.read_ocel('log.jsonocel')
         filtered_ocel = pm4py.filter_ocel_cc_otype(ocel, 'order')
     """
-    if positive:
-        objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
-    else:
-        objs = set(ocel.objects[~(ocel.objects[ocel.object_type_column] == otype)][ocel.object_id_column])
+    objs = set(ocel.objects[ocel.objects[ocel.object_type_column] == otype][ocel.object_id_column])
 
     from pm4py.algo.transformation.ocel.graphs import object_interaction_graph
 
@@ -1235,7 +1232,7 @@ def filter_ocel_cc_otype(ocel: OCEL, otype: str, positive: bool = True) -> OCEL:
         g.add_edge(edge[0], edge[1])
 
     conn_comp = list(nx_utils.connected_components(g))
-    conn_comp = [x for x in conn_comp if len(set(x).intersection(objs)) > 0]
+    conn_comp = [x for x in conn_comp if (len(set(x).intersection(objs)) > 0) == positive]
 
     objs = [y for x in conn_comp for y in x]
 
-- 
2.43.0


From 401519edb35a9bc40385f46bda79cc8072ee7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 141/220] fix: split_ocel (connected components) and
 sample_ocel_connected_components lost the object-to-object and event-to-event
 relations, the attribute changes and the column names of the log

---
 .../variants/connected_components.py          |  9 ++++----
 pm4py/ocel.py                                 | 21 +++++++------------
 2 files changed, 11 insertions(+), 19 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
index b779ba1..70b5bfb 100644
--- a/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
+++ b/pm4py/algo/transformation/ocel/split_ocel/variants/connected_components.py
@@ -15,9 +15,11 @@
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
 from pm4py.objects.ocel.obj import OCEL
+from pm4py.objects.ocel.util import filtering_utils
 from typing import Optional, Dict, Any
 from pm4py.algo.transformation.ocel.graphs import object_interaction_graph
 from pm4py.util import exec_utils, pandas_utils, nx_utils
+from copy import copy
 from enum import Enum
 import sys
 
@@ -81,12 +83,9 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     ret = []
 
     for index, cc in enumerate(conn_comp):
-        subocel = OCEL()
+        subocel = copy(ocel)
         subocel.objects = ocel.objects[ocel.objects[ocel.object_id_column].isin(cc)]
-        subocel.relations = ocel.relations[ocel.relations[ocel.object_id_column].isin(cc)]
-        included_evs = pandas_utils.format_unique(subocel.relations[ocel.event_id_column].unique())
-        subocel.events = ocel.events[ocel.events[ocel.event_id_column].isin(included_evs)]
 
-        ret.append(subocel)
+        ret.append(filtering_utils.propagate_object_filtering(subocel, parameters=parameters))
 
     return ret
diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index d59103b..1e7959f 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -391,9 +391,6 @@ def sample_ocel_connected_components(ocel: OCEL, connected_components: int = 1,
     """
     from pm4py.algo.transformation.ocel.split_ocel import algorithm
     ocel_splits = algorithm.apply(ocel, variant=algorithm.Variants.CONNECTED_COMPONENTS)
-    events = None
-    objects = None
-    relations = None
     ocel_splits = [x for x in ocel_splits if
                    len(x.events) <= max_num_events_per_cc and len(x.objects) <= max_num_objects_per_cc and len(
                        x.relations) <= max_num_e2o_relations_per_cc]
@@ -401,17 +398,13 @@ def sample_ocel_connected_components(ocel: OCEL, connected_components: int = 1,
     if len(ocel_splits) > 0:
         ocel_splits = random.sample(ocel_splits, min(connected_components, len(ocel_splits)))
 
-    for cc in ocel_splits:
-        if events is None:
-            events = cc.events
-            objects = cc.objects
-            relations = cc.relations
-        else:
-            events = pandas_utils.concat([events, cc.events])
-            objects = pandas_utils.concat([objects, cc.objects])
-            relations = pandas_utils.concat([relations, cc.relations])
-
-    return OCEL(events, objects, relations)
+    from copy import copy
+    from pm4py.objects.ocel.util import filtering_utils
+    picked_objects = {obj for cc in ocel_splits for obj in cc.objects[cc.object_id_column]}
+    filtered_ocel = copy(ocel)
+    filtered_ocel.objects = ocel.objects[ocel.objects[ocel.object_id_column].isin(picked_objects)]
+
+    return filtering_utils.propagate_object_filtering(filtered_ocel)
 
 
 def ocel_drop_duplicates(ocel: OCEL) -> OCEL:
-- 
2.43.0


From 435977e6360c8f83f817dfe7c80bf32867765adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:06 +0000
Subject: [PATCH 142/220] fix: the objects per type of an event
 (filter_ocel_object_per_type_count, ocel_objects_ot_count) counted an object
 related with several qualifiers more than once

---
 pm4py/statistics/ocel/objects_ot_count.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/statistics/ocel/objects_ot_count.py b/pm4py/statistics/ocel/objects_ot_count.py
index f156d76..d6bd5e9 100644
--- a/pm4py/statistics/ocel/objects_ot_count.py
+++ b/pm4py/statistics/ocel/objects_ot_count.py
@@ -54,7 +54,8 @@ def get_objects_ot_count(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None
     object_id = exec_utils.get_param_value(Parameters.OBJECT_ID, parameters, ocel.object_id_column)
     object_type = exec_utils.get_param_value(Parameters.OBJECT_TYPE, parameters, ocel.object_type_column)
 
-    ref0 = ocel.relations.groupby(event_id)[object_type].agg(list).to_dict()
+    relations = ocel.relations.drop_duplicates(subset=[event_id, object_id])
+    ref0 = relations.groupby(event_id)[object_type].agg(list).to_dict()
     ref = {x: Counter(y) for x, y in ref0.items()}
 
     return ref
-- 
2.43.0


From 7c545504554c9e13fee9d958fb3e81179bdb37b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 143/220] fix: flattening repeated an event in a case when the
 event is related to the object with several qualifiers

---
 pm4py/objects/ocel/util/flattening.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/flattening.py b/pm4py/objects/ocel/util/flattening.py
index 80d1f09..ad67b1b 100644
--- a/pm4py/objects/ocel/util/flattening.py
+++ b/pm4py/objects/ocel/util/flattening.py
@@ -65,7 +65,7 @@ def flatten(ocel: OCEL, ot: str, parameters: Optional[Dict[Any, Any]] = None) ->
     objects = objects.rename(columns={x: constants.CASE_ATTRIBUTE_PREFIX + x for x in objects.columns})
 
     relations = ocel.relations[ocel.relations[ocel.object_type_column] == ot][
-        [ocel.object_id_column, ocel.event_id_column]]
+        [ocel.object_id_column, ocel.event_id_column]].drop_duplicates()
     relations = relations.rename(columns={ocel.object_id_column: constants.CASE_CONCEPT_NAME})
 
     objects = objects.merge(relations, on=constants.CASE_CONCEPT_NAME)
-- 
2.43.0


From 36b94ba1b848fadd7e8842c49df333f43d1daff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 144/220] fix: object-centric DFG: spurious self-loop edges and
 repeated event-object pairs when an event is related to an object with
 several qualifiers

---
 pm4py/statistics/ocel/act_utils.py    | 2 ++
 pm4py/statistics/ocel/edge_metrics.py | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pm4py/statistics/ocel/act_utils.py b/pm4py/statistics/ocel/act_utils.py
index 9073225..c4221ec 100644
--- a/pm4py/statistics/ocel/act_utils.py
+++ b/pm4py/statistics/ocel/act_utils.py
@@ -93,6 +93,8 @@ Dict[
                                                 ocel_constants.DEFAULT_EVENT_ACTIVITY)
     prefiltering = exec_utils.get_param_value(Parameters.PREFILTERING, parameters, "none")
 
+    relations_df = relations_df.drop_duplicates(subset=[event_id, object_id])
+
     if prefiltering == "start":
         relations_df = relations_df.groupby(object_id).first().reset_index()
     elif prefiltering == "end":
diff --git a/pm4py/statistics/ocel/edge_metrics.py b/pm4py/statistics/ocel/edge_metrics.py
index 92f8c92..4825f1e 100644
--- a/pm4py/statistics/ocel/edge_metrics.py
+++ b/pm4py/statistics/ocel/edge_metrics.py
@@ -215,7 +215,7 @@ def find_associations_per_edge(ocel: OCEL, parameters: Optional[Dict[Any, Any]]
     activities = ocel.events.groupby(event_id)[event_activity].agg(list).to_dict()
     activities = {x: y[0] for x, y in activities.items()}
 
-    omap = ocel.relations.groupby(event_id)[object_id].agg(list).to_dict()
+    omap = ocel.relations.drop_duplicates(subset=[event_id, object_id]).groupby(event_id)[object_id].agg(list).to_dict()
     objtypes = ocel.objects.groupby(object_id)[object_type].agg(list).to_dict()
     objtypes = {x: y[0] for x, y in objtypes.items()}
 
-- 
2.43.0


From 155245091e84ec3fc7578dfc8dafd56326f4d88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 145/220] fix: the descendants, inheritance, co-birth and
 co-death graphs failed (KeyError) on an event without related objects

---
 pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py | 2 +-
 pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py | 2 +-
 .../transformation/ocel/graphs/object_descendants_graph.py    | 2 +-
 .../transformation/ocel/graphs/object_inheritance_graph.py    | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py b/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
index 919be94..e7389c1 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_cobirth_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
diff --git a/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py b/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
index 198b257..b61b80f 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_codeath_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     ordered_events.reverse()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
diff --git a/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py b/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
index 5a79ce0..cf38ec3 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_descendants_graph.py
@@ -49,7 +49,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
         if rel_obj_seen and rel_obj_unseen:
diff --git a/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py b/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
index 08bab77..8c87c32 100644
--- a/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
+++ b/pm4py/algo/transformation/ocel/graphs/object_inheritance_graph.py
@@ -52,7 +52,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     ordered_events_revert.reverse()
 
     for ev in ordered_events_revert:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
 
@@ -63,7 +63,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Set[Tuple[
     set_objects = set()
 
     for ev in ordered_events:
-        rel_obj = ev_rel_obj[ev]
+        rel_obj = ev_rel_obj.get(ev, [])
         rel_obj_seen = {x for x in rel_obj if x in set_objects}
         rel_obj_unseen = {x for x in rel_obj if x not in rel_obj_seen}
         rel_obj_last = {x for x in rel_obj if last_event_per_obj[x] == ev}
-- 
2.43.0


From 2aa658c13d071b491072073d8c3f20ed5b9d2c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 146/220] fix: ocel_o2o_enrichment inserted the descendants
 graph under the name of the inheritance graph

---
 pm4py/algo/transformation/ocel/graphs/ocel20_computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
index b5ac28a..17e3578 100644
--- a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
+++ b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
@@ -66,7 +66,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         for el in graph:
             o2o.add((el[0], el[1], "object_descendants_graph"))
     if "object_inheritance_graph" in included_graphs:
-        graph = object_descendants_graph.apply(ocel, parameters=parameters)
+        graph = object_inheritance_graph.apply(ocel, parameters=parameters)
         for el in graph:
             o2o.add((el[0], el[1], "object_inheritance_graph"))
     if "object_cobirth_graph" in included_graphs:
-- 
2.43.0


From fca2767134c5a58b440bebde99ad2d63c3a2bdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 147/220] fix: ocel_e2o_lifecycle_enrichment qualified the
 creation/termination of an object as 'other' when the event is related to it
 with several qualifiers

---
 pm4py/objects/ocel/util/e2o_qualification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/e2o_qualification.py b/pm4py/objects/ocel/util/e2o_qualification.py
index fbda6be..d9d583d 100644
--- a/pm4py/objects/ocel/util/e2o_qualification.py
+++ b/pm4py/objects/ocel/util/e2o_qualification.py
@@ -45,7 +45,7 @@ def apply(ocel: OCEL, qualifier_type: str, parameters: Optional[Dict[Any, Any]]
         relations = {y + concatener + x: qualifier_type for x, y in relations.items()}
     elif qualifier_type == "other":
         relations0 = relations.agg(list).to_dict()
-        relations0 = {x: y[1:-1] for x, y in relations0.items()}
+        relations0 = {x: list(dict.fromkeys(y))[1:-1] for x, y in relations0.items()}
         relations0 = {x: y for x, y in relations0.items() if y}
         relations = {}
         for x, y in relations0.items():
-- 
2.43.0


From 9f71e545b75761315aa61413b8fa76fd92a52526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:33 +0000
Subject: [PATCH 148/220] fix: the events/objects per type and activity counted
 an event-object pair once per qualifier

---
 pm4py/objects/ocel/util/events_per_type_per_activity.py  | 2 +-
 pm4py/objects/ocel/util/objects_per_type_per_activity.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/ocel/util/events_per_type_per_activity.py b/pm4py/objects/ocel/util/events_per_type_per_activity.py
index 1847bef..10575ce 100644
--- a/pm4py/objects/ocel/util/events_per_type_per_activity.py
+++ b/pm4py/objects/ocel/util/events_per_type_per_activity.py
@@ -69,7 +69,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Dict[str,
             ret[act] = {}
         df = ocel.relations[ocel.relations[event_activity] == act]
         for ot in object_types:
-            all_counts = list(df[df[object_type] == ot].groupby(object_id)[event_id].agg("count").to_dict().values())
+            all_counts = list(df[df[object_type] == ot].groupby(object_id)[event_id].agg("nunique").to_dict().values())
             if all_counts:
                 ret[act][ot] = {"min": min(all_counts), "max": max(all_counts), "mean": mean(all_counts),
                                 "median": median(all_counts)}
diff --git a/pm4py/objects/ocel/util/objects_per_type_per_activity.py b/pm4py/objects/ocel/util/objects_per_type_per_activity.py
index 6785717..b233f78 100644
--- a/pm4py/objects/ocel/util/objects_per_type_per_activity.py
+++ b/pm4py/objects/ocel/util/objects_per_type_per_activity.py
@@ -69,7 +69,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Dict[str,
             ret[act] = {}
         df = ocel.relations[ocel.relations[event_activity] == act]
         for ot in object_types:
-            all_counts = list(df[df[object_type] == ot].groupby(event_id)[object_id].agg("count").to_dict().values())
+            all_counts = list(df[df[object_type] == ot].groupby(event_id)[object_id].agg("nunique").to_dict().values())
             if all_counts:
                 ret[act][ot] = {"min": min(all_counts), "max": max(all_counts), "mean": mean(all_counts),
                                 "median": median(all_counts)}
-- 
2.43.0


From ebcda56fc1582ed903bd12a21ce9c5483fab9ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:04 +0000
Subject: [PATCH 149/220] fix: the objects and the interactions summaries
 repeated an event of an object related to it with several qualifiers

---
 pm4py/ocel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index 1e7959f..eaa7938 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -158,7 +158,8 @@ def ocel_objects_summary(ocel: OCEL) -> pd.DataFrame:
 
         objects_summary = pm4py.ocel_objects_summary(ocel)
     """
-    gdf = ocel.relations.groupby(ocel.object_id_column)
+    relations = ocel.relations.drop_duplicates(subset=[ocel.event_id_column, ocel.object_id_column])
+    gdf = relations.groupby(ocel.object_id_column)
     act_comb = gdf[ocel.event_activity].agg(list).to_frame().rename(columns={ocel.event_activity: "activities_lifecycle"})
     lif_start_tim = gdf[ocel.event_timestamp].min().to_frame().rename(columns={ocel.event_timestamp: "lifecycle_start"})
     lif_end_tim = gdf[ocel.event_timestamp].max().to_frame().rename(columns={ocel.event_timestamp: "lifecycle_end"})
@@ -196,7 +197,8 @@ def ocel_objects_interactions_summary(ocel: OCEL) -> pd.DataFrame:
     """
     obj_types = ocel.objects.groupby(ocel.object_id_column)[ocel.object_type_column].first().to_dict()
     eve_activities = ocel.events.groupby(ocel.event_id_column)[ocel.event_activity].first().to_dict()
-    ev_rel_obj = ocel.relations.groupby(ocel.event_id_column)[ocel.object_id_column].agg(list).to_dict()
+    relations = ocel.relations.drop_duplicates(subset=[ocel.event_id_column, ocel.object_id_column])
+    ev_rel_obj = relations.groupby(ocel.event_id_column)[ocel.object_id_column].agg(list).to_dict()
     stream = []
     for ev in ev_rel_obj:
         rel_obj = ev_rel_obj[ev]
-- 
2.43.0


From 6129a994387068ab4609595d40e6a5a763dacc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:04 +0000
Subject: [PATCH 150/220] fix: ocel_merge_duplicates replaced the identifiers
 of the events without related objects by a missing value, and left
 event-to-event relations to identifiers that do not exist

---
 pm4py/ocel.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index eaa7938..dd21769 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -464,8 +464,10 @@ def ocel_merge_duplicates(ocel: OCEL, have_common_object: Optional[bool]=False)
     relations = relations.groupby(ocel.event_id_column).first()["@@groupn"].to_dict()
     relations = {x: val_corr[y] for x, y in relations.items()}
 
-    ocel.events[ocel.event_id_column] = ocel.events[ocel.event_id_column].map(relations)
-    ocel.relations[ocel.event_id_column] = ocel.relations[ocel.event_id_column].map(relations)
+    # the events without related objects keep their identifier
+    for table, column in ((ocel.events, ocel.event_id_column), (ocel.relations, ocel.event_id_column),
+                          (ocel.e2e, ocel.event_id_column), (ocel.e2e, ocel.event_id_column + "_2")):
+        table[column] = table[column].map(relations).fillna(table[column])
 
     ocel.events = ocel.events.drop_duplicates(subset=[ocel.event_id_column])
     ocel.relations = ocel.relations.drop_duplicates(subset=[ocel.event_id_column, ocel.object_id_column])
-- 
2.43.0


From 6354d373b383b15809acbab87195af2f1c1291e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:04 +0000
Subject: [PATCH 151/220] fix: ocel_drop_duplicates, ocel_merge_duplicates,
 ocel_sort_by_additional_column, ocel_add_index_based_timedelta and
 ocel_e2o_lifecycle_enrichment modified the OCEL passed to them

---
 pm4py/objects/ocel/util/e2o_qualification.py | 1 +
 pm4py/ocel.py                                | 9 ++++++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/e2o_qualification.py b/pm4py/objects/ocel/util/e2o_qualification.py
index d9d583d..f198c37 100644
--- a/pm4py/objects/ocel/util/e2o_qualification.py
+++ b/pm4py/objects/ocel/util/e2o_qualification.py
@@ -34,6 +34,7 @@ def apply(ocel: OCEL, qualifier_type: str, parameters: Optional[Dict[Any, Any]]
     concat_column = exec_utils.get_param_value(Parameters.CONCAT_COLUMN, parameters, "@@concat")
 
     ocel = copy(ocel)
+    ocel.relations = ocel.relations.copy()
     ocel.relations[concat_column] = ocel.relations[ocel.event_id_column] + concatener + ocel.relations[ocel.object_id_column]
     relations = ocel.relations.groupby(ocel.object_id_column)[ocel.event_id_column]
 
diff --git a/pm4py/ocel.py b/pm4py/ocel.py
index dd21769..442e975 100644
--- a/pm4py/ocel.py
+++ b/pm4py/ocel.py
@@ -426,7 +426,9 @@ def ocel_drop_duplicates(ocel: OCEL) -> OCEL:
         ocel = pm4py.ocel_drop_duplicates(ocel)
 
     """
+    from copy import copy
     from pm4py.objects.ocel.util import filtering_utils
+    ocel = copy(ocel)
     ocel.relations = ocel.relations.drop_duplicates(
         subset=[ocel.event_activity, ocel.event_timestamp, ocel.object_id_column])
     ocel = filtering_utils.propagate_relations_filtering(ocel)
@@ -451,6 +453,7 @@ def ocel_merge_duplicates(ocel: OCEL, have_common_object: Optional[bool]=False)
     """
     import copy
     import uuid
+    ocel = copy.deepcopy(ocel)
     relations = copy.copy(ocel.relations)
     if have_common_object:
         relations["@@groupn"] = relations.groupby([ocel.object_id_column, ocel.event_activity, ocel.event_timestamp]).ngroup()
@@ -495,7 +498,9 @@ def ocel_sort_by_additional_column(ocel: OCEL, additional_column: str, primary_c
         ocel = pm4py.ocel_sort_by_additional_column(ocel, 'ordering')
 
     """
-    ocel.events = pandas_utils.insert_index(ocel.events, "@@index", reset_index=False, copy_dataframe=False)
+    from copy import copy
+    ocel = copy(ocel)
+    ocel.events = pandas_utils.insert_index(ocel.events, "@@index", reset_index=False)
     ocel.events = ocel.events.sort_values([primary_column, additional_column, "@@index"])
     del ocel.events["@@index"]
     ocel.events = ocel.events.reset_index(drop=True)
@@ -519,7 +524,9 @@ def ocel_add_index_based_timedelta(ocel: OCEL) -> OCEL:
         ocel = pm4py.ocel_add_index_based_timedelta(ocel)
 
     """
+    from copy import deepcopy
     from datetime import timedelta
+    ocel = deepcopy(ocel)
     eids = ocel.events[ocel.event_id_column].to_numpy().tolist()
     eids = {eids[i]: timedelta(milliseconds=i) for i in range(len(eids))}
     ocel.events["@@timedelta"] = ocel.events[ocel.event_id_column].map(eids)
-- 
2.43.0


From 3e7a4aaf30fa58db28db7b45fdb9f4712ddbb0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 152/220] fix: ocel_o2o_enrichment: missing import of the
 inheritance graph (completes the previous repair)

---
 pm4py/algo/transformation/ocel/graphs/ocel20_computation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
index 17e3578..7b24950 100644
--- a/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
+++ b/pm4py/algo/transformation/ocel/graphs/ocel20_computation.py
@@ -17,7 +17,7 @@
 
 from enum import Enum
 from pm4py.util import exec_utils, pandas_utils
-from pm4py.algo.transformation.ocel.graphs import object_interaction_graph, object_descendants_graph, object_cobirth_graph, object_codeath_graph
+from pm4py.algo.transformation.ocel.graphs import object_interaction_graph, object_descendants_graph, object_inheritance_graph, object_cobirth_graph, object_codeath_graph
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
 from copy import copy
-- 
2.43.0


From e8c9444af0e38a88c189b6ee1731dc4a814cb01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:37 +0000
Subject: [PATCH 153/220] fix: convert_log_to_ocel left events and relations in
 the row order of the log, so the lifecycle of an object occurring in several
 cases was not in time order in the flattened log and in the object-centric
 DFG

---
 pm4py/objects/ocel/util/log_ocel.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/objects/ocel/util/log_ocel.py b/pm4py/objects/ocel/util/log_ocel.py
index 9006bf8..c713c50 100644
--- a/pm4py/objects/ocel/util/log_ocel.py
+++ b/pm4py/objects/ocel/util/log_ocel.py
@@ -390,6 +390,10 @@ def log_to_ocel_multiple_obj_types(log_obj: Union[EventLog, EventStream, pd.Data
     relations = pandas_utils.instantiate_dataframe(relations)
     relations = relations.drop_duplicates(subset=[ocel_constants.DEFAULT_EVENT_ID, ocel_constants.DEFAULT_OBJECT_ID])
 
+    # as after the importers, the events of an object log are in the order of time
+    events = events.sort_values(ocel_constants.DEFAULT_EVENT_TIMESTAMP, kind="stable")
+    relations = relations.sort_values(ocel_constants.DEFAULT_EVENT_TIMESTAMP, kind="stable")
+
     ocel = OCEL(events=events, objects=objects, relations=relations)
     ocel = ocel_consistency.apply(ocel)
 
-- 
2.43.0


From 388b8a2f5cd73f88a6c25f2885f7733e0f32ba36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 154/220] fix: discover_oc_petri_net failed (KeyError) on a log
 with an object type whose objects are not related to any event

---
 pm4py/algo/discovery/ocel/ocpn/variants/classic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/algo/discovery/ocel/ocpn/variants/classic.py b/pm4py/algo/discovery/ocel/ocpn/variants/classic.py
index cbc9163..c3d7efd 100644
--- a/pm4py/algo/discovery/ocel/ocpn/variants/classic.py
+++ b/pm4py/algo/discovery/ocel/ocpn/variants/classic.py
@@ -107,6 +107,10 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> Dict[str,
     tbr_results = {}
 
     for ot in ocpn["object_types"]:
+        if ot not in ocpn["activities_ot"]["total_objects"]:
+            # no object of this type is related to an event
+            continue
+
         activities_eo = ocpn["activities_ot"]["total_objects"][ot]
 
         start_activities = {x: len(y) for x, y in ocpn["start_activities"]["events"][ot].items()}
-- 
2.43.0


From 149dc24b3cb582e63f04e4550b818cf3819b53e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 155/220] fix: the subcontracting network counted only the
 first subcontracting occurrence of each resource (the result depended on the
 order of the variants)

---
 .../sna/variants/log/subcontracting.py                 | 10 +++++-----
 .../sna/variants/pandas/subcontracting.py              | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py b/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
index e222f68..b5fc68f 100644
--- a/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
+++ b/pm4py/algo/organizational_mining/sna/variants/log/subcontracting.py
@@ -82,11 +82,11 @@ def apply(log: EventLog, parameters: Optional[Dict[Union[str, Parameters], Any]]
             if res_i == res_i_n:
                 if res_i not in sum_i_to_j:
                     sum_i_to_j[res_i] = {}
-                    for j in range(i + 1, i + n):
-                        res_j = flat_list.index(rv[j])
-                        if res_j not in sum_i_to_j[res_i]:
-                            sum_i_to_j[res_i][res_j] = 0
-                        sum_i_to_j[res_i][res_j] += variants_occ[rvj]
+                for j in range(i + 1, i + n):
+                    res_j = flat_list.index(rv[j])
+                    if res_j not in sum_i_to_j[res_i]:
+                        sum_i_to_j[res_i][res_j] = 0
+                    sum_i_to_j[res_i][res_j] += variants_occ[rvj]
 
     connections = {}
     for key1 in sum_i_to_j:
diff --git a/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py b/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
index b3a1dbe..dcc761d 100644
--- a/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
+++ b/pm4py/algo/organizational_mining/sna/variants/pandas/subcontracting.py
@@ -85,11 +85,11 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
             if res_i == res_i_n:
                 if res_i not in sum_i_to_j:
                     sum_i_to_j[res_i] = {}
-                    for j in range(i + 1, i + n):
-                        res_j = flat_list.index(rv[j])
-                        if res_j not in sum_i_to_j[res_i]:
-                            sum_i_to_j[res_i][res_j] = 0
-                        sum_i_to_j[res_i][res_j] += variants_occ[rvj]
+                for j in range(i + 1, i + n):
+                    res_j = flat_list.index(rv[j])
+                    if res_j not in sum_i_to_j[res_i]:
+                        sum_i_to_j[res_i][res_j] = 0
+                    sum_i_to_j[res_i][res_j] += variants_occ[rvj]
 
     connections = {}
     for key1 in sum_i_to_j:
-- 
2.43.0


From fafc2ce64925743eaacf1c516e8989fc4252b60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 156/220] fix: the working together network of a dataframe
 divided by the number of events instead of the number of cases

---
 .../sna/variants/pandas/working_together.py                  | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
index cdcccc7..5918baa 100644
--- a/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
+++ b/pm4py/algo/organizational_mining/sna/variants/pandas/working_together.py
@@ -70,6 +70,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
     flat_list = sorted(list(set([item for sublist in resources for item in sublist])))
 
     connections = Counter()
+    num_cases = sum(variants_occ.values())
 
     for idx, rv in enumerate(resources):
         rvj = variants_resources[idx]
@@ -79,7 +80,7 @@ def apply(log: pd.DataFrame, parameters: Optional[Dict[Union[str, Parameters], A
             res_i = flat_list.index(ord_res_list[i])
             for j in range(i + 1, len(ord_res_list)):
                 res_j = flat_list.index(ord_res_list[j])
-                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / float(len(log))
-                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / float(len(log))
+                connections[(flat_list[res_i], flat_list[res_j])] += float(variants_occ[rvj]) / float(num_cases)
+                connections[(flat_list[res_j], flat_list[res_i])] += float(variants_occ[rvj]) / float(num_cases)
 
     return SNA(dict(connections), False)
-- 
2.43.0


From 06fc498bc493b867f177207477f6f33b101ebafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 157/220] fix: the standard deviation in the performance DFG of
 a dataframe was NaN for paths seen once (0 for an event log, and in the
 temporal profile)

---
 pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
index 6c0275c..8cc569b 100644
--- a/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
+++ b/pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py
@@ -153,7 +153,7 @@ def get_dfg_graph(df, measure="frequency", activity_key="concept:name", case_id_
             dfg_performance_max = directly_follows_grouping.agg("max").to_dict()
             dfg_performance_min = directly_follows_grouping.agg("min").to_dict()
             dfg_performance_sum = directly_follows_grouping.agg("sum").to_dict()
-            dfg_performance_std = directly_follows_grouping.agg("std").to_dict()
+            dfg_performance_std = directly_follows_grouping.agg("std").fillna(0).to_dict()
             dfg_performance = {}
             for key in dfg_performance_mean:
                 dfg_performance[key] = {"mean": dfg_performance_mean[key], "median": dfg_performance_median[key], "max": dfg_performance_max[key], "min": dfg_performance_min[key], "sum": dfg_performance_sum[key], "stdev": dfg_performance_std[key]}
-- 
2.43.0


From 089121ab7dc538771e4bcb5781e652835cb6810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 158/220] fix: the ETConformance precision of a dataframe
 weighted the initial state by the number of events instead of the number of
 cases

---
 .../evaluation/precision/variants/align_etconformance.py     | 5 +++--
 .../evaluation/precision/variants/etconformance_token.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/evaluation/precision/variants/align_etconformance.py b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
index 074aff5..3c46ba1 100644
--- a/pm4py/algo/evaluation/precision/variants/align_etconformance.py
+++ b/pm4py/algo/evaluation/precision/variants/align_etconformance.py
@@ -125,8 +125,9 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], net: PetriNet, markin
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    num_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += num_cases * len(trans_en_ini_marking)
+    sum_ee += num_cases * len(diff)
     # end fix
 
     if sum_at > 0:
diff --git a/pm4py/algo/evaluation/precision/variants/etconformance_token.py b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
index bee67dc..96575ea 100644
--- a/pm4py/algo/evaluation/precision/variants/etconformance_token.py
+++ b/pm4py/algo/evaluation/precision/variants/etconformance_token.py
@@ -117,8 +117,9 @@ def apply(log: EventLog, net: PetriNet, marking: Marking, final_marking: Marking
     start_activities = set(get_start_activities(log, parameters=parameters))
     trans_en_ini_marking = set([x.label for x in get_visible_transitions_eventually_enabled_by_marking(net, marking)])
     diff = trans_en_ini_marking.difference(start_activities)
-    sum_at += len(log) * len(trans_en_ini_marking)
-    sum_ee += len(log) * len(diff)
+    num_cases = log[case_id_key].nunique() if type(log) is pd.DataFrame else len(log)
+    sum_at += num_cases * len(trans_en_ini_marking)
+    sum_ee += num_cases * len(diff)
     # end fix
 
     for i in range(len(aligned_traces)):
-- 
2.43.0


From 2903cc326675e68755554a46caca87ba0303736a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:20 +0000
Subject: [PATCH 159/220] fix: get_minimum_self_distance_witnesses ignored the
 activity and case id keys given by the user

---
 pm4py/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/stats.py b/pm4py/stats.py
index e62cac7..1012b0c 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -469,7 +469,8 @@ def get_minimum_self_distance_witnesses(log: Union[EventLog, pd.DataFrame], acti
 
     from pm4py.algo.discovery.minimum_self_distance import algorithm as msd_algo
     from pm4py.algo.discovery.minimum_self_distance import utils as msdw_algo
-    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)))
+    properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    return msdw_algo.derive_msd_witnesses(log, msd_algo.apply(log, parameters=properties), parameters=properties)
 
 
 def get_case_arrival_average(log: Union[EventLog, pd.DataFrame], activity_key: str = "concept:name", timestamp_key: str = "time:timestamp", case_id_key: str = "case:concept:name") -> float:
-- 
2.43.0


From 868d95f11f744673f31f00a881f831d9c486f3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 160/220] fix: extract_features_dataframe merged (overwrote)
 the features of different string values having the same ASCII name without
 spaces

---
 pm4py/objects/log/util/dataframe_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/dataframe_utils.py b/pm4py/objects/log/util/dataframe_utils.py
index c4d84ef..555c4af 100644
--- a/pm4py/objects/log/util/dataframe_utils.py
+++ b/pm4py/objects/log/util/dataframe_utils.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from collections import Counter
 from enum import Enum
 from typing import Optional, Dict, Any, List
 
@@ -345,10 +346,13 @@ def select_string_column(df: pd.DataFrame, fea_df: pd.DataFrame, col: str,
         Feature dataframe (desidered output)
     """
     vals = pandas_utils.format_unique(df[col].unique())
+    names = {val: val.encode('ascii', errors='ignore').decode('ascii').replace(" ", "") for val in vals if val is not None}
+    occurrences = Counter(names.values())
     for val in vals:
         if val is not None:
             filt_df_cases = pandas_utils.format_unique(df[df[col] == val][case_id_key].unique())
-            new_col = col + "_" + val.encode('ascii', errors='ignore').decode('ascii').replace(" ", "")
+            # different values may have the same simplified name: they keep their own name
+            new_col = col + "_" + (names[val] if occurrences[names[val]] == 1 else val)
             fea_df[new_col] = fea_df[case_id_key].isin(filt_df_cases)
             fea_df[new_col] = fea_df[new_col].astype(np.float32)
     return fea_df
-- 
2.43.0


From 8d190b7ff674f5e4f6158069f8ccdd5e08b59859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:04 +0000
Subject: [PATCH 161/220] fix: exporting an OCEL modified it (column types,
 removal of the inconsistent rows)

---
 pm4py/objects/ocel/util/ocel_consistency.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pm4py/objects/ocel/util/ocel_consistency.py b/pm4py/objects/ocel/util/ocel_consistency.py
index 009bc6d..11e8b7f 100644
--- a/pm4py/objects/ocel/util/ocel_consistency.py
+++ b/pm4py/objects/ocel/util/ocel_consistency.py
@@ -16,6 +16,7 @@
 '''
 
 from pm4py.objects.ocel.obj import OCEL
+from copy import copy
 from typing import Optional, Dict, Any
 
 
@@ -48,6 +49,9 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> OCEL:
         "object_changes": ["ocel:oid"]
     }
 
+    # the object-centric log given by the user is left as it is
+    ocel = copy(ocel)
+
     for tab in fields:
         df = getattr(ocel, tab)
         for fie in fields[tab]:
-- 
2.43.0


From 50f9e699ac7231676ecf96e34566882a7d913f7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 162/220] fix: insert_artificial_start_end inserted the
 artificial events in the event log given by the user (twice when called
 twice)

---
 pm4py/objects/log/util/artificial.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/log/util/artificial.py b/pm4py/objects/log/util/artificial.py
index 3fc19db..7e7b671 100644
--- a/pm4py/objects/log/util/artificial.py
+++ b/pm4py/objects/log/util/artificial.py
@@ -18,7 +18,7 @@ from enum import Enum
 from typing import Optional, Dict, Any
 
 from pm4py.objects.log.obj import Event
-from pm4py.objects.log.obj import EventLog
+from pm4py.objects.log.obj import EventLog, Trace
 from pm4py.util import constants
 from pm4py.util import exec_utils
 from pm4py.util import xes_constants
@@ -61,6 +61,8 @@ def insert_artificial_start_end(log: EventLog, parameters: Optional[Dict[Any, An
     artificial_end_activity = exec_utils.get_param_value(Parameters.PARAM_ARTIFICIAL_END_ACTIVITY, parameters,
                                                          constants.DEFAULT_ARTIFICIAL_END_ACTIVITY)
 
+    enriched_log = EventLog(attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present, classifiers=log.classifiers, properties=log.properties)
+
     for trace in log:
         start_event = Event({activity_key: artificial_start_activity})
         end_event = Event({activity_key: artificial_end_activity})
@@ -69,7 +71,6 @@ def insert_artificial_start_end(log: EventLog, parameters: Optional[Dict[Any, An
                 start_event[timestamp_key] = trace[0][timestamp_key] - datetime.timedelta(seconds=1)
             if timestamp_key in trace[-1]:
                 end_event[timestamp_key] = trace[-1][timestamp_key] + datetime.timedelta(seconds=1)
-        trace.insert(0, start_event)
-        trace.append(end_event)
+        enriched_log.append(Trace([start_event, *trace, end_event], attributes=trace.attributes, properties=trace.properties))
 
-    return log
+    return enriched_log
-- 
2.43.0


From 8b6afa0070c14df868534195b62ec6f86039be88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:16 +0000
Subject: [PATCH 163/220] fix: insert_case_arrival_finish_rate,
 insert_case_service_waiting_time and extract_temporal_features_dataframe
 added columns to the dataframe given by the user

---
 pm4py/util/pandas_utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/util/pandas_utils.py b/pm4py/util/pandas_utils.py
index 634f9b9..82e1adc 100644
--- a/pm4py/util/pandas_utils.py
+++ b/pm4py/util/pandas_utils.py
@@ -230,6 +230,7 @@ def insert_case_arrival_finish_rate(log: pd.DataFrame, case_id_column=constants.
     case_finish[0][1] = 0
     case_finish = {x[0]: x[1] for x in case_finish}
 
+    log = log.copy()
     log[arrival_rate_column] = log[case_id_column].map(case_arrival)
     log[finish_rate_column] = log[case_id_column].map(case_finish)
 
@@ -255,6 +256,7 @@ def insert_case_service_waiting_time(log: pd.DataFrame, case_id_column=constants
     if start_timestamp_column is None:
         start_timestamp_column = timestamp_column
 
+    log = log.copy()
     log[diff_start_end_column] = get_total_seconds(log[timestamp_column] - log[start_timestamp_column])
     service_times = log.groupby(case_id_column)[diff_start_end_column].sum().to_dict()
     log[service_time_column] = log[case_id_column].map(service_times)
-- 
2.43.0


From 8618a722afbe9b88aed89b960e1d9b96a740af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:24 +0000
Subject: [PATCH 164/220] fix: the social network functions failed (ValueError)
 on logs where no two resources are connected

---
 pm4py/algo/organizational_mining/sna/algorithm.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/organizational_mining/sna/algorithm.py b/pm4py/algo/organizational_mining/sna/algorithm.py
index c42847e..61507f0 100644
--- a/pm4py/algo/organizational_mining/sna/algorithm.py
+++ b/pm4py/algo/organizational_mining/sna/algorithm.py
@@ -83,8 +83,9 @@ def apply(log: Union[EventLog, pd.DataFrame], parameters: Optional[Dict[Union[st
                    Variants.SUBCONTRACTING_LOG]:
         log = log_conversion.apply(log, variant=log_conversion.Variants.TO_EVENT_LOG, parameters=parameters)
     sna = exec_utils.get_variant(variant).apply(log, parameters=parameters)
-    abs_max = np.max(np.abs(list(sna.connections.values())))
-    if enable_metric_normalization and abs_max > 0:
-        for key in sna.connections:
-            sna.connections[key] = sna.connections[key] / abs_max
+    if enable_metric_normalization and sna.connections:
+        abs_max = np.max(np.abs(list(sna.connections.values())))
+        if abs_max > 0:
+            for key in sna.connections:
+                sna.connections[key] = sna.connections[key] / abs_max
     return sna
-- 
2.43.0


From 90c6fb359bc80f49ccba6c3974e43b662b623488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:50:24 +0000
Subject: [PATCH 165/220] fix: get_variants_paths_duration failed
 (AttributeError) on an event log

---
 pm4py/stats.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/stats.py b/pm4py/stats.py
index 1012b0c..64f2fb9 100644
--- a/pm4py/stats.py
+++ b/pm4py/stats.py
@@ -346,7 +346,8 @@ def get_variants_paths_duration(log: Union[EventLog, pd.DataFrame], activity_key
         print(var_paths_durs)
     """
     __event_log_deprecation_warning(log)
-    check_pandas_dataframe_columns(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    if check_is_pandas_dataframe(log):
+        check_pandas_dataframe_columns(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
 
     list_to_concat = []
     for variant, filtered_log in split_by_process_variant(log, activity_key=activity_key, timestamp_key=timestamp_key,
-- 
2.43.0


From 5a968cd9884053c55c76da3b01ef741364ef9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:44 +0000
Subject: [PATCH 166/220] fix: the decomposed alignments stored their caches in
 the parameters given by the user, so a following call with the same
 parameters and another net used the alignments of the first net

---
 .../alignments/decomposed/variants/recompos_maximal.py          | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
index 9b371c6..c286856 100644
--- a/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
+++ b/pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py
@@ -146,6 +146,7 @@ def apply(log: EventLog, net: PetriNet, im: Marking, fm: Marking, parameters: Op
     log = log_converter.apply(log, variant=log_converter.Variants.TO_EVENT_LOG, parameters=parameters)
 
     best_worst_cost = get_best_worst_cost(net, im, fm, parameters=parameters)
+    parameters = copy(parameters)
     parameters[Parameters.BEST_WORST_COST] = best_worst_cost
 
     list_nets = decomp_utils.decompose(net, im, fm)
@@ -179,6 +180,7 @@ def apply_log(log, list_nets, parameters=None):
     icache = exec_utils.get_param_value(Parameters.ICACHE, parameters, dict())
     mcache = exec_utils.get_param_value(Parameters.MCACHE, parameters, dict())
 
+    parameters = copy(parameters)
     parameters[Parameters.ICACHE] = icache
     parameters[Parameters.MCACHE] = mcache
 
-- 
2.43.0


From 9082d221e4ef4f1ae07ec9c6333ef7ecca0a71e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:49 +0000
Subject: [PATCH 167/220] fix: the parameters given by the user were modified
 by the performance spectrum, the profile clustering, the OCEL feature
 extraction, the tree generator and the attribute threshold filter

---
 pm4py/algo/clustering/profiles/variants/sklearn_profiles.py     | 1 +
 pm4py/algo/discovery/performance_spectrum/variants/log.py       | 1 +
 .../discovery/performance_spectrum/variants/log_disconnected.py | 1 +
 pm4py/algo/filtering/log/attributes/attributes_filter.py        | 1 +
 .../simulation/tree_generator/variants/ptandloggenerator.py     | 2 ++
 pm4py/algo/transformation/ocel/features/events/algorithm.py     | 1 +
 .../transformation/ocel/features/events_objects/algorithm.py    | 1 +
 pm4py/algo/transformation/ocel/features/objects/algorithm.py    | 1 +
 8 files changed, 9 insertions(+)

diff --git a/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py b/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
index ac90a07..4c86bd2 100644
--- a/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
+++ b/pm4py/algo/clustering/profiles/variants/sklearn_profiles.py
@@ -57,6 +57,7 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     from pm4py.util import ml_utils
     clusterer = exec_utils.get_param_value(Parameters.SKLEARN_CLUSTERER, parameters, ml_utils.KMeans(n_clusters=2, random_state=0, n_init="auto"))
 
+    parameters = dict(parameters)
     if "enable_activity_def_representation" not in parameters:
         parameters["enable_activity_def_representation"] = True
 
diff --git a/pm4py/algo/discovery/performance_spectrum/variants/log.py b/pm4py/algo/discovery/performance_spectrum/variants/log.py
index 6f121a7..33a97e4 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/log.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/log.py
@@ -64,6 +64,7 @@ def apply(log: EventLog, list_activities: List[str], sample_size: int, parameter
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes.DEFAULT_TIMESTAMP_KEY)
     sort_log_required = exec_utils.get_param_value(Parameters.SORT_LOG_REQUIRED, parameters, True)
 
+    parameters = dict(parameters)
     parameters[Parameters.ATTRIBUTE_KEY] = activity_key
     log = basic_filter.filter_log_events_attr(log, list_activities, parameters=parameters)
     if sort_log_required:
diff --git a/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py b/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
index 57915f0..11fa9c8 100644
--- a/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
+++ b/pm4py/algo/discovery/performance_spectrum/variants/log_disconnected.py
@@ -70,6 +70,7 @@ def apply(log: EventLog, list_activities: List[str], sample_size: int, parameter
     timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes.DEFAULT_TIMESTAMP_KEY)
     case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, xes.DEFAULT_TRACEID_KEY)
 
+    parameters = dict(parameters)
     parameters[Parameters.ATTRIBUTE_KEY] = activity_key
     log = basic_filter.filter_log_events_attr(log, list_activities, parameters=parameters)
     if sort_log_required:
diff --git a/pm4py/algo/filtering/log/attributes/attributes_filter.py b/pm4py/algo/filtering/log/attributes/attributes_filter.py
index 55da2ce..01bb3a0 100644
--- a/pm4py/algo/filtering/log/attributes/attributes_filter.py
+++ b/pm4py/algo/filtering/log/attributes/attributes_filter.py
@@ -329,6 +329,7 @@ def filter_log_on_max_no_activities(log: EventLog, max_no_activities : int = 25,
 
     activity_key = parameters[
         PARAMETER_CONSTANT_ACTIVITY_KEY] if PARAMETER_CONSTANT_ACTIVITY_KEY in parameters else DEFAULT_NAME_KEY
+    parameters = dict(parameters)
     parameters[PARAMETER_CONSTANT_ATTRIBUTE_KEY] = activity_key
     all_activities = sorted([(x, y) for x, y in get_attribute_values(log, activity_key).items()], key=lambda x: x[1],
                             reverse=True)
diff --git a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
index 405615b..4d08f90 100644
--- a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
+++ b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
@@ -88,6 +88,8 @@ def apply(parameters: Optional[Dict[Union[str, Parameters], Any]] = None) -> obj
     if parameters is None:
         parameters = {}
 
+    parameters = dict(parameters)
+
     if not "mode" in parameters:
         parameters["mode"] = 20
     if not "min" in parameters:
diff --git a/pm4py/algo/transformation/ocel/features/events/algorithm.py b/pm4py/algo/transformation/ocel/features/events/algorithm.py
index b4f9c5c..42baa2b 100644
--- a/pm4py/algo/transformation/ocel/features/events/algorithm.py
+++ b/pm4py/algo/transformation/ocel/features/events/algorithm.py
@@ -87,6 +87,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     enable_related_objects_features = exec_utils.get_param_value(Parameters.ENABLE_RELATED_OBJECTS_FEATURES, parameters, False)
 
     ordered_events = ocel.events[ocel.event_id_column].to_numpy()
+    parameters = dict(parameters)
     parameters["ordered_events"] = ordered_events
 
     datas = [[] for x in ordered_events]
diff --git a/pm4py/algo/transformation/ocel/features/events_objects/algorithm.py b/pm4py/algo/transformation/ocel/features/events_objects/algorithm.py
index 66d68ad..86ee36e 100644
--- a/pm4py/algo/transformation/ocel/features/events_objects/algorithm.py
+++ b/pm4py/algo/transformation/ocel/features/events_objects/algorithm.py
@@ -61,6 +61,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
 
     exploded_ocel = explode.apply(ocel)
     ordered_events = exploded_ocel.events[exploded_ocel.event_id_column].to_numpy()
+    parameters = dict(parameters)
     parameters["ordered_events"] = ordered_events
 
     datas = []
diff --git a/pm4py/algo/transformation/ocel/features/objects/algorithm.py b/pm4py/algo/transformation/ocel/features/objects/algorithm.py
index af94161..cdb9dcc 100644
--- a/pm4py/algo/transformation/ocel/features/objects/algorithm.py
+++ b/pm4py/algo/transformation/ocel/features/objects/algorithm.py
@@ -126,6 +126,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     T0 = time.time_ns()
 
     ordered_objects = ocel.objects[ocel.object_id_column].to_numpy()
+    parameters = dict(parameters)
     parameters["ordered_objects"] = ordered_objects
 
     datas = [[] for x in ordered_objects]
-- 
2.43.0


From 841dacbb8752d1120deb33a0826870309e5fb2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 168/220] fix: the conversion of a net to a process tree failed
 (AssertionError) or changed the language for labels containing the syntax of
 the process trees (quotes, 'tau')

---
 .../wf_net/variants/to_process_tree.py          | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
index 0c3d534..e30c3dd 100644
--- a/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
+++ b/pm4py/objects/conversion/wf_net/variants/to_process_tree.py
@@ -26,7 +26,6 @@ from pm4py.objects.process_tree import obj as pt_operator
 from pm4py.objects.process_tree.utils import generic as pt_util
 from pm4py.objects.process_tree.utils.generic import tree_sort
 from pm4py.util import exec_utils
-from pm4py.objects.process_tree.utils.generic import parse
 
 TRANSITION_PREFIX = str(uuid.uuid4())
 
@@ -41,10 +40,23 @@ def generate_label_for_transition(t):
         TRANSITION_PREFIX) else t.label
 
 
+def get_tree_for_transition(t):
+    # the labels of the transitions may contain any character (also the ones of the syntax of the process trees),
+    # so the tree is built along with the grouping and not parsed from its string representation
+    if t.name.startswith(TRANSITION_PREFIX):
+        return t.properties[TRANSITION_PREFIX]
+    return pt_operator.ProcessTree(label=t.label)
+
+
 def generate_new_binary_transition(t1, t2, operator, net):
     t = PetriNet.Transition(TRANSITION_PREFIX + str(datetime.datetime.now()))
     t.label = str(operator) + '(' + generate_label_for_transition(
         t1) + ', ' + generate_label_for_transition(t2) + ')'
+    tree = pt_operator.ProcessTree(operator=operator)
+    for child in (get_tree_for_transition(t1), get_tree_for_transition(t2)):
+        child.parent = tree
+        tree.children.append(child)
+    t.properties[TRANSITION_PREFIX] = tree
     return t
 
 
@@ -365,8 +377,7 @@ def apply(net, im, fm, parameters=None):
         return grouped_net
     else:
         if len(grouped_net.transitions) == 1:
-            pt_str = list(grouped_net.transitions)[0].label
-            pt = parse(pt_str)
+            pt = get_tree_for_transition(list(grouped_net.transitions)[0])
             ret = pt_util.fold(pt) if fold else pt
             tree_sort(ret)
             return ret
-- 
2.43.0


From bec22d528aa5fcadc557204ec81644102246e29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 169/220] fix: the Petri net of a BPMN diagram with
 intermediate events or event-based gateways was disconnected at these nodes
 (empty language)

---
 pm4py/objects/conversion/bpmn/variants/to_petri_net.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/bpmn/variants/to_petri_net.py b/pm4py/objects/conversion/bpmn/variants/to_petri_net.py
index be51bd4..8966dd4 100644
--- a/pm4py/objects/conversion/bpmn/variants/to_petri_net.py
+++ b/pm4py/objects/conversion/bpmn/variants/to_petri_net.py
@@ -151,7 +151,8 @@ def apply(bpmn_graph, parameters=None):
     for node in bpmn_graph.get_nodes():
         if isinstance(node, BPMN.Task) or isinstance(node, BPMN.StartEvent) or isinstance(node, BPMN.EndEvent) or \
                 isinstance(node, BPMN.ExclusiveGateway) or isinstance(node, BPMN.ParallelGateway) or \
-                isinstance(node, BPMN.InclusiveGateway):
+                isinstance(node, BPMN.InclusiveGateway) or isinstance(node, BPMN.EventBasedGateway) or \
+                isinstance(node, BPMN.IntermediateCatchEvent) or isinstance(node, BPMN.IntermediateThrowEvent):
             if not node in source_count:
                 source_count[node] = 0
             if not node in target_count:
-- 
2.43.0


From 084044ea17fdb76e886a1093ef084c1cb2c44035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:45 +0000
Subject: [PATCH 170/220] fix: the Petri net of a DFG missed the start/end
 activities without directly-follows relations (cases with a single event)

---
 .../dfg/variants/to_petri_net_activity_defines_place.py         | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py b/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
index 9b3d699..49debdc 100644
--- a/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
+++ b/pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py
@@ -50,7 +50,7 @@ def apply(dfg, parameters=None):
                                                       dfg))
     end_activities = exec_utils.get_param_value(Parameters.END_ACTIVITIES, parameters,
                                                 dfg_utils.infer_end_activities(dfg))
-    activities = dfg_utils.get_activities_from_dfg(dfg)
+    activities = set(dfg_utils.get_activities_from_dfg(dfg)).union(start_activities).union(end_activities)
 
     net = PetriNet("")
     im = Marking()
-- 
2.43.0


From 0e739d8547067e1ae412dc5ee1ddf773af6f1084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:42 +0000
Subject: [PATCH 171/220] fix: the reset-inhibitor net reduction failed
 (AttributeError) when a transition has a reset and an inhibitor arc from the
 same place

---
 pm4py/objects/petri_net/utils/reduction.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/petri_net/utils/reduction.py b/pm4py/objects/petri_net/utils/reduction.py
index 84a1cea..706cb0c 100644
--- a/pm4py/objects/petri_net/utils/reduction.py
+++ b/pm4py/objects/petri_net/utils/reduction.py
@@ -350,7 +350,7 @@ def apply_r_rule(net):
         for p, t in itertools.product(net.places, net.transitions):
             if p in pre_set(t, properties.RESET_ARC).intersection(pre_set(t, properties.INHIBITOR_ARC)):
                 for arc in [arc for arc in net.arcs]:
-                    if arc.source == p and arc.target == t and arc.arc_type == properties.RESET_ARC:
+                    if arc.source == p and arc.target == t and get_arc_type(arc) == properties.RESET_ARC:
                         remove_arc(net, arc)
                 cont = True
                 break
-- 
2.43.0


From 8f00757e99bacdce84c9eb2023517fe81aa53a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:42 +0000
Subject: [PATCH 172/220] fix: process_tree_to_binary_process_tree changed the
 language of the interleaving operator with more than two children

---
 pm4py/objects/process_tree/utils/generic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pm4py/objects/process_tree/utils/generic.py b/pm4py/objects/process_tree/utils/generic.py
index eca1f79..6c56de1 100644
--- a/pm4py/objects/process_tree/utils/generic.py
+++ b/pm4py/objects/process_tree/utils/generic.py
@@ -381,7 +381,8 @@ def get_process_tree_height(pt: ProcessTree) -> int:
 
 
 def process_tree_to_binary_process_tree(tree: ProcessTree) -> ProcessTree:
-    if len(tree.children) > 2:
+    # (the interleaving operator is not associative: it has no binary equivalent)
+    if len(tree.children) > 2 and tree.operator != pt_op.Operator.INTERLEAVING:
         left_tree = tree.children[0]
 
         right_tree_op = tree.operator
-- 
2.43.0


From 73537917bf8d5e80d0d21ba07c317a8ae001a267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:19 +0000
Subject: [PATCH 173/220] fix: the reduction rules of Petri nets ignored the
 arc weights, and left places that do not belong to the net anymore in the
 initial marking

---
 pm4py/objects/petri_net/utils/reduction.py | 37 ++++++++++++++--------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/reduction.py b/pm4py/objects/petri_net/utils/reduction.py
index 706cb0c..7c9efb8 100644
--- a/pm4py/objects/petri_net/utils/reduction.py
+++ b/pm4py/objects/petri_net/utils/reduction.py
@@ -36,13 +36,14 @@ def reduce_single_entry_transitions(net):
         for i in range(len(single_entry_transitions)):
             t = single_entry_transitions[i]
             source_place = list(t.in_arcs)[0].source
-            target_places = [a.target for a in t.out_arcs]
-            if len(source_place.in_arcs) == 1 and len(source_place.out_arcs) == 1:
+            target_places = [(a.target, a.weight) for a in t.out_arcs]
+            if len(source_place.in_arcs) == 1 and len(source_place.out_arcs) == 1 and \
+                    list(source_place.in_arcs)[0].weight == list(source_place.out_arcs)[0].weight:
                 source_transition = list(source_place.in_arcs)[0].source
                 remove_transition(net, t)
                 remove_place(net, source_place)
-                for p in target_places:
-                    add_arc_from_to(source_transition, p, net)
+                for p, weight in target_places:
+                    add_arc_from_to(source_transition, p, net, weight=weight)
                 cont = True
                 break
     return net
@@ -64,13 +65,14 @@ def reduce_single_exit_transitions(net):
         for i in range(len(single_exit_transitions)):
             t = single_exit_transitions[i]
             target_place = list(t.out_arcs)[0].target
-            source_places = [a.source for a in t.in_arcs]
-            if len(target_place.in_arcs) == 1 and len(target_place.out_arcs) == 1:
+            source_places = [(a.source, a.weight) for a in t.in_arcs]
+            if len(target_place.in_arcs) == 1 and len(target_place.out_arcs) == 1 and \
+                    list(target_place.in_arcs)[0].weight == list(target_place.out_arcs)[0].weight:
                 target_transition = list(target_place.out_arcs)[0].target
                 remove_transition(net, t)
                 remove_place(net, target_place)
-                for p in source_places:
-                    add_arc_from_to(p, target_transition, net)
+                for p, weight in source_places:
+                    add_arc_from_to(p, target_transition, net, weight=weight)
                 cont = True
                 break
     return net
@@ -106,6 +108,7 @@ def apply_fst_rule(net):
             if (len(list(p.in_arcs)) == 1 and list(p.in_arcs)[0].source == t) and \
                     (len(list(p.out_arcs)) == 1 and list(p.out_arcs)[0].target == u) and \
                     (len(list(u.in_arcs)) == 1 and list(u.in_arcs)[0].source == p) and \
+                    list(p.in_arcs)[0].weight == list(p.out_arcs)[0].weight and \
                     (len(post_set(t).intersection(post_set(u))) == 0) and \
                     (set().union(*[post_set(place, properties.INHIBITOR_ARC) for place in post_set(u)]) == post_set(p,
                                                                                                                       properties.INHIBITOR_ARC)) and \
@@ -114,8 +117,8 @@ def apply_fst_rule(net):
                     (len(pre_set(u, properties.RESET_ARC)) == 0 and len(pre_set(u, properties.INHIBITOR_ARC)) == 0):
                 if u.label == None:
                     remove_place(net, p)
-                    for target in post_set(u):
-                        add_arc_from_to(t, target, net)
+                    for target, weight in [(arc.target, arc.weight) for arc in u.out_arcs]:
+                        add_arc_from_to(t, target, net, weight=weight)
                     remove_transition(net, u)
                     cont = True
                     break
@@ -143,6 +146,7 @@ def apply_fsp_rule(net, im=None, fm=None):
             if t.label == None:  # only silent transitions may be removed either way
                 if (len(t.in_arcs) == 1 and list(t.in_arcs)[0].source == p) and \
                         (len(t.out_arcs) == 1 and list(t.out_arcs)[0].target == q) and \
+                        (list(t.in_arcs)[0].weight == 1 and list(t.out_arcs)[0].weight == 1) and \
                         (len(post_set(p)) == 1 and list(post_set(p))[0] == t) and \
                         (len(pre_set(p).intersection(pre_set(q))) == 0) and \
                         (post_set(p, properties.RESET_ARC) == post_set(q, properties.RESET_ARC)) and \
@@ -151,12 +155,13 @@ def apply_fsp_rule(net, im=None, fm=None):
                             pre_set(t, properties.INHIBITOR_ARC)) == 0):
                     # remove place p and transition t
                     remove_transition(net, t)
-                    for source in pre_set(p):
-                        add_arc_from_to(source, q, net)
+                    for source, weight in [(arc.source, arc.weight) for arc in p.in_arcs]:
+                        add_arc_from_to(source, q, net, weight=weight)
                     remove_place(net, p)
                     if p in im:
+                        tokens = im[p]
                         del im[p]
-                        im[q] = 1
+                        im[q] = (im[q] if q in im else 0) + tokens
                     cont = True
                     break
 
@@ -255,6 +260,7 @@ def apply_elt_rule(net):
         for p, t in itertools.product(net.places, [t for t in net.transitions if t.label == None]):
             if (len(list(t.in_arcs)) == 1 and list(t.in_arcs)[0].source == p) and \
                     (len(list(t.out_arcs)) == 1 and list(t.out_arcs)[0].target == p) and \
+                    (list(t.in_arcs)[0].weight == list(t.out_arcs)[0].weight) and \
                     (len(list(p.in_arcs)) >= 2) and \
                     (len(pre_set(t, properties.RESET_ARC)) == 0 and len(pre_set(t, properties.INHIBITOR_ARC)) == 0):
                 remove_transition(net, t)
@@ -280,11 +286,14 @@ def apply_elp_rule(net, im=None):
         cont = False
         for p in [place for place in net.places]:
             if (set([arc.target for arc in p.out_arcs]).issubset(set([arc.source for arc in p.in_arcs]))) and \
-                    (p in im and im[p] >= 1) and \
+                    (p in im and im[p] >= max([arc.weight for arc in p.out_arcs], default=1)) and \
+                    (max([arc.weight for arc in p.out_arcs], default=1) <= min([arc.weight for arc in p.in_arcs], default=1)) and \
                     (post_set(p, properties.RESET_ARC).union(set([arc.target for arc in p.out_arcs])) == set(
                         [arc.source for arc in p.in_arcs])) and \
                     (len(post_set(p, properties.INHIBITOR_ARC)) == 0):
                 remove_place(net, p)
+                # the markings refer to the places of the reduced net
+                del im[p]
                 cont = True
                 break
 
-- 
2.43.0


From 65794bbb809b0c1bc63265ad1a941047f3c446e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:19 +0000
Subject: [PATCH 174/220] fix: reduce_petri_net_implicit_places removed places
 that restrict the behaviour (a marked place without producers): the tokens
 consumed were ignored

---
 pm4py/objects/petri_net/utils/murata.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/murata.py b/pm4py/objects/petri_net/utils/murata.py
index a6ae185..8b9c0e7 100644
--- a/pm4py/objects/petri_net/utils/murata.py
+++ b/pm4py/objects/petri_net/utils/murata.py
@@ -85,13 +85,14 @@ def apply_reduction(net: PetriNet, im: Marking, fm: Marking) -> Tuple[PetriNet,
         for trans in net.transitions:
             constraint = [0] * (len(net.places) + 1)
 
-            for arc in trans.out_arcs:
-                p2 = arc.target
+            # effect of the transition (tokens produced minus tokens consumed) on the place and on the supporting places
+            for arc in list(trans.out_arcs) + list(trans.in_arcs):
+                p2, weight = (arc.target, arc.weight) if arc in trans.out_arcs else (arc.source, -arc.weight)
                 if p2 not in redundant:
                     if p2 == place:
-                        constraint[places.index(p2)] = -arc.weight
+                        constraint[places.index(p2)] -= weight
                     else:
-                        constraint[places.index(p2)] = arc.weight
+                        constraint[places.index(p2)] += weight
             Aub.append(constraint)
             bub.append(0)
 
-- 
2.43.0


From 5a2185f4c4b47565f64bea7e4eb23b6201688226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:09 +0000
Subject: [PATCH 175/220] fix: the reset-inhibitor net reduction removed places
 that belong to the initial/final marking

---
 pm4py/objects/petri_net/utils/reduction.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/pm4py/objects/petri_net/utils/reduction.py b/pm4py/objects/petri_net/utils/reduction.py
index 7c9efb8..b3f6b82 100644
--- a/pm4py/objects/petri_net/utils/reduction.py
+++ b/pm4py/objects/petri_net/utils/reduction.py
@@ -92,7 +92,7 @@ def apply_simple_reduction(net):
     return net
 
 
-def apply_fst_rule(net):
+def apply_fst_rule(net, im=None, fm=None):
     """
     Apply the Fusion of Series Transitions (FST) rule
 
@@ -101,11 +101,16 @@ def apply_fst_rule(net):
     net
         Reset Inhibitor net
     """
+    if im is None:
+        im = {}
+    if fm is None:
+        fm = {}
     cont = True
     while cont:
         cont = False
         for p, t, u in itertools.product(net.places, net.transitions, net.transitions):
-            if (len(list(p.in_arcs)) == 1 and list(p.in_arcs)[0].source == t) and \
+            if p not in im and p not in fm and \
+                    (len(list(p.in_arcs)) == 1 and list(p.in_arcs)[0].source == t) and \
                     (len(list(p.out_arcs)) == 1 and list(p.out_arcs)[0].target == u) and \
                     (len(list(u.in_arcs)) == 1 and list(u.in_arcs)[0].source == p) and \
                     list(p.in_arcs)[0].weight == list(p.out_arcs)[0].weight and \
@@ -143,7 +148,7 @@ def apply_fsp_rule(net, im=None, fm=None):
     while cont:
         cont = False
         for p, q, t in itertools.product(net.places, net.places, net.transitions):
-            if t.label == None:  # only silent transitions may be removed either way
+            if t.label == None and p not in fm:  # only silent transitions may be removed either way
                 if (len(t.in_arcs) == 1 and list(t.in_arcs)[0].source == p) and \
                         (len(t.out_arcs) == 1 and list(t.out_arcs)[0].target == q) and \
                         (list(t.in_arcs)[0].weight == 1 and list(t.out_arcs)[0].weight == 1) and \
@@ -270,7 +275,7 @@ def apply_elt_rule(net):
     return net
 
 
-def apply_elp_rule(net, im=None):
+def apply_elp_rule(net, im=None, fm=None):
     """
     Apply the Elimination of Self-Loop Places (ELP) rule
 
@@ -281,12 +286,14 @@ def apply_elp_rule(net, im=None):
     """
     if im is None:
         im = {}
+    if fm is None:
+        fm = {}
     cont = True
     while cont:
         cont = False
         for p in [place for place in net.places]:
             if (set([arc.target for arc in p.out_arcs]).issubset(set([arc.source for arc in p.in_arcs]))) and \
-                    (p in im and im[p] >= max([arc.weight for arc in p.out_arcs], default=1)) and \
+                    (p not in fm and p in im and im[p] >= max([arc.weight for arc in p.out_arcs], default=1)) and \
                     (max([arc.weight for arc in p.out_arcs], default=1) <= min([arc.weight for arc in p.in_arcs], default=1)) and \
                     (post_set(p, properties.RESET_ARC).union(set([arc.target for arc in p.out_arcs])) == set(
                         [arc.source for arc in p.in_arcs])) and \
@@ -385,14 +392,14 @@ def apply_reset_inhibitor_net_reduction(net, im=None, fm=None):
         im = {}
     if fm is None:
         fm = {}
-    apply_fst_rule(net)
+    apply_fst_rule(net, im, fm)
     apply_fsp_rule(net, im, fm)
     # (FPT) rule is exponential to model size
     # apply_fpt_rule(net)
     # (FPP) rule is exponential to model size
     # apply_fpp_rule(net, im)
     apply_elt_rule(net)
-    apply_elp_rule(net, im)
+    apply_elp_rule(net, im, fm)
     # (A) rule is exponential to model size
     # apply_a_rule(net)
     apply_r_rule(net)
-- 
2.43.0


From ad35900c0c9e002cd4442c0d93c3ef650ffd18b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 176/220] fix: the extensive play-out of a process tree
 returned traces outside of the length bounds, and by default (against its
 documentation) missed traces with more than max_trace_length/2 loops

---
 .../simulation/playout/process_tree/variants/extensive.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
index a47df0b..902f8ef 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/extensive.py
@@ -315,7 +315,7 @@ def apply(tree: ProcessTree, parameters : Optional[Dict[Union[str, Parameters],
     min_allowed_trace_length = bottomup_discovery.get_min_trace_length(tree, parameters=parameters)
     min_trace_length = exec_utils.get_param_value(Parameters.MIN_TRACE_LENGTH, parameters, 1)
     max_trace_length = exec_utils.get_param_value(Parameters.MAX_TRACE_LENGTH, parameters, min_allowed_trace_length)
-    max_loop_occ = exec_utils.get_param_value(Parameters.MAX_LOOP_OCC, parameters, int(max_trace_length / 2))
+    max_loop_occ = exec_utils.get_param_value(Parameters.MAX_LOOP_OCC, parameters, max_trace_length)
     max_limit_num_traces = exec_utils.get_param_value(Parameters.MAX_LIMIT_NUM_TRACES, parameters, 100000)
     return_set_strings = exec_utils.get_param_value(Parameters.RETURN_SET_STRINGS, parameters, False)
 
@@ -327,7 +327,8 @@ def apply(tree: ProcessTree, parameters : Optional[Dict[Union[str, Parameters],
     for i in range(len(bottomup)):
         get_playout(bottomup[i], playout_dictio, min_trace_length, max_trace_length, max_loop_occ, min_rem_dict,
                     max_rem_dict, max_limit_num_traces)
-    tree_playout_traces = playout_dictio[tree][TRACES]
+    # the bounds used during the visit are necessary conditions (the branches of a choice may be longer/shorter)
+    tree_playout_traces = {x for x in playout_dictio[tree][TRACES] if min_trace_length <= len(x) <= max_trace_length}
 
     if return_set_strings:
         return tree_playout_traces
-- 
2.43.0


From 0b7986fb9e3aa64e2cc7c9b2ae0245c1d2747e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 177/220] fix: the play-out of process trees with an OR
 operator failed (TypeError) or returned incomplete traces; the play-out of
 the interleaving operator changed the order of the children of the given tree

---
 .../playout/process_tree/variants/topbottom.py     | 14 ++++++++++----
 pm4py/objects/process_tree/semantics.py            |  7 ++++---
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
index 8aeabdf..17cb423 100644
--- a/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
+++ b/pm4py/algo/simulation/playout/process_tree/variants/topbottom.py
@@ -140,9 +140,11 @@ def get_ex_seq(tree):
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.INTERLEAVING:
-        random.shuffle(tree.children)
+        # do not change the order of the children in the provided model
+        children = list(tree.children)
+        random.shuffle(children)
         ret = []
-        for child in tree.children:
+        for child in children:
             ret = ret + get_ex_seq(child)
         return ret
     elif tree.operator is Operator.LOOP:
@@ -156,11 +158,15 @@ def get_ex_seq(tree):
                 ret = ret + get_ex_seq(tree.children[1])
                 cont = True
         return ret
-    elif tree.operator is Operator.PARALLEL:
+    elif tree.operator is Operator.PARALLEL or tree.operator is Operator.OR:
         ret = []
         children_traces = []
         list_choices = []
-        for index, child in enumerate(tree.children):
+        children = tree.children
+        if tree.operator is Operator.OR:
+            # at least one of the children is executed
+            children = random.sample(children, random.randint(1, len(children)))
+        for index, child in enumerate(children):
             trace = get_ex_seq(child)
             children_traces.append(trace)
             list_choices += [index] * len(trace)
diff --git a/pm4py/objects/process_tree/semantics.py b/pm4py/objects/process_tree/semantics.py
index 3bfa691..ef23a8a 100644
--- a/pm4py/objects/process_tree/semantics.py
+++ b/pm4py/objects/process_tree/semantics.py
@@ -174,11 +174,12 @@ def execute_enabled(enabled, open, closed, execution_sequence=None):
             enabled.add(c)
             execution_sequence.append((c, pt_st.State.ENABLED))
         elif vertex.operator is pt_opt.Operator.OR:
-            some_children = [c for c in vertex.children if random.random() < 0.5]
+            # at least one of the children is executed; the others are considered as already closed
+            some_children = random.sample(vertex.children, random.randint(1, len(vertex.children)))
+            closed |= set(vertex.children)
             enabled |= set(some_children)
             for x in some_children:
-                if x in closed:
-                    closed.remove(x)
+                closed.remove(x)
             map(lambda c: execution_sequence.append((c, pt_st.State.ENABLED)), some_children)
         elif vertex.operator is pt_opt.Operator.INTERLEAVING:
             random.shuffle(vertex.children)
-- 
2.43.0


From 6449dfdff7f58e14f06416f8bd4e3bd364659e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 178/220] fix: the tree generator with duplicate activities did
 not terminate (or failed with an IndexError) when no leaf can be replaced,
 and turned visible leaves into silent ones (less activities than the
 requested minimum)

---
 .../tree_generator/variants/ptandloggenerator.py  | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
index 4d08f90..0737577 100644
--- a/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
+++ b/pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py
@@ -196,29 +196,26 @@ class GeneratedTree(object):
                     leaves_with_label.append(leaf)
             # generate random list of duplicates
             duplicates = []
-            for leaf in leaves:
+            for leaf in leaves_with_label:
                 if random.random() < self.parameters["duplicate"]:
                     duplicates.append(leaf)
             if len(duplicates) > 0:
                 # select potential leaves to replace them by duplicates
                 possible_replacements = []
-                for leaf in leaves:
+                for leaf in leaves_with_label:
                     if leaf not in duplicates:
                         possible_replacements.append(leaf)
             for leaf in duplicates:
-                i = 0
                 siblings = []
                 # determine sibling nodes (same parent)
                 p = leaf._parent
                 for child in p._children:
                     if child != leaf:
                         siblings.append(child)
-                # TODO Skaling? Original: 30times, my idea : percentage of duplicates * len(leaves)
-                while i < self.parameters["duplicate"] * len(leaves):
-                    replacement = random.choice(possible_replacements)
-                    if replacement not in siblings:
-                        replacement._label = leaf._label
-                        break
+                candidates = [x for x in possible_replacements if x not in siblings]
+                if candidates:
+                    replacement = random.choice(candidates)
+                    replacement._label = leaf._label
 
     def add_node(self):
         leaves = self.tree._get_leaves()
-- 
2.43.0


From ccea5e783c0fa973d94f7597d8801a9986227904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:05 +0000
Subject: [PATCH 179/220] fix: the play-out of a DFG with a maximum number of
 variants did not return the most likely traces

---
 .../playout/dfg/variants/classic.py           | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pm4py/algo/simulation/playout/dfg/variants/classic.py b/pm4py/algo/simulation/playout/dfg/variants/classic.py
index 3a445d6..f938e1c 100644
--- a/pm4py/algo/simulation/playout/dfg/variants/classic.py
+++ b/pm4py/algo/simulation/playout/dfg/variants/classic.py
@@ -123,26 +123,28 @@ def get_traces(dfg, start_activities, end_activities, parameters=None):
 
     # we start from the partial traces containing only the start activities along
     # with their probability
-    partial_traces = [(-start_activities[sa], (sa,)) for sa in start_activities]
+    # (the flag tells if the trace is complete: it is yielded only when no more probable trace is possible)
+    partial_traces = [(-start_activities[sa], False, (sa,)) for sa in start_activities]
     heapq.heapify(partial_traces)
 
     while partial_traces:
         trace = heapq.heappop(partial_traces)
-        trace = list(trace)
-        trace[1] = list(trace[1])
-        trace_counter = Counter(trace[1])
-        last_act = trace[1][-1]
-        prob = trace[0]
+        prob, is_complete, activities = trace
+
+        if is_complete:
+            yield (activities, math.exp(-prob))
+            continue
+
+        trace_counter = Counter(activities)
+        last_act = activities[-1]
 
         for new_act in node_transition_probabilities[last_act]:
             if trace_counter[new_act] < max_no_occ_per_activity:
                 prob_new_act = node_transition_probabilities[last_act][new_act]
                 if new_act is None:
-                    p = math.exp(-(prob - prob_new_act))
-                    tr = tuple(trace[1])
-                    yield (tr, p)
+                    heapq.heappush(partial_traces, (prob - prob_new_act, True, activities))
                 else:
-                    heapq.heappush(partial_traces, (prob - prob_new_act, tuple(trace[1] + [new_act])))
+                    heapq.heappush(partial_traces, (prob - prob_new_act, False, activities + (new_act,)))
 
 
 def apply(dfg: Dict[Tuple[str, str], int], start_activities: Dict[str, int], end_activities: Dict[str, int],
-- 
2.43.0


From 897a678cbb7205ae873867f324d36909955bce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:26 +0000
Subject: [PATCH 180/220] fix: the ETConformance precision (token-based and
 alignments) was wrong for activities containing a comma

---
 pm4py/algo/evaluation/precision/utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/evaluation/precision/utils.py b/pm4py/algo/evaluation/precision/utils.py
index df4c054..736f99d 100644
--- a/pm4py/algo/evaluation/precision/utils.py
+++ b/pm4py/algo/evaluation/precision/utils.py
@@ -124,7 +124,7 @@ def get_log_prefixes(log, activity_key=xes_util.DEFAULT_NAME_KEY, case_id_key=co
 
     for trace in traces:
         for i in range(1, len(trace)):
-            prefix = constants.DEFAULT_VARIANT_SEP.join(trace[0:i])
+            prefix = trace[0:i]
             next_activity = trace[i]
             if prefix not in prefixes:
                 prefixes[prefix] = set()
@@ -148,8 +148,7 @@ def form_fake_log(prefixes_keys, activity_key=xes_util.DEFAULT_NAME_KEY):
     fake_log = EventLog()
     for prefix in prefixes_keys:
         trace = Trace()
-        prefix_activities = prefix.split(constants.DEFAULT_VARIANT_SEP)
-        for activity in prefix_activities:
+        for activity in prefix:
             event = Event()
             event[activity_key] = activity
             trace.append(event)
-- 
2.43.0


From 08b5c7522d0eccfd7aeeccc18331ba96d98f744c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:18:26 +0000
Subject: [PATCH 181/220] fix: the extended cyclomatic metric was not computed
 on the reachability graph (it always returned its number of arcs)

---
 .../evaluation/simplicity/variants/extended_cyclomatic.py     | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py b/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
index e42cbf5..5ff88aa 100644
--- a/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
+++ b/pm4py/algo/evaluation/simplicity/variants/extended_cyclomatic.py
@@ -50,13 +50,13 @@ def apply(petri_net: PetriNet, im: Optional[Marking] = None, parameters: Optiona
 
     reach_graph = reachability_graph.construct_reachability_graph(petri_net, im, use_trans_name=True)
 
-    G = nx_utils.DiGraph()
+    G = nx_utils.MultiDiGraph()
     for n in reach_graph.states:
         G.add_node(n.name)
 
     for n in reach_graph.states:
         for n2 in n.outgoing:
-            G.add_edge(n, n2)
+            G.add_edge(n.name, n2.to_state.name)
 
     sg = list(nx_utils.strongly_connected_components(G))
 
-- 
2.43.0


From f367e98e6a0c6cc3af4fdc2933094ac08dcd67b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:11 +0000
Subject: [PATCH 182/220] fix: with a delivery pool of more than one thread
 (default), the listeners of a live stream received the events out of order

---
 pm4py/streaming/stream/live_event_stream.py | 19 ++++++++++++++-----
 pm4py/streaming/stream/live_trace_stream.py | 19 ++++++++++++++-----
 2 files changed, 28 insertions(+), 10 deletions(-)

diff --git a/pm4py/streaming/stream/live_event_stream.py b/pm4py/streaming/stream/live_event_stream.py
index 53aec69..2dbdc55 100644
--- a/pm4py/streaming/stream/live_event_stream.py
+++ b/pm4py/streaming/stream/live_event_stream.py
@@ -38,7 +38,8 @@ class LiveEventStream:
         self._state = StreamState.INACTIVE
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
-        self._observers = set()
+        # for each observer: the events that are still to be delivered (in order), and the lock of the delivery
+        self._observers = {}
         self._mail_man = None
         self._tp = ThreadPoolExecutor(exec_utils.get_param_value(Parameters.THREAD_POOL_SIZE, parameters, 6))
 
@@ -49,6 +50,12 @@ class LiveEventStream:
             self._cond.notify()
         self._cond.release()
 
+    @staticmethod
+    def _forward(algo, pending, lock):
+        # different workers of the pool deliver the events to an observer one by one, in the order of the stream
+        with lock:
+            algo.receive(pending.popleft())
+
     def _deliver(self):
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
@@ -60,8 +67,9 @@ class LiveEventStream:
                     self._cond.release()
                     return
             event = self._dq.popleft()
-            for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+            for algo, (pending, lock) in self._observers.items():
+                pending.append(event)
+                self._tp.submit(self._forward, algo, pending, lock)
             self._cond.release()
 
     def start(self):
@@ -83,12 +91,13 @@ class LiveEventStream:
 
     def register(self, algo):
         self._cond.acquire()
-        self._observers.add(algo)
+        if algo not in self._observers:
+            self._observers[algo] = (collections.deque(), threading.Lock())
         self._cond.release()
 
     async def deregister(self, algo):
         self._cond.acquire()
-        self._observers.remove(algo)
+        del self._observers[algo]
         self._cond.release()
 
     def _get_state(self):
diff --git a/pm4py/streaming/stream/live_trace_stream.py b/pm4py/streaming/stream/live_trace_stream.py
index c9e56ec..14c53bc 100644
--- a/pm4py/streaming/stream/live_trace_stream.py
+++ b/pm4py/streaming/stream/live_trace_stream.py
@@ -38,7 +38,8 @@ class LiveTraceStream:
         self._state = StreamState.INACTIVE
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
-        self._observers = set()
+        # for each observer: the events that are still to be delivered (in order), and the lock of the delivery
+        self._observers = {}
         self._mail_man = None
         self._tp = ThreadPoolExecutor(exec_utils.get_param_value(Parameters.THREAD_POOL_SIZE, parameters, 6))
 
@@ -49,6 +50,12 @@ class LiveTraceStream:
             self._cond.notify()
         self._cond.release()
 
+    @staticmethod
+    def _forward(algo, pending, lock):
+        # different workers of the pool deliver the events to an observer one by one, in the order of the stream
+        with lock:
+            algo.receive(pending.popleft())
+
     def _deliver(self):
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
@@ -60,8 +67,9 @@ class LiveTraceStream:
                     self._cond.release()
                     return
             event = self._dq.popleft()
-            for algo in self._observers:
-                self._tp.submit(algo.receive, event)
+            for algo, (pending, lock) in self._observers.items():
+                pending.append(event)
+                self._tp.submit(self._forward, algo, pending, lock)
             self._cond.release()
 
     def start(self):
@@ -83,12 +91,13 @@ class LiveTraceStream:
 
     def register(self, algo):
         self._cond.acquire()
-        self._observers.add(algo)
+        if algo not in self._observers:
+            self._observers[algo] = (collections.deque(), threading.Lock())
         self._cond.release()
 
     async def deregister(self, algo):
         self._cond.acquire()
-        self._observers.remove(algo)
+        del self._observers[algo]
         self._cond.release()
 
     def _get_state(self):
-- 
2.43.0


From 2517c90e1a9d0145558d855f25cd5d32ebd486f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:11 +0000
Subject: [PATCH 183/220] fix: stopping a live stream from several threads, or
 while a listener appends to the stream, did not terminate

---
 pm4py/streaming/stream/live_event_stream.py | 10 ++++++----
 pm4py/streaming/stream/live_trace_stream.py | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/pm4py/streaming/stream/live_event_stream.py b/pm4py/streaming/stream/live_event_stream.py
index 2dbdc55..7b06834 100644
--- a/pm4py/streaming/stream/live_event_stream.py
+++ b/pm4py/streaming/stream/live_event_stream.py
@@ -38,6 +38,7 @@ class LiveEventStream:
         self._state = StreamState.INACTIVE
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
+        self._shutdown_lock = threading.Lock()
         # for each observer: the events that are still to be delivered (in order), and the lock of the delivery
         self._observers = {}
         self._mail_man = None
@@ -47,7 +48,7 @@ class LiveEventStream:
         self._cond.acquire()
         if self._state != StreamState.FINISHED:
             self._dq.append(event)
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
 
     @staticmethod
@@ -60,7 +61,7 @@ class LiveEventStream:
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
             while len(self._dq) == 0:
-                self._cond.notify()
+                self._cond.notify_all()
                 if self._state != StreamState.FINISHED:
                     self._cond.wait()
                 else:
@@ -83,11 +84,12 @@ class LiveEventStream:
         self._cond.acquire()
         while len(self._dq) > 0:
             self._cond.wait()
-        self._tp.shutdown()
         if self._state == StreamState.ACTIVE:
             self._state = StreamState.FINISHED
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
+        with self._shutdown_lock:
+            self._tp.shutdown()
 
     def register(self, algo):
         self._cond.acquire()
diff --git a/pm4py/streaming/stream/live_trace_stream.py b/pm4py/streaming/stream/live_trace_stream.py
index 14c53bc..564333d 100644
--- a/pm4py/streaming/stream/live_trace_stream.py
+++ b/pm4py/streaming/stream/live_trace_stream.py
@@ -38,6 +38,7 @@ class LiveTraceStream:
         self._state = StreamState.INACTIVE
         self._lock = threading.Lock()
         self._cond = threading.Condition(self._lock)
+        self._shutdown_lock = threading.Lock()
         # for each observer: the events that are still to be delivered (in order), and the lock of the delivery
         self._observers = {}
         self._mail_man = None
@@ -47,7 +48,7 @@ class LiveTraceStream:
         self._cond.acquire()
         if self._state != StreamState.FINISHED:
             self._dq.append(event)
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
 
     @staticmethod
@@ -60,7 +61,7 @@ class LiveTraceStream:
         while self._state != StreamState.INACTIVE:
             self._cond.acquire()
             while len(self._dq) == 0:
-                self._cond.notify()
+                self._cond.notify_all()
                 if self._state != StreamState.FINISHED:
                     self._cond.wait()
                 else:
@@ -83,11 +84,12 @@ class LiveTraceStream:
         self._cond.acquire()
         while len(self._dq) > 0:
             self._cond.wait()
-        self._tp.shutdown()
         if self._state == StreamState.ACTIVE:
             self._state = StreamState.FINISHED
-            self._cond.notify()
+            self._cond.notify_all()
         self._cond.release()
+        with self._shutdown_lock:
+            self._tp.shutdown()
 
     def register(self, algo):
         self._cond.acquire()
-- 
2.43.0


From 79ec363cb75a4a3eab85bfc51de038d84251eb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:11 +0000
Subject: [PATCH 184/220] fix: ThreadSafeDict.values() did not terminate (it
 acquires its lock twice)

---
 pm4py/streaming/util/dictio/versions/thread_safe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/streaming/util/dictio/versions/thread_safe.py b/pm4py/streaming/util/dictio/versions/thread_safe.py
index 7492c77..6bcff22 100644
--- a/pm4py/streaming/util/dictio/versions/thread_safe.py
+++ b/pm4py/streaming/util/dictio/versions/thread_safe.py
@@ -45,7 +45,7 @@ class ThreadSafeDict(dict):
 
     def values(self):
         self.lock.acquire()
-        ret = [self[key] for key in self]
+        ret = [self[key] for key in self.itemlist]
         self.lock.release()
         return ret
 
-- 
2.43.0


From e45cb2de4a0c8b814686a1bee670ed46fb51cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 185/220] fix: the streaming XES importers lost nested
 attributes and lists whose children were not parsed yet at the start of the
 element (file chunk boundaries)

---
 .../importer/xes/variants/xes_event_stream.py | 51 +++++++++++++------
 .../importer/xes/variants/xes_trace_stream.py | 51 +++++++++++++------
 2 files changed, 72 insertions(+), 30 deletions(-)

diff --git a/pm4py/streaming/importer/xes/variants/xes_event_stream.py b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
index 1018fc1..d391a95 100644
--- a/pm4py/streaming/importer/xes/variants/xes_event_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_event_stream.py
@@ -30,22 +30,37 @@ _EVENT_END = 'end'
 _EVENT_START = 'start'
 
 
-def parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
+def get_store(elem, tree):
+    """
+    Gets the object in which the attributes contained in the given element should be stored.
+    (an attribute becomes a nested attribute/a list when the first contained attribute is met,
+    since at the start of an element its children have not necessarily been parsed yet)
+    """
+    store = tree[elem] if elem in tree else None
+    if type(store) is tuple:
+        parent_store, key, value = store
+        if elem.tag.endswith(xes_constants.TAG_LIST):
+            store = list()
         else:
-            store[key] = value
-    else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
+            store = dict()
+        attribute = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: store}
+        if type(parent_store) is list:
+            parent_store[key] = (parent_store[key][0], attribute)
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            parent_store[key] = attribute
+        tree[elem] = store
+    return store
+
+
+def parse_attribute(elem, store, key, value, tree):
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
+        tree[elem] = (store, len(store) - 1, value)
+    else:
+        store[key] = value
+        tree[elem] = (store, key, value)
     return tree
 
 
@@ -127,7 +142,7 @@ class StreamingEventXesReader:
             tree_event, elem = next(self.context)
 
             if tree_event == _EVENT_START:
-                parent = tree[elem.getparent()] if elem.getparent() in tree else None
+                parent = get_store(elem.getparent(), tree)
 
                 if elem.tag.endswith(xes_constants.TAG_TRACE):
                     self.trace = Trace()
@@ -194,6 +209,12 @@ class StreamingEventXesReader:
                             tree = parse_attribute(elem, parent, elem.get(xes_constants.KEY_KEY), None, tree)
                         continue
 
+                    elif elem.tag.endswith(xes_constants.TAG_VALUES):
+                        if parent is not None:
+                            # the elements of a list are stored in the list itself
+                            tree[elem] = parent
+                        continue
+
                     elif elem.tag.endswith(xes_constants.TAG_ID):
                         if parent is not None:
                             tree = parse_attribute(elem, parent, elem.get(xes_constants.KEY_KEY),
diff --git a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
index e15b100..daa8d1c 100644
--- a/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
+++ b/pm4py/streaming/importer/xes/variants/xes_trace_stream.py
@@ -30,22 +30,37 @@ _EVENT_END = 'end'
 _EVENT_START = 'start'
 
 
-def parse_attribute(elem, store, key, value, tree):
-    if len(elem.getchildren()) == 0:
-        if type(store) is list:
-            # changes to the store of lists: not dictionaries anymore
-            # but pairs of key-values.
-            store.append((key, value))
+def get_store(elem, tree):
+    """
+    Gets the object in which the attributes contained in the given element should be stored.
+    (an attribute becomes a nested attribute/a list when the first contained attribute is met,
+    since at the start of an element its children have not necessarily been parsed yet)
+    """
+    store = tree[elem] if elem in tree else None
+    if type(store) is tuple:
+        parent_store, key, value = store
+        if elem.tag.endswith(xes_constants.TAG_LIST):
+            store = list()
         else:
-            store[key] = value
-    else:
-        if elem.getchildren()[0].tag.endswith(xes_constants.TAG_VALUES):
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: list()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
-            tree[elem.getchildren()[0]] = tree[elem]
+            store = dict()
+        attribute = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: store}
+        if type(parent_store) is list:
+            parent_store[key] = (parent_store[key][0], attribute)
         else:
-            store[key] = {xes_constants.KEY_VALUE: value, xes_constants.KEY_CHILDREN: dict()}
-            tree[elem] = store[key][xes_constants.KEY_CHILDREN]
+            parent_store[key] = attribute
+        tree[elem] = store
+    return store
+
+
+def parse_attribute(elem, store, key, value, tree):
+    if type(store) is list:
+        # changes to the store of lists: not dictionaries anymore
+        # but pairs of key-values.
+        store.append((key, value))
+        tree[elem] = (store, len(store) - 1, value)
+    else:
+        store[key] = value
+        tree[elem] = (store, key, value)
     return tree
 
 
@@ -127,7 +142,7 @@ class StreamingTraceXesReader:
             tree_event, elem = next(self.context)
 
             if tree_event == _EVENT_START:
-                parent = tree[elem.getparent()] if elem.getparent() in tree else None
+                parent = get_store(elem.getparent(), tree)
 
                 if elem.tag.endswith(xes_constants.TAG_TRACE):
                     self.trace = Trace()
@@ -193,6 +208,12 @@ class StreamingTraceXesReader:
                             tree = parse_attribute(elem, parent, elem.get(xes_constants.KEY_KEY), None, tree)
                         continue
 
+                    elif elem.tag.endswith(xes_constants.TAG_VALUES):
+                        if parent is not None:
+                            # the elements of a list are stored in the list itself
+                            tree[elem] = parent
+                        continue
+
                     elif elem.tag.endswith(xes_constants.TAG_ID):
                         if parent is not None:
                             tree = parse_attribute(elem, parent, elem.get(xes_constants.KEY_KEY),
-- 
2.43.0


From abd5ba75f2b75a50278d9c3ed817bae9f24aa233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 186/220] fix: the streaming footprints conformance forgot the
 deviation of a case starting with an activity outside of the footprints (and
 did not find the cases with non-string identifiers)

---
 .../conformance/footprints/variants/classic.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/footprints/variants/classic.py b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
index 9342c53..035c33c 100644
--- a/pm4py/streaming/algo/conformance/footprints/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/footprints/variants/classic.py
@@ -116,7 +116,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         activity
             Activity
         """
-        if case not in self.case_dict.keys():
+        if case not in self.dev_dict.keys():
             self.dev_dict[case] = 0
         if activity in self.activities:
             if case not in self.case_dict.keys():
@@ -174,7 +174,8 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
-        if case in self.case_dict.keys():
+        case = self.encode_str(case)
+        if case in self.dev_dict.keys():
             num_dev = int(self.dev_dict[case])
             if num_dev == 0:
                 return True
@@ -197,13 +198,16 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         boolean
             Boolean value (True if there are no deviations)
         """
-        if case in self.case_dict.keys():
-            curr = self.case_dict[case]
+        case = self.encode_str(case)
+        if case in self.dev_dict.keys():
+            # (a case for which only activities outside of the footprints happened has no last activity)
+            curr = self.case_dict[case] if case in self.case_dict.keys() else None
             if curr not in self.end_activities:
                 self.message_end_activity_not_possible(curr, case)
                 self.dev_dict[case] = int(self.dev_dict[case]) + 1
             num_dev = int(self.dev_dict[case])
-            del self.case_dict[case]
+            if curr is not None:
+                del self.case_dict[case]
             del self.dev_dict[case]
             if num_dev == 0:
                 return True
@@ -216,7 +220,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         """
         Terminate all cases
         """
-        cases = list(self.case_dict.keys())
+        cases = list(self.dev_dict.keys())
         for case in cases:
             self.terminate(case)
 
@@ -303,7 +307,7 @@ class FootprintsStreamingConformance(StreamingAlgorithm):
         """
         import pandas as pd
 
-        cases = list(self.case_dict.keys())
+        cases = list(self.dev_dict.keys())
 
         diagn_stream = []
 
-- 
2.43.0


From cd53f85f71bb4dbdeba9cc02199431c6163c2ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 187/220] fix: the streaming token-based replay never fired the
 invisible transitions leading to the final marking

---
 pm4py/streaming/algo/conformance/tbr/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index 1c0b491..39899fa 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -119,7 +119,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
         for el in shortest_path:
             if type(el[0]) is PetriNet.Place:
                 for sel in el[1]:
-                    spath = [x for x in el[1][sel][1:-2] if type(x) is PetriNet.Transition]
+                    spath = [x for x in el[1][sel][1:-1] if type(x) is PetriNet.Transition]
                     if spath:
                         if not el[0] in dictio_spaths:
                             dictio_spaths[el[0]] = {}
@@ -294,7 +294,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
         if case in self.case_dict:
             remaining = 0
             if not self.decode_marking(self.case_dict[case]) == self.fm:
-                new_marking = self.reach_fm_with_invisibles(self.case_dict[case])
+                new_marking = self.reach_fm_with_invisibles(self.decode_marking(self.case_dict[case]))
                 if new_marking is None:
                     new_marking = self.decode_marking(self.case_dict[case])
                 if not new_marking == self.fm:
-- 
2.43.0


From 61822a445163059e243a8ee7a3404a76d713a255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 188/220] fix: the streaming token-based replay failed with a
 TypeError (losing the event) when the invisible transitions could not enable
 the activity

---
 pm4py/streaming/algo/conformance/tbr/variants/classic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index 39899fa..d1a8d3a 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -216,7 +216,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
                 for a in t.in_arcs:
                     pl = a.source
                     mark = a.weight
-                    if pl not in marking or new_marking[pl] < mark:
+                    if marking[pl] < mark:
                         self.missing[case] = int(self.missing[case]) + (mark - marking[pl])
                         marking[pl] = mark
                 new_marking = semantics.weak_execute(t, marking)
-- 
2.43.0


From 422709e5cbfb814ed6c018aef466b22b738becc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 189/220] fix: the streaming token-based replay compensated
 missing tokens with remaining tokens at the end of a case

---
 pm4py/streaming/algo/conformance/tbr/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index d1a8d3a..c7766df 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -303,11 +303,11 @@ class TbrStreamingConformance(StreamingAlgorithm):
                     for m in fm_copy:
                         if not m in new_marking:
                             new_marking[m] = 0
-                        self.missing[case] = int(self.missing[case]) + (fm_copy[m] - new_marking[m])
+                        self.missing[case] = int(self.missing[case]) + max(0, fm_copy[m] - new_marking[m])
                     for m in new_marking:
                         if not m in fm_copy:
                             fm_copy[m] = 0
-                        remaining += new_marking[m] - fm_copy[m]
+                        remaining += max(0, new_marking[m] - fm_copy[m])
             missing = int(self.missing[case])
             is_fit = missing == 0 and remaining == 0
             ret = {"marking": self.decode_marking(self.case_dict[case]), "missing": missing, "remaining": remaining, "is_fit": is_fit}
-- 
2.43.0


From 4ed24b1e105bb171fa547e8c32b9cda96c07fd22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 190/220] fix: the streaming token-based replay did not give
 the status of the cases with non-string identifiers

---
 pm4py/streaming/algo/conformance/tbr/variants/classic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/streaming/algo/conformance/tbr/variants/classic.py b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
index c7766df..d97a393 100644
--- a/pm4py/streaming/algo/conformance/tbr/variants/classic.py
+++ b/pm4py/streaming/algo/conformance/tbr/variants/classic.py
@@ -271,6 +271,7 @@ class TbrStreamingConformance(StreamingAlgorithm):
         case
             Case
         """
+        case = self.encode_str(case)
         if case in self.case_dict:
             return {"marking": self.decode_marking(self.case_dict[case]), "missing": int(self.missing[case])}
         else:
-- 
2.43.0


From de32e61f35b60d348da22ef81e3590f7f6cb25aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:50 +0000
Subject: [PATCH 191/220] fix: the streaming CSV importer changed the line
 separators contained in quoted values

---
 pm4py/streaming/importer/csv/variants/csv_event_stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/streaming/importer/csv/variants/csv_event_stream.py b/pm4py/streaming/importer/csv/variants/csv_event_stream.py
index d6de7ad..d6411fc 100644
--- a/pm4py/streaming/importer/csv/variants/csv_event_stream.py
+++ b/pm4py/streaming/importer/csv/variants/csv_event_stream.py
@@ -35,7 +35,7 @@ class CSVEventStreamReader(object):
         self.reset()
 
     def reset(self):
-        self.F = open(self.path, "r")
+        self.F = open(self.path, "r", newline="")
         self.reader = csv.DictReader(self.F)
         self.reading_log = True
 
-- 
2.43.0


From cab777976e83b29d40626c7c0b9f438cd32613c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 192/220] fix: the resource profiles of a dataframe ignored the
 case identifier key (average case duration, interaction of two resources,
 social position)

---
 .../resource_profiles/variants/pandas.py               | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
index 97addfb..bcccb50 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/pandas.py
@@ -537,9 +537,11 @@ def average_case_duration(df: pd.DataFrame, t1: Union[datetime, str], t2: Union[
         parameters = {}
 
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
+    case_id_key = exec_utils.get_param_value(Parameters.CASE_ID_KEY, parameters, constants.CASE_CONCEPT_NAME)
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key,
+                         attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     df = attributes_filter.apply(df, [r], parameters=parameters_filter)
 
     from pm4py.algo.filtering.pandas.timestamp import timestamp_filter
@@ -591,7 +593,8 @@ def interaction_two_resources(df: pd.DataFrame, t1: Union[datetime, str], t2: Un
     df = df[[timestamp_key, resource_key, case_id_key, activity_key]]
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key,
+                         attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     df = attributes_filter.apply(df, [r1], parameters=parameters_filter)
     df = attributes_filter.apply(df, [r2], parameters=parameters_filter)
     last_df = df.groupby(case_id_key).last().reset_index()
@@ -644,7 +647,8 @@ def social_position(df: pd.DataFrame, t1: Union[datetime, str], t2: Union[dateti
     df = df[df[timestamp_key] < t2]
 
     from pm4py.algo.filtering.pandas.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key,
+                         attributes_filter.Parameters.CASE_ID_KEY: case_id_key}
     filt_df = attributes_filter.apply(df, [r], parameters=parameters_filter)
 
     q1 = float(filt_df[case_id_key].nunique())
-- 
2.43.0


From 46829b015de6748577c0c39734ae94aadce472bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 193/220] fix: the case statistics of a dataframe failed with a
 KeyError when a start timestamp key was given

---
 pm4py/statistics/traces/generic/pandas/case_statistics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/statistics/traces/generic/pandas/case_statistics.py b/pm4py/statistics/traces/generic/pandas/case_statistics.py
index 62cdde3..79536ca 100644
--- a/pm4py/statistics/traces/generic/pandas/case_statistics.py
+++ b/pm4py/statistics/traces/generic/pandas/case_statistics.py
@@ -172,7 +172,7 @@ def get_cases_description(df: pd.DataFrame, parameters: Optional[Dict[Union[str,
     business_hours_slots = exec_utils.get_param_value(Parameters.BUSINESS_HOUR_SLOTS, parameters, constants.DEFAULT_BUSINESS_HOUR_SLOTS)
     workcalendar = exec_utils.get_param_value(Parameters.WORKCALENDAR, parameters, constants.DEFAULT_BUSINESS_HOURS_WORKCALENDAR)
 
-    grouped_df = df[[case_id_glue, timestamp_key]].groupby(df[case_id_glue])
+    grouped_df = df[list(dict.fromkeys([case_id_glue, timestamp_key, start_timestamp_key]))].groupby(df[case_id_glue])
     # grouped_df = df[[case_id_glue, timestamp_key]].groupby(df[case_id_glue])
     first_eve_df = grouped_df.first()
     last_eve_df = grouped_df.last()
-- 
2.43.0


From 27010467fc287879526f9be15fc442db2108baa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 194/220] fix: the social position of a resource in an event
 log considered also the events at the end of the interval [t1, t2)

---
 .../resource_profiles/variants/log.py            | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index 4405337..d4840d2 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -614,17 +614,17 @@ def social_position(log: EventLog, t1_0: Union[datetime, str], t2_0: Union[datet
     if parameters is None:
         parameters = {}
 
+    timestamp_key = exec_utils.get_param_value(Parameters.TIMESTAMP_KEY, parameters, xes_constants.DEFAULT_TIMESTAMP_KEY)
     resource_key = exec_utils.get_param_value(Parameters.RESOURCE_KEY, parameters, xes_constants.DEFAULT_RESOURCE_KEY)
 
-    from pm4py.algo.filtering.log.timestamp import timestamp_filter
-    log = timestamp_filter.apply_events(log, t1_0, t2_0, parameters=parameters)
-
-    from pm4py.algo.filtering.log.attributes import attributes_filter
-    parameters_filter = {attributes_filter.Parameters.ATTRIBUTE_KEY: resource_key}
+    t1 = get_dt_from_string(t1_0)
+    t2 = get_dt_from_string(t2_0)
 
-    filtered_log = attributes_filter.apply(log, [r], parameters=parameters_filter)
+    # the resources of the events of the interval [t1, t2), case by case
+    cases = [[x[resource_key] for x in trace if t1 <= x[timestamp_key] < t2] for trace in log]
+    cases = [x for x in cases if x]
 
-    q1 = float(len(filtered_log))
-    q2 = float(len(log))
+    q1 = float(len([x for x in cases if r in x]))
+    q2 = float(len(cases))
 
     return q1/q2 if q2 > 0 else 0.0
-- 
2.43.0


From b878aaf9bc36a67baf358f74c5e4879d0d82aa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 195/220] fix: the resource profiles overwrote the start
 timestamps of the events of the given log

---
 .../resource_profiles/variants/log.py             | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
index d4840d2..da4b9a4 100644
--- a/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
+++ b/pm4py/algo/organizational_mining/resource_profiles/variants/log.py
@@ -19,7 +19,7 @@ from enum import Enum
 from typing import Union, Optional, Dict, Any, Tuple
 
 from pm4py.objects.conversion.log import converter
-from pm4py.objects.log.obj import EventLog, Event
+from pm4py.objects.log.obj import EventLog, Trace, Event
 from pm4py.util import exec_utils, constants, xes_constants
 from pm4py.algo.filtering.common.timestamp.timestamp_common import get_dt_from_string
 from statistics import mean
@@ -297,12 +297,17 @@ def __insert_start_from_previous_event(log: EventLog, parameters: Optional[Dict[
     start_timestamp_key = exec_utils.get_param_value(Parameters.START_TIMESTAMP_KEY, parameters,
                                                      xes_constants.DEFAULT_START_TIMESTAMP_KEY)
 
+    # the events are copied, since they may belong to the log provided by the user
+    new_log = EventLog(attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers,
+                       omni_present=log.omni_present, properties=log.properties)
+
     for trace in log:
-        for i in range(1, len(trace)):
-            trace[i][start_timestamp_key] = trace[i-1][timestamp_key]
-        trace[0][start_timestamp_key] = trace[0][timestamp_key]
+        new_trace = Trace([Event(dict(x)) for x in trace], attributes=trace.attributes)
+        for i in range(len(new_trace)):
+            new_trace[i][start_timestamp_key] = new_trace[max(i-1, 0)][timestamp_key]
+        new_log.append(new_trace)
 
-    return log
+    return new_log
 
 
 def __compute_workload(log: EventLog, resource: Optional[str] = None, activity: Optional[str] = None,
-- 
2.43.0


From cd6edee6181a240f5d8bc2aa09101cd96301ac4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 196/220] fix: the activities of the resources of a dataframe
 (local diagnostics) were counted only for the events with a group (KeyError
 without the group column)

---
 pm4py/algo/organizational_mining/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/organizational_mining/util.py b/pm4py/algo/organizational_mining/util.py
index e3f2285..e7b934f 100644
--- a/pm4py/algo/organizational_mining/util.py
+++ b/pm4py/algo/organizational_mining/util.py
@@ -121,7 +121,7 @@ def get_res_act_from_log(log_obj: Union[pd.DataFrame, EventLog], parameters: Opt
     act_res = {}
 
     if pandas_utils.check_is_pandas_dataframe(log_obj):
-        aggr = log_obj.groupby([activity_key, resource_key]).count().to_dict()[group_key]
+        aggr = log_obj.groupby([activity_key, resource_key]).size().to_dict()
         for el in aggr:
             if not el[1] in res_act:
                 res_act[el[1]] = {}
-- 
2.43.0


From 6f159ddf325ac77517f42f36be795881e2acd055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:25 +0000
Subject: [PATCH 197/220] fix: the link analysis (network analysis) linked the
 events with missing values to each other

---
 pm4py/algo/discovery/ocel/link_analysis/variants/classic.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py b/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py
index ee0ae72..b6464bc 100644
--- a/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py
+++ b/pm4py/algo/discovery/ocel/link_analysis/variants/classic.py
@@ -117,8 +117,9 @@ def apply(dataframe: pd.DataFrame, parameters: Optional[Dict[Any, Any]] = None)
     dataframe = dataframe.sort_values(sorting_column)
     dataframe = pandas_utils.insert_index(dataframe, index_column)
 
-    df_red1 = dataframe[[out_column, index_column]]
-    df_red2 = dataframe[[in_column, index_column]]
+    # missing values do not link events
+    df_red1 = dataframe[[out_column, index_column]].dropna(subset=[out_column])
+    df_red2 = dataframe[[in_column, index_column]].dropna(subset=[in_column])
     df_red = df_red1.merge(df_red2, left_on=out_column, right_on=in_column, suffixes=("_out", "_in"))
 
     if look_forward:
-- 
2.43.0


From be6e11d77b0509dad2d4e55f038f619ed2b961a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 198/220] fix: the string features of a dataframe
 (select_string_column) failed on columns with NaN values (AttributeError)

---
 pm4py/objects/log/util/dataframe_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/log/util/dataframe_utils.py b/pm4py/objects/log/util/dataframe_utils.py
index 555c4af..e1829c4 100644
--- a/pm4py/objects/log/util/dataframe_utils.py
+++ b/pm4py/objects/log/util/dataframe_utils.py
@@ -345,7 +345,7 @@ def select_string_column(df: pd.DataFrame, fea_df: pd.DataFrame, col: str,
     fea_df
         Feature dataframe (desidered output)
     """
-    vals = pandas_utils.format_unique(df[col].unique())
+    vals = pandas_utils.format_unique(df[col].dropna().unique())
     names = {val: val.encode('ascii', errors='ignore').decode('ascii').replace(" ", "") for val in vals if val is not None}
     occurrences = Counter(names.values())
     for val in vals:
-- 
2.43.0


From bd93f95c52452c78065f957b2aed25d991f91292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 199/220] fix: the extraction of the intervals of a log
 (open_paths) failed when two intervals have the same borders (TypeError,
 events are not comparable)

---
 .../transformation/log_to_interval_tree/variants/open_paths.py  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
index a5e60ec..297b7ac 100644
--- a/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
+++ b/pm4py/algo/transformation/log_to_interval_tree/variants/open_paths.py
@@ -84,7 +84,7 @@ def log_to_intervals(log: Union[EventLog, pd.DataFrame], parameters: Optional[Di
                         ret_list.append([time_i, time_j, trace[i], trace[j], trace.attributes])
                     break
 
-    ret_list.sort(key=lambda x: (x[0], x[1], x[2], x[3]))
+    ret_list.sort(key=lambda x: (x[0], x[1]))
     return ret_list
 
 
-- 
2.43.0


From 59cb3c4289e8af8a4ba0dd12a7aa4b76bd084d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 200/220] fix: the temporal features ignored the start
 timestamp in the arrival/finish rates and in the service/waiting/sojourn
 times

---
 .../algo/transformation/log_to_features/variants/temporal.py  | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/log_to_features/variants/temporal.py b/pm4py/algo/transformation/log_to_features/variants/temporal.py
index 98269e1..9ade922 100644
--- a/pm4py/algo/transformation/log_to_features/variants/temporal.py
+++ b/pm4py/algo/transformation/log_to_features/variants/temporal.py
@@ -87,8 +87,8 @@ def apply(log: Union[EventLog, EventStream, pd.DataFrame], parameters: Optional[
     activity_column = exec_utils.get_param_value(Parameters.ACTIVITY_COLUMN, parameters, xes_constants.DEFAULT_NAME_KEY)
 
     log = log_converter.apply(log, variant=log_converter.Variants.TO_DATA_FRAME, parameters=parameters)
-    log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
-    log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
+    log = pandas_utils.insert_case_arrival_finish_rate(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, arrival_rate_column=arrival_rate, finish_rate_column=finish_rate)
+    log = pandas_utils.insert_case_service_waiting_time(log, case_id_column=case_id_column, timestamp_column=timestamp_column, start_timestamp_column=start_timestamp_column, diff_start_end_column=diff_start_end, service_time_column=service_time, sojourn_time_column=sojourn_time, waiting_time_column=waiting_time)
 
     grouped_log = log.groupby(pandas_utils.get_grouper(key=start_timestamp_column, freq=grouper_freq))
 
-- 
2.43.0


From 155015ff3babd4392207899da7d59f5f2bfa9b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:39 +0000
Subject: [PATCH 201/220] fix: sample_events on an event log sampled the given
 number of traces (with all their events) instead of the given number of
 events

---
 pm4py/objects/log/util/sampling.py | 34 +++++++++++++++++++++++++++++-
 pm4py/utils.py                     |  2 +-
 2 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/log/util/sampling.py b/pm4py/objects/log/util/sampling.py
index 0504b2b..2b60253 100644
--- a/pm4py/objects/log/util/sampling.py
+++ b/pm4py/objects/log/util/sampling.py
@@ -16,7 +16,7 @@
 '''
 import random
 
-from pm4py.objects.log.obj import EventStream, EventLog
+from pm4py.objects.log.obj import EventStream, EventLog, Trace
 
 
 def sample_stream(event_log, no_events=100):
@@ -63,6 +63,38 @@ def sample_log(log, no_traces=100):
     return new_log
 
 
+def sample_log_events(log, no_events=100):
+    """
+    Randomly sample a fixed number of events from the original log
+    (the order of the traces and of their events is kept; traces without sampled events are removed)
+
+    Parameters
+    -----------
+    log
+        Log
+    no_events
+        Number of events that the sample should have
+
+    Returns
+    -----------
+    newLog
+        Filtered log
+    """
+    positions = [(i, j) for i in range(len(log)) for j in range(len(log[i]))]
+    sampled_positions = {}
+    for i, j in random.sample(positions, min(no_events, len(positions))):
+        sampled_positions.setdefault(i, set()).add(j)
+
+    new_log = EventLog(attributes=log.attributes, extensions=log.extensions, omni_present=log.omni_present,
+                       classifiers=log.classifiers, properties=log.properties)
+    for i in sorted(sampled_positions):
+        new_trace = Trace(attributes=log[i].attributes, properties=log[i].properties)
+        for j in sorted(sampled_positions[i]):
+            new_trace.append(log[i][j])
+        new_log.append(new_trace)
+    return new_log
+
+
 def sample(log, n=100):
     """
     Randomly sample a fixed number of traces from the original log
diff --git a/pm4py/utils.py b/pm4py/utils.py
index 17784ef..83c4f8e 100644
--- a/pm4py/utils.py
+++ b/pm4py/utils.py
@@ -535,7 +535,7 @@ def sample_events(log: Union[EventStream, OCEL], num_events: int) -> Union[Event
 
     if isinstance(log, EventLog):
         from pm4py.objects.log.util import sampling
-        return sampling.sample_log(log, num_events)
+        return sampling.sample_log_events(log, num_events)
     elif isinstance(log, EventStream):
         from pm4py.objects.log.util import sampling
         return sampling.sample_stream(log, num_events)
-- 
2.43.0


From 0e57c01df42ffd2980fb0fe6d8cb952bdefba465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:11 +0000
Subject: [PATCH 202/220] fix: extract_features_dataframe ignored its
 resource_key parameter

---
 pm4py/ml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/ml.py b/pm4py/ml.py
index e4b68fc..29717b7 100644
--- a/pm4py/ml.py
+++ b/pm4py/ml.py
@@ -161,7 +161,7 @@ def extract_features_dataframe(log: Union[EventLog, pd.DataFrame], str_tr_attr=N
     if kwargs is not None:
         parameters = kwargs
 
-    properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key)
+    properties = get_properties(log, activity_key=activity_key, timestamp_key=timestamp_key, case_id_key=case_id_key, resource_key=resource_key)
     for prop in properties:
         parameters[prop] = properties[prop]
 
-- 
2.43.0


From 658a6a10f8f74af981269390e8e0183788221bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 203/220] fix: the OCEL event features "starts/ends an object
 of the type" looked up the characters of the event identifiers (always 0),
 failed for objects without events, and the end feature was named as the start
 one

---
 .../transformation/ocel/features/events/event_end_ot.py     | 6 +++---
 .../transformation/ocel/features/events/event_start_ot.py   | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/features/events/event_end_ot.py b/pm4py/algo/transformation/ocel/features/events/event_end_ot.py
index b4edc68..10066f8 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_end_ot.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_end_ot.py
@@ -50,10 +50,10 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     map_endpoints = {ot: set() for ot in object_types}
     for ot in object_types:
         for obj in object_types[ot]:
-            for ev in endpoints[obj]:
-                map_endpoints[ot].add(ev)
+            if obj in endpoints:
+                map_endpoints[ot].add(endpoints[obj])
 
-    feature_names = ["@@event_start_"+ot for ot in object_types]
+    feature_names = ["@@event_end_"+ot for ot in object_types]
     data = []
 
     for ev in ordered_events:
diff --git a/pm4py/algo/transformation/ocel/features/events/event_start_ot.py b/pm4py/algo/transformation/ocel/features/events/event_start_ot.py
index 018a071..de7602d 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_start_ot.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_start_ot.py
@@ -50,8 +50,8 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     map_endpoints = {ot: set() for ot in object_types}
     for ot in object_types:
         for obj in object_types[ot]:
-            for ev in endpoints[obj]:
-                map_endpoints[ot].add(ev)
+            if obj in endpoints:
+                map_endpoints[ot].add(endpoints[obj])
 
     feature_names = ["@@event_start_"+ot for ot in object_types]
     data = []
-- 
2.43.0


From 355e0f0cd64555b289ebf75c62b01731b4facbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 204/220] fix: the OCEL features on the number of related
 objects failed for events without objects (KeyError)

---
 .../transformation/ocel/features/events/event_num_rel_objs.py   | 2 +-
 .../ocel/features/events/event_num_rel_objs_type.py             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py
index a2ddf4e..67c254e 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs.py
@@ -48,6 +48,6 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     feature_names = ["@@event_num_rel_objs"]
 
     for ev in ordered_events:
-        data.append([float(len(rel_objs[ev]))])
+        data.append([float(len(rel_objs[ev]) if ev in rel_objs else 0)])
 
     return data, feature_names
diff --git a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py
index d4b8636..fc82dea 100644
--- a/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py
+++ b/pm4py/algo/transformation/ocel/features/events/event_num_rel_objs_type.py
@@ -57,7 +57,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     for ev in ordered_events:
         data.append([])
         for ot in object_types:
-            rel_objs_ot = {x for x in rel_objs[ev] if object_type_association[x] == ot}
+            rel_objs_ot = {x for x in rel_objs.get(ev, []) if object_type_association[x] == ot}
             data[-1].append(float(len(rel_objs_ot)))
 
     return data, feature_names
-- 
2.43.0


From 87c7b8b5c4c7b1ddc75906981c365179c72b4f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 205/220] fix: the OCEL feature on the new interactions of an
 event counted also the interactions already seen in previous events

---
 .../algo/transformation/ocel/features/events/new_interactions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pm4py/algo/transformation/ocel/features/events/new_interactions.py b/pm4py/algo/transformation/ocel/features/events/new_interactions.py
index d214296..c891c16 100644
--- a/pm4py/algo/transformation/ocel/features/events/new_interactions.py
+++ b/pm4py/algo/transformation/ocel/features/events/new_interactions.py
@@ -56,6 +56,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
                 for o2 in rel_objs[ev]:
                     if o1 < o2:
                         if not (o1, o2) in interactions:
+                            interactions.add((o1, o2))
                             n = n + 1
         data.append([float(n)])
 
-- 
2.43.0


From 8c1a0c1e9ef8fd64bfe439da4c7ccadd1d4d4962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:53 +0000
Subject: [PATCH 206/220] fix: the OCEL work-in-progress feature ignored the
 objects already open at the start of the lifecycle of the object

---
 .../objects/object_work_in_progress.py        | 21 +++++++------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py b/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py
index 64cf554..e6cedff 100644
--- a/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py
+++ b/pm4py/algo/transformation/ocel/features/objects/object_work_in_progress.py
@@ -14,6 +14,7 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from bisect import bisect_left, bisect_right
 from pm4py.objects.ocel.obj import OCEL
 from typing import Optional, Dict, Any
 from pm4py.util import pandas_utils
@@ -47,23 +48,15 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None):
     data, feature_names = object_lifecycle_duration.apply(ocel, parameters=parameters)
     obj_dur = pandas_utils.instantiate_dataframe(data, columns=feature_names)
 
-    obj_dur["@@index"] = obj_dur.index
     obj_dur = obj_dur.to_dict("records")
 
     data = []
-    obj_dur.sort(key=lambda x: (x["@@object_lifecycle_start_timestamp"], x["@@object_lifecycle_end_timestamp"]))
-    for i in range(len(obj_dur)):
-        j = i + 1
-        ct = obj_dur[i]["@@object_lifecycle_end_timestamp"]
-        while j < len(obj_dur):
-            st = obj_dur[j]["@@object_lifecycle_start_timestamp"]
-            if st > ct:
-                break
-            j = j + 1
-        data.append([j - i, obj_dur[i]["@@index"]])
+    starts = sorted(x["@@object_lifecycle_start_timestamp"] for x in obj_dur)
+    ends = sorted(x["@@object_lifecycle_end_timestamp"] for x in obj_dur)
+    for obj in obj_dur:
+        # objects started before the end of the current one, minus the ones ended before its start
+        wip = bisect_right(starts, obj["@@object_lifecycle_end_timestamp"]) - bisect_left(ends, obj["@@object_lifecycle_start_timestamp"])
+        data.append([float(wip)])
     feature_names = ["@@object_wip"]
 
-    data.sort(key=lambda x: x[1])
-    data = [[float(x[0])] for x in data]
-
     return data, feature_names
-- 
2.43.0


From 002e2e939983aa85711c32ede34a33ebb620f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:18 +0000
Subject: [PATCH 207/220] fix: cluster_equivalent_ocel failed for objects
 without events (KeyError)

---
 pm4py/objects/ocel/util/rename_objs_ot_tim_lex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/objects/ocel/util/rename_objs_ot_tim_lex.py b/pm4py/objects/ocel/util/rename_objs_ot_tim_lex.py
index 082567e..453aaee 100644
--- a/pm4py/objects/ocel/util/rename_objs_ot_tim_lex.py
+++ b/pm4py/objects/ocel/util/rename_objs_ot_tim_lex.py
@@ -48,7 +48,7 @@ def apply(ocel: OCEL) -> OCEL:
     keys = sorted(list(objects_ot1))
     for ot in keys:
         objects = objects_ot1[ot]
-        objects.sort(key=lambda x: (objects_start[x], objects_end[x], x))
+        objects.sort(key=lambda x: (x not in objects_start, objects_start.get(x), objects_end.get(x), x))
         objects = {objects[i]: ot + "_" + str(i+1) for i in range(len(objects))}
         overall_objects.update(objects)
 
-- 
2.43.0


From 9285fbb5be90f42d1c444bc0558815b3f9c68ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:06 +0000
Subject: [PATCH 208/220] fix: the earth mover distance failed
 (ZeroDivisionError) when one of the languages contains the empty trace

---
 .../algo/evaluation/earth_mover_distance/variants/pyemd.py  | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
index 0d622c9..d8f8cfd 100644
--- a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
+++ b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
@@ -42,7 +42,11 @@ def normalized_levensthein(s1, s2):
     dist
         Distance
     """
-    return float(string_distance.levenshtein(s1, s2)) / float(max(len(s1), len(s2)))
+    max_len = max(len(s1), len(s2))
+    if max_len == 0:
+        # two empty strings (traces)
+        return 0.0
+    return float(string_distance.levenshtein(s1, s2)) / float(max_len)
 
 
 def get_act_correspondence(activities, parameters=None):
-- 
2.43.0


From bc8eefafe7f32376c8ba5cf32a62a5a2a3d7cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:06 +0000
Subject: [PATCH 209/220] fix: the earth mover distance was not the optimal
 transport cost: the mass in common to the two languages was never moved,
 although the normalized edit distance is not a metric

---
 .../evaluation/earth_mover_distance/variants/pyemd.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
index d8f8cfd..b54cf41 100644
--- a/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
+++ b/pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py
@@ -175,6 +175,12 @@ def apply(lang1: Dict[List[str], float], lang2: Dict[List[str], float], paramete
 
     distance_matrix = np.array(distance_matrix)
 
-    ret = emd(first_histogram, second_histogram, distance_matrix)
+    # the distance between the strings is not necessarily a metric (the normalized Levensthein distance is not).
+    # Keeps separated the bins of the two histograms, because pyemd (that expects a metric) never moves the mass
+    # which is in the same bin of both the histograms, also when moving it is convenient
+    zeros = np.zeros(len(enc1))
+    zeros_matrix = np.zeros(distance_matrix.shape)
+    ret = emd(np.concatenate([first_histogram, zeros]), np.concatenate([zeros, second_histogram]),
+              np.block([[zeros_matrix, distance_matrix], [np.transpose(distance_matrix), zeros_matrix]]))
 
     return ret
-- 
2.43.0


From 925d62b987eacfddbc9c12ff742d9eaa9fe6da52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:22 +0000
Subject: [PATCH 210/220] fix: the abstraction of the object-centric
 directly-follows graph was empty when include_header=False

---
 pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py b/pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py
index 24ab36f..7686a94 100644
--- a/pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py
+++ b/pm4py/algo/querying/llm/abstractions/ocel_ocdfg_descr.py
@@ -92,10 +92,10 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> str:
     if include_header:
         ret.append("If I have an object-centric event log with the following directly follows graph (split between the different object types):\n")
 
-        for ot in ot_edges:
-            ret.append("\nObject type: %s\n" % (ot))
-            for edg in ot_edges[ot]:
-                ret.append(__get_descr(edg, include_performance))
+    for ot in ot_edges:
+        ret.append("\nObject type: %s\n" % (ot))
+        for edg in ot_edges[ot]:
+            ret.append(__get_descr(edg, include_performance))
 
     ret.append("\n")
 
-- 
2.43.0


From aa5cc490dcc639b3b85312449b33918bd62b7447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:22 +0000
Subject: [PATCH 211/220] fix: abstract_ocel_ocdfg ignored its
 include_timestamps parameter

---
 pm4py/llm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/llm.py b/pm4py/llm.py
index faa2685..6ba70b1 100644
--- a/pm4py/llm.py
+++ b/pm4py/llm.py
@@ -171,7 +171,7 @@ def abstract_ocel_ocdfg(ocel: OCEL, include_header: bool = True, include_timesta
     """
     parameters = {}
     parameters["include_header"] = include_header
-    parameters["include_timestamps"] = include_timestamps
+    parameters["include_performance"] = include_timestamps
     parameters["max_len"] = max_len
 
     from pm4py.algo.querying.llm.abstractions import ocel_ocdfg_descr
-- 
2.43.0


From 218f7673e57940c813a973bc2df1cc348ea5501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:22 +0000
Subject: [PATCH 212/220] fix: abstract_ocel failed (KeyError) for events
 without objects and for objects without events

---
 .../algo/transformation/ocel/description/variants/variant1.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/transformation/ocel/description/variants/variant1.py b/pm4py/algo/transformation/ocel/description/variants/variant1.py
index b8552fb..6ac694d 100644
--- a/pm4py/algo/transformation/ocel/description/variants/variant1.py
+++ b/pm4py/algo/transformation/ocel/description/variants/variant1.py
@@ -62,7 +62,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> str:
     ret = ["\n\nevents:\n"]
 
     for ev in events:
-        stru = ev[ocel.event_activity] + " ( related objects: "+", ".join(relations[ev[ocel.event_id_column]])  + " ) "
+        stru = ev[ocel.event_activity] + " ( related objects: "+", ".join(relations.get(ev[ocel.event_id_column], []))  + " ) "
         if include_timestamps:
             stru = stru + " timestamp: "+str(ev[ocel.event_timestamp])
         ret.append(stru)
@@ -72,7 +72,7 @@ def apply(ocel: OCEL, parameters: Optional[Dict[Any, Any]] = None) -> str:
     for obj in objects:
         obj_id = obj[ocel.object_id_column]
         stru = obj_id + " object type: "+object_ots[obj_id]
-        if include_timestamps:
+        if include_timestamps and obj_id in objects_lifecycle:
             stru = stru + " ( lifecycle start: "+str(objects_start[obj_id])+" ; lifecycle end: "+str(objects_end[obj_id])+" ; lifecycle duration: "+str(objects_lifecycle[obj_id])+" )"
         ret.append(stru)
 
-- 
2.43.0


From cd6ff0b01e8660898a50fd54a42b3232e78f3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:22 +0000
Subject: [PATCH 213/220] fix: abstract_event_stream reversed the order of the
 events of the event stream given as input

---
 pm4py/algo/querying/llm/abstractions/stream_to_descr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pm4py/algo/querying/llm/abstractions/stream_to_descr.py b/pm4py/algo/querying/llm/abstractions/stream_to_descr.py
index 7694b00..40dcab6 100644
--- a/pm4py/algo/querying/llm/abstractions/stream_to_descr.py
+++ b/pm4py/algo/querying/llm/abstractions/stream_to_descr.py
@@ -59,7 +59,7 @@ def apply(log_obj: Union[EventLog, EventStream, pd.DataFrame], parameters: Optio
     response_header = exec_utils.get_param_value(Parameters.RESPONSE_HEADER, parameters, True)
     max_len = exec_utils.get_param_value(Parameters.MAX_LEN, parameters, constants.OPENAI_MAX_LEN)
 
-    event_stream.sort(key=lambda x: x[timestamp_key], reverse=True)
+    event_stream = sorted(event_stream, key=lambda x: x[timestamp_key], reverse=True)
 
     ret = ["\n"]
     interet = []
-- 
2.43.0


From 7d12f7c284739d79a7d5d192cae7d95c60550736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:22 +0000
Subject: [PATCH 214/220] fix: the abstractions of the DFG and of the variants
 put all the elements on one line when neither the frequency nor the
 performance is included

---
 pm4py/algo/querying/llm/abstractions/log_to_dfg_descr.py      | 3 ++-
 pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/pm4py/algo/querying/llm/abstractions/log_to_dfg_descr.py b/pm4py/algo/querying/llm/abstractions/log_to_dfg_descr.py
index 4938bf3..79824cb 100644
--- a/pm4py/algo/querying/llm/abstractions/log_to_dfg_descr.py
+++ b/pm4py/algo/querying/llm/abstractions/log_to_dfg_descr.py
@@ -112,7 +112,8 @@ def abstraction_from_frequency_performance_dfg(freq_dfg: Dict[Tuple[str, str], i
                     stru = stru + " " + secondary_performance_aggregation + " = "
                     stru = stru + "%.3f" % perf_dfg[p][secondary_performance_aggregation]
                     stru = stru + " "
-            stru = stru + ")\n"
+            stru = stru + ")"
+        stru = stru + "\n"
         ret = ret + stru
     ret = ret + "\n\n"
     return ret
diff --git a/pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py b/pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py
index 520a61f..fee715b 100644
--- a/pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py
+++ b/pm4py/algo/querying/llm/abstractions/log_to_variants_descr.py
@@ -106,7 +106,8 @@ def abstraction_from_variants_freq_perf_list(vars_list: List[Tuple[List[str], in
                     stru = stru + " " + secondary_performance_aggregation + " = "
                     stru = stru + "%.3f" % (v[3])
                     stru = stru + " "
-            stru = stru + ")\n"
+            stru = stru + ")"
+        stru = stru + "\n"
         ret = ret + stru
     ret = ret + "\n\n"
     return ret
-- 
2.43.0


From 6786710a346384170fb1dd25a49352736c64e43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:35 +0000
Subject: [PATCH 215/220] fix: the visualization of a heuristics net did not
 show the start/end activities without connections to other activities

---
 pm4py/visualization/heuristics_net/variants/pydotplus_vis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/visualization/heuristics_net/variants/pydotplus_vis.py b/pm4py/visualization/heuristics_net/variants/pydotplus_vis.py
index d78f3ef..7026f31 100644
--- a/pm4py/visualization/heuristics_net/variants/pydotplus_vis.py
+++ b/pm4py/visualization/heuristics_net/variants/pydotplus_vis.py
@@ -150,10 +150,10 @@ def get_graph(heu_net: HeuristicsNet, parameters: Optional[Dict[Union[str, Param
     start_end_nodes_set = set()
 
     for index, sa_list in enumerate(heu_net.start_activities):
-        start_end_nodes_set = start_end_nodes_set.union({n for n in sa_list if n in corr_nodes_names})
+        start_end_nodes_set = start_end_nodes_set.union({n for n in sa_list if n in heu_net.nodes})
 
     for index, ea_list in enumerate(heu_net.end_activities):
-        start_end_nodes_set = start_end_nodes_set.union({n for n in ea_list if n in corr_nodes_names})
+        start_end_nodes_set = start_end_nodes_set.union({n for n in ea_list if n in heu_net.nodes})
 
     for node_name in heu_net.nodes:
         node = heu_net.nodes[node_name]
-- 
2.43.0


From e9ef8a95ccf728f49a2c0d573952c839ef3d8e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:51 +0000
Subject: [PATCH 216/220] fix: the visualization of a heuristics net failed
 (UnboundLocalError) or repeated another edge when a start/end activity has
 less than min_dfg_occurrences occurrences

---
 .../heuristics_net/variants/pydotplus_vis.py              | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pm4py/visualization/heuristics_net/variants/pydotplus_vis.py b/pm4py/visualization/heuristics_net/variants/pydotplus_vis.py
index 7026f31..69c80d2 100644
--- a/pm4py/visualization/heuristics_net/variants/pydotplus_vis.py
+++ b/pm4py/visualization/heuristics_net/variants/pydotplus_vis.py
@@ -230,7 +230,9 @@ def get_graph(heu_net: HeuristicsNet, parameters: Optional[Dict[Union[str, Param
                 sa = corr_nodes_names[node_name]
                 if type(heu_net.start_activities[index]) is dict:
                     occ = heu_net.start_activities[index][node_name]
-                    if occ >= heu_net.min_dfg_occurrences:
+                    if occ < heu_net.min_dfg_occurrences:
+                        continue
+                    else:
                         if is_frequency:
                             this_pen_width = 1.0 + math.log(1 + occ) / 11.0
                             if heu_net.net_name[index]:
@@ -263,7 +265,9 @@ def get_graph(heu_net: HeuristicsNet, parameters: Optional[Dict[Union[str, Param
                 ea = corr_nodes_names[node_name]
                 if type(heu_net.end_activities[index]) is dict:
                     occ = heu_net.end_activities[index][node_name]
-                    if occ >= heu_net.min_dfg_occurrences:
+                    if occ < heu_net.min_dfg_occurrences:
+                        continue
+                    else:
                         if is_frequency:
                             this_pen_width = 1.0 + math.log(1 + occ) / 11.0
                             if heu_net.net_name[index]:
-- 
2.43.0


From cd7051d5d7e34ba692922be0e13824ce20bfb19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:51 +0000
Subject: [PATCH 217/220] fix: the simplification of POWL models with frequent
 transitions replaced choices and loops of silent transitions with an activity
 without name, and lost the cardinalities of the frequent transitions already
 in the model

---
 pm4py/objects/powl/obj.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pm4py/objects/powl/obj.py b/pm4py/objects/powl/obj.py
index b296087..d414200 100644
--- a/pm4py/objects/powl/obj.py
+++ b/pm4py/objects/powl/obj.py
@@ -345,17 +345,17 @@ class OperatorPOWL(POWL):
         if self.operator is Operator.XOR and len(self.children) == 2:
             child_0 = self.children[0]
             child_1 = self.children[1]
-            if isinstance(child_0, Transition) and isinstance(child_1, SilentTransition):
+            if type(child_0) is Transition and isinstance(child_1, SilentTransition):
                 return FrequentTransition(label=child_0.label, min_freq=0, max_freq=1)
-            elif isinstance(child_1, Transition) and isinstance(child_0, SilentTransition):
+            elif type(child_1) is Transition and isinstance(child_0, SilentTransition):
                 return FrequentTransition(label=child_1.label, min_freq=0, max_freq=1)
 
         if self.operator is Operator.LOOP and len(self.children) == 2:
             child_0 = self.children[0]
             child_1 = self.children[1]
-            if isinstance(child_0, Transition) and isinstance(child_1, SilentTransition):
+            if type(child_0) is Transition and isinstance(child_1, SilentTransition):
                 return FrequentTransition(label=child_0.label, min_freq=1, max_freq="-")
-            elif isinstance(child_1, Transition) and isinstance(child_0, SilentTransition):
+            elif type(child_1) is Transition and isinstance(child_0, SilentTransition):
                 return FrequentTransition(label=child_1.label, min_freq=0, max_freq="-")
 
         return OperatorPOWL(self.operator, [child.simplify_using_frequent_transitions() for child in self.children])
-- 
2.43.0


From 548e9872c6e08cd625e10727ab7835c30648d965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:15:08 +0000
Subject: [PATCH 218/220] fix: the starts_with/ends_with dataframe filters
 compared the concatenated labels, so the prefix (a, b) also kept the cases
 starting with (a, bc)

---
 .../algo/filtering/pandas/ends_with/ends_with_filter.py  | 9 +++------
 .../filtering/pandas/starts_with/starts_with_filter.py   | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py b/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
index a959e06..114d463 100644
--- a/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
+++ b/pm4py/algo/filtering/pandas/ends_with/ends_with_filter.py
@@ -67,12 +67,9 @@ def apply(df: pd.DataFrame, admitted_suffixes: List[str], parameters: Optional[D
     first_case_variant = variants_df["variant"].iloc[0]
     if isinstance(first_case_variant, tuple):
         # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-        admitted_suffixes = [constants.DEFAULT_VARIANT_SEP.join(x) for x in admitted_suffixes]
-    admitted_suffixes = tuple(admitted_suffixes)
-
-    variants_df = variants_df[variants_df["variant"].str.endswith(admitted_suffixes)]
+        variants_df = variants_df[variants_df["variant"].apply(lambda x: any(x[max(0, len(x) - len(y)):] == tuple(y) for y in admitted_suffixes))]
+    else:
+        variants_df = variants_df[variants_df["variant"].str.endswith(tuple(admitted_suffixes))]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
diff --git a/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py b/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
index 880aeff..a38af05 100644
--- a/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
+++ b/pm4py/algo/filtering/pandas/starts_with/starts_with_filter.py
@@ -67,12 +67,9 @@ def apply(df: pd.DataFrame, admitted_prefixes: List[str], parameters: Optional[D
     first_case_variant = variants_df["variant"].iloc[0]
     if isinstance(first_case_variant, tuple):
         # manage that as tuple
-        variants_df = variants_df.copy()
-        variants_df["variant"] = variants_df["variant"].apply(lambda x: constants.DEFAULT_VARIANT_SEP.join(list(x)))
-        admitted_prefixes = [constants.DEFAULT_VARIANT_SEP.join(x) for x in admitted_prefixes]
-    admitted_prefixes = tuple(admitted_prefixes)
-
-    variants_df = variants_df[variants_df["variant"].str.startswith(admitted_prefixes)]
+        variants_df = variants_df[variants_df["variant"].apply(lambda x: any(x[:len(y)] == tuple(y) for y in admitted_prefixes))]
+    else:
+        variants_df = variants_df[variants_df["variant"].str.startswith(tuple(admitted_prefixes))]
 
     i1 = df.set_index(case_id_glue).index
     i2 = variants_df.index
-- 
2.43.0


From ae3c152330fdcad751c9cec59fd590f936396ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:51 +0000
Subject: [PATCH 219/220] fix: a DFG written with an encoding that has a byte
 order mark (utf-16) could not be read back: every line was encoded on its own

---
 pm4py/objects/dfg/exporter/variants/classic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pm4py/objects/dfg/exporter/variants/classic.py b/pm4py/objects/dfg/exporter/variants/classic.py
index 7346391..29b2021 100644
--- a/pm4py/objects/dfg/exporter/variants/classic.py
+++ b/pm4py/objects/dfg/exporter/variants/classic.py
@@ -99,9 +99,9 @@ def apply(dfg, output_path, parameters=None):
 
     encoding = exec_utils.get_param_value(Parameters.ENCODING, parameters, constants.DEFAULT_ENCODING)
 
-    F = open(output_path, "wb")
+    F = open(output_path, "w", encoding=encoding, newline="")
     for row in export_line_by_line(dfg, parameters=parameters):
-        F.write(row.encode(encoding))
+        F.write(row)
     F.close()
 
 
-- 
2.43.0


From 6e028debda4a7d1f856f70cc24926cfb5ec405b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:08 +0000
Subject: [PATCH 220/220] fix: the inductive miner on DFGs lost behaviour of
 the DFG: skippable parts of sequences were mandatory, starts and ends inside
 sequences and the entries of redo parts were ignored, activities concurrent
 to their whole surroundings disappeared

---
 pm4py/algo/discovery/inductive/cuts/concurrency.py |  4 ++++
 pm4py/algo/discovery/inductive/cuts/loop.py        |  9 ++++++---
 pm4py/algo/discovery/inductive/cuts/sequence.py    | 12 +++++++++---
 pm4py/algo/discovery/inductive/variants/imd.py     | 10 ++++++++++
 4 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/pm4py/algo/discovery/inductive/cuts/concurrency.py b/pm4py/algo/discovery/inductive/cuts/concurrency.py
index 09f5d53..095735c 100644
--- a/pm4py/algo/discovery/inductive/cuts/concurrency.py
+++ b/pm4py/algo/discovery/inductive/cuts/concurrency.py
@@ -114,6 +114,10 @@ class ConcurrencyCutDFG(ConcurrencyCut[IMDataStructureDFG]):
             for (a, b) in obj.dfg.graph:
                 if a in g and b in g:
                     dfn.graph[(a, b)] = obj.dfg.graph[(a, b)]
+            # activities connected only to the other groups are performed alone in this one
+            for a in set(g).difference(dfu.get_vertices(dfn)):
+                dfn.start_activities[a] = 1
+                dfn.end_activities[a] = 1
             skippable.append(False)
             dfgs.append(dfn)
         r = list()
diff --git a/pm4py/algo/discovery/inductive/cuts/loop.py b/pm4py/algo/discovery/inductive/cuts/loop.py
index 636008e..21e4b3c 100644
--- a/pm4py/algo/discovery/inductive/cuts/loop.py
+++ b/pm4py/algo/discovery/inductive/cuts/loop.py
@@ -223,8 +223,11 @@ class LoopCutDFG(LoopCut[IMDataStructureDFG]):
                     else:
                         skippable[1] = True
             elif gind == 1:
-                for a in g:
-                    dfn.start_activities[a] = 1
-                    dfn.end_activities[a] = 1
+                # the redo part is entered from the end activities, and left towards the start activities
+                for a, b in dfg.graph:
+                    if a in dfg.end_activities and b in g:
+                        dfn.start_activities[b] += dfg.graph[a, b]
+                    if a in g and b in dfg.start_activities:
+                        dfn.end_activities[a] += dfg.graph[a, b]
             dfgs.append(dfn)
         return [IMDataStructureDFG(InductiveDFG(dfg=dfgs[i], skip=skippable[i])) for i in range(len(dfgs))]
diff --git a/pm4py/algo/discovery/inductive/cuts/sequence.py b/pm4py/algo/discovery/inductive/cuts/sequence.py
index 808b86b..ce20a73 100644
--- a/pm4py/algo/discovery/inductive/cuts/sequence.py
+++ b/pm4py/algo/discovery/inductive/cuts/sequence.py
@@ -231,12 +231,12 @@ class SequenceCutDFG(SequenceCut[IMDataStructureDFG]):
             from_prev_arcs = Counter()
             if i < len(groups) - 1:
                 for (a, b) in dfg.graph:
-                    if a in groups[i] and b in groups[i + 1]:
+                    if a in groups[i] and b not in groups[i]:
                         to_succ_arcs[a] += dfg.graph[(a, b)]
 
             if i > 0:
                 for (a, b) in dfg.graph:
-                    if a in groups[i - 1] and b in groups[i]:
+                    if a not in groups[i] and b in groups[i]:
                         from_prev_arcs[b] += dfg.graph[(a, b)]
 
             if i == 0:
@@ -250,6 +250,9 @@ class SequenceCutDFG(SequenceCut[IMDataStructureDFG]):
                             skippable[j] = True
                             j = j + 1
             else:
+                for a in dfg.start_activities:
+                    if a in groups[i]:
+                        from_prev_arcs[a] += dfg.start_activities[a]
                 start_activities.append(from_prev_arcs)
 
             if i == len(groups) - 1:
@@ -263,6 +266,9 @@ class SequenceCutDFG(SequenceCut[IMDataStructureDFG]):
                             skippable[j] = True
                             j = j + 1
             else:
+                for a in dfg.end_activities:
+                    if a in groups[i]:
+                        to_succ_arcs[a] += dfg.end_activities[a]
                 end_activities.append(to_succ_arcs)
 
             activities.append({})
@@ -286,7 +292,7 @@ class SequenceCutDFG(SequenceCut[IMDataStructureDFG]):
             z = activities_idx[b]
             j = activities_idx[a] + 1
             while j < z:
-                skippable[j] = False
+                skippable[j] = True
                 j = j + 1
 
         return [IMDataStructureDFG(InductiveDFG(dfg=dfgs[i], skip=skippable[i])) for i in range(len(dfgs))]
diff --git a/pm4py/algo/discovery/inductive/variants/imd.py b/pm4py/algo/discovery/inductive/variants/imd.py
index b6240fe..119d687 100644
--- a/pm4py/algo/discovery/inductive/variants/imd.py
+++ b/pm4py/algo/discovery/inductive/variants/imd.py
@@ -14,12 +14,22 @@
     You should have received a copy of the GNU General Public License
     along with PM4Py.  If not, see <https://www.gnu.org/licenses/>.
 '''
+from typing import Optional, Dict, Any
+
 from pm4py.algo.discovery.inductive.dtypes.im_ds import IMDataStructureDFG
+from pm4py.algo.discovery.inductive.fall_through.empty_traces import EmptyTracesDFG
 from pm4py.algo.discovery.inductive.variants.abc import InductiveMinerFramework
 from pm4py.algo.discovery.inductive.variants.instances import IMInstance
+from pm4py.objects.process_tree.obj import ProcessTree
 
 
 class IMD(InductiveMinerFramework[IMDataStructureDFG]):
 
     def instance(self) -> IMInstance:
         return IMInstance.IMd
+
+    def apply(self, obj: IMDataStructureDFG, parameters: Optional[Dict[str, Any]] = None) -> ProcessTree:
+        empty_traces = EmptyTracesDFG.apply(obj, parameters)
+        if empty_traces is not None:
+            return self._recurse(empty_traces[0], empty_traces[1], parameters)
+        return super().apply(obj, parameters)
-- 
2.43.0

