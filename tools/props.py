#!/usr/bin/env python3
"""Source of truth for properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe, level_note, state=(), technique=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=list(state),
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None),
                  _note=level_note, _tech=technique))

L = "pm4py/objects/log/"
prop("C01", "XES export followed by import reproduces the event log",
     "Writing any event log (EventLog or formatted dataframe) to XES and reading it back, with any of the library's XES exporters and importers, compressed or not, from file or from string, yields the same traces in the same order with the same events in the same order, and every attribute (log, trace and event level; string, date with its instant and sub-second part, int, float, boolean, id, nested and list attributes) with the same key, type and value. Extensions, classifiers and global attribute declarations survive too.",
     ["inputs", "configurations"], "all event logs with arbitrary attribute keys/values/nesting x every exporter x every importer x compression",
     "The tests round-trip two or three fixed files with one importer and compare only counts or a few attributes; the space of attribute types, unusual characters, nesting and importer/exporter pairs is unsampled.",
     [L+"exporter/xes/variants/etree_xes_exp.py", L+"exporter/xes/variants/line_by_line.py", L+"importer/xes/variants/iterparse.py", L+"importer/xes/variants/iterparse_20.py", L+"importer/xes/variants/iterparse_mem_compressed.py", L+"importer/xes/variants/chunk_regex.py", L+"importer/xes/variants/line_by_line.py", "pm4py/read.py", "pm4py/write.py"],
     [("attribute type mapping and escaping", L+"exporter/xes/variants/line_by_line.py"), ("tag dispatch while parsing", L+"importer/xes/variants/iterparse.py")],
     ["log object before export vs. log object after import"],
     "Observed executions only: random hostile logs through every exporter/importer pair, structural comparison of the two logs.")

prop("C02", "Log representations convert into each other without loss",
     "Converting an event log between dataframe, event stream and trace-based log preserves every case, the order of events inside each case, every event and case attribute with its value (absent attributes stay absent, not NaN), and the number of events; chains of conversions end where they started. Formatting a raw dataframe under user-chosen case/activity/timestamp columns keeps every row that has all three values, sorts each case by time with ties in their original order, and discards nothing else.",
     ["inputs", "programs"], "all logs x all conversion chains x column names",
     "Tests convert fixed logs and check lengths; missing values, ties, unsorted rows, mixed-type columns and custom column names are not explored.",
     ["pm4py/convert.py", "pm4py/utils.py", "pm4py/objects/conversion/log/variants/to_event_log.py", "pm4py/objects/conversion/log/variants/to_event_stream.py", "pm4py/objects/conversion/log/variants/to_data_frame.py", "pm4py/objects/log/util/dataframe_utils.py"],
     [("grouping by case and case: prefix handling", "pm4py/objects/conversion/log/variants/to_event_log.py")],
     ["records (case, position, attribute, value) extracted before and after conversion"],
     "Observed executions only: random logs with sparse attributes and random conversion chains, compared record by record.")

prop("C03", "Process models survive being written and read back",
     "Writing a Petri net with its markings to PNML, a process tree to PTML, a DFG to its file format, a BPMN diagram to BPMN XML, or any of these through the in-memory serializer, and reading it back yields an isomorphic model: same labelled and silent transitions, arcs and weights, initial and final markings; same operators and child order; same counts; same flow nodes, gateway kinds and edges. Printing a process tree or POWL model and parsing the text gives back an equal model.",
     ["inputs"], "all models with arbitrary labels (quotes, XML metacharacters, unicode), names, weights and markings",
     "The tests round-trip a few well-behaved models and mostly check that no exception is raised.",
     ["pm4py/objects/petri_net/exporter/variants/pnml.py", "pm4py/objects/petri_net/importer/variants/pnml.py", "pm4py/objects/process_tree/exporter/variants/ptml.py", "pm4py/objects/process_tree/importer/variants/ptml.py", "pm4py/objects/dfg/exporter/variants/classic.py", "pm4py/objects/dfg/importer/variants/classic.py", "pm4py/objects/bpmn/exporter/variants/etree.py", "pm4py/objects/bpmn/importer/variants/lxml.py", "pm4py/objects/process_tree/utils/generic.py", "pm4py/objects/powl/parser.py", "pm4py/utils.py"],
     [("XML writers/readers", "pm4py/objects/*/exporter, importer"), ("string parser", "pm4py/objects/process_tree/utils/generic.py")],
     ["model before writing vs. model after reading (labelled-graph comparison)"],
     "Observed executions only: random models with hostile labels, labelled-graph comparison keyed by preserved names.")

prop("C04", "OCEL files round-trip object-centric logs",
     "Writing an object-centric event log and reading it back (OCEL 1.0 as JSON, XML, SQLite or CSV; OCEL 2.0 as JSON, XML or SQLite) preserves the events with activity, timestamp and attributes, the objects with type and attributes, the event-to-object relations, and for OCEL 2.0 also relation qualifiers, object-to-object relations and time-stamped object attribute changes.",
     ["inputs", "configurations"], "all OCELs x all formats",
     "The tests round-trip one or two example files and compare only counts at most.",
     ["pm4py/objects/ocel/exporter/jsonocel/variants/classic.py", "pm4py/objects/ocel/exporter/jsonocel/variants/ocel20_standard.py", "pm4py/objects/ocel/exporter/xmlocel/variants/classic.py", "pm4py/objects/ocel/exporter/xmlocel/variants/ocel20.py", "pm4py/objects/ocel/exporter/sqlite/variants/ocel20.py", "pm4py/objects/ocel/exporter/csv/variants/pandas.py", "pm4py/objects/ocel/importer/jsonocel/variants/classic.py", "pm4py/objects/ocel/importer/xmlocel/variants/ocel20.py", "pm4py/objects/ocel/importer/sqlite/variants/ocel20.py", "pm4py/read.py", "pm4py/write.py"],
     [("table <-> file mapping", "pm4py/objects/ocel/exporter, importer")],
     ["OCEL tables before writing vs. after reading"],
     "Observed executions only: random OCELs with attributes, qualifiers, O2O, changes, through every format pair.")

prop("C05", "Follows-relations are counted exactly",
     "For every event log, the discovered directly-follows graph, start and end activities, eventually-follows graph and minimum self distances (with witnesses) equal the counts obtained by walking every trace: each directly-follows pair is counted once per adjacent occurrence, and flow is conserved at every activity (occurrences = starts + incoming = ends + outgoing). The typed, clean, noise-filtered and trie/prefix-tree views are derived from those same counts.",
     ["inputs"], "all logs, including ties, single-event traces, repeated activities and empty traces",
     "Tests check the counts of a couple of fixed logs.",
     ["pm4py/discovery.py", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py", "pm4py/algo/discovery/dfg/variants/native.py", "pm4py/algo/discovery/dfg/variants/clean.py", "pm4py/statistics/eventually_follows/log/get.py", "pm4py/statistics/eventually_follows/pandas/get.py", "pm4py/algo/discovery/minimum_self_distance/variants/log.py", "pm4py/algo/transformation/log_to_trie/algorithm.py"],
     [("shift-and-merge counting", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py")],
     ["discovered relation tables vs. trace walk"],
     "Observed executions only: independent trace-walk oracle on random logs for EventLog and dataframe inputs.")

prop("C06", "Log filters keep exactly the cases or events they promise",
     "Every log filter (start/end activities, event and case attribute values, variants and top-k/coverage, directly/eventually-follows paths, time ranges, case size, performance and path performance, rework, prefixes, suffixes, between, trace segments, four-eyes, different resources, relative occurrence) returns exactly the cases or events satisfying its documented predicate, with their events, attributes and order unchanged. The positive and negative modes of one filter partition the log.",
     ["inputs", "configurations"], "all logs x all filters x all parameter values, on both log representations",
     "Tests call each filter once on one log, mostly without checking the surviving cases.",
     ["pm4py/filtering.py", "pm4py/algo/filtering/log", "pm4py/algo/filtering/pandas"],
     [("per-filter predicates", "pm4py/algo/filtering/{log,pandas}/*")],
     ["identities of surviving events vs. reference predicate over the traces"],
     "Observed executions only: each filter has an independent predicate oracle; events carry unique ids so survivors are identified exactly.")

prop("C07", "Log statistics equal their definitions",
     "Start/end activities, variants with counts, attribute values (per event or once per case), case durations, arrival average, rework, case overlap, cycle time, service time, activity position summaries, frequent trace segments and per-variant path durations equal their textbook definition evaluated over the events of the log. Splitting by variant partitions the cases.",
     ["inputs"], "all logs on both representations",
     "Tests print or check single values for one log.",
     ["pm4py/stats.py", "pm4py/statistics"],
     [("per-statistic modules", "pm4py/statistics/*")],
     ["statistic value vs. value recomputed from the raw events"],
     "Observed executions only: independent recomputation on random logs.")

prop("C08", "Time performance figures, including business hours, are exact",
     "For any two instants, the business-hours duration equals the time in the interval covered by the configured weekly slots; it is additive over adjacent intervals and never exceeds wall-clock time. Performance DFGs report for each directly-follows pair the mean, median, min, max, sum and standard deviation of precisely the observed gaps (wall clock or business hours), and the business-hours options of durations and temporal profiles are consistent with it.",
     ["inputs", "configurations"], "all instants, slot configurations, logs",
     "Tests check a handful of intervals; week-boundary, slot-boundary and sub-day cases are not enumerated.",
     ["pm4py/util/business_hours.py", "pm4py/algo/discovery/dfg/variants/performance.py", "pm4py/algo/discovery/dfg/adapters/pandas/df_statistics.py", "pm4py/discovery.py", "pm4py/stats.py"],
     [("slot arithmetic", "pm4py/util/business_hours.py")],
     ["reported seconds vs. second-level interval intersection"],
     "Observed executions only: interval-intersection oracle over random instants and slots.")

prop("C09", "Results do not depend on how the log is represented",
     "An analysis (discovery, conformance, statistics, filtering) gives the same answer whether the log is a dataframe or an EventLog, whether the case, activity, timestamp and resource columns have the default or user-chosen names passed as keys, whether the dataframe carries extra columns or another index, and whatever the interleaving of rows of different cases or order of cases in the input.",
     ["inputs", "configurations"], "all logs x every key-parametric API function x representation changes",
     "Tests exercise the default keys almost exclusively, and each representation on its own.",
     ["pm4py/discovery.py", "pm4py/stats.py", "pm4py/conformance.py", "pm4py/filtering.py", "pm4py/utils.py", "pm4py/util/exec_utils.py"],
     [("key parameters", "pm4py/utils.py get_properties"), ("parameter lookup", "pm4py/util/exec_utils.py")],
     ["canonicalised result of the same call on equivalent inputs"],
     "Observed executions only: metamorphic comparison of canonicalised results.")

prop("C10", "Analyses do not modify their inputs",
     "Calling a discovery, conformance, statistics, filtering, conversion, simulation, soundness or export function leaves the log, model, marking, OCEL and parameter objects passed to it exactly as they were, so that repeating the call or using the object afterwards is unaffected.",
     ["inputs", "histories"], "all API calls on all inputs, and sequences of them",
     "Unit tests load fresh data for each call and never compare the input with its former self.",
     ["pm4py/filtering.py", "pm4py/conformance.py", "pm4py/discovery.py", "pm4py/convert.py", "pm4py/ocel.py", "pm4py/algo/conformance/tokenreplay/variants/token_replay.py", "pm4py/algo/conformance/alignments/petri_net/algorithm.py"],
     [("defensive copies", "throughout pm4py")],
     ["deep snapshot of the arguments before and after each call; result of the second identical call"],
     "Observed executions only: deep snapshots of arguments around public API calls.")

prop("C11", "The Petri-net token game and its state space follow the firing rule",
     "A transition is reported enabled exactly when each input place holds at least the arc weight (inhibitor arcs require an empty place, reset arcs never disable); firing consumes and produces exactly the arc weights, empties reset places, refuses disabled transitions and leaves the marking it started from untouched. The reachability graph contains exactly the markings and labelled steps obtained by exhaustive firing, marking arithmetic and comparison are consistent with multisets, and the incidence structure reproduces each firing.",
     ["inputs", "histories"], "all nets, markings and firing sequences",
     "Tests execute a few firings in one net.",
     ["pm4py/objects/petri_net/semantics.py", "pm4py/objects/petri_net/inhibitor_reset/semantics.py", "pm4py/objects/petri_net/obj.py", "pm4py/objects/petri_net/utils/reachability_graph.py", "pm4py/objects/petri_net/utils/incidence_matrix.py", "pm4py/objects/petri_net/utils/petri_utils.py", "pm4py/analysis.py"],
     [("firing rule", "pm4py/objects/petri_net/semantics.py")],
     ["marking before and after every firing of a random walk; reachability graph vs. own BFS"],
     "Observed executions only: random nets and walks against an independent token game.")

prop("C12", "Soundness and workflow-net verdicts are correct",
     "A net is reported to be a workflow net exactly when it has one source place, one sink place and every node lies on a path between them. For workflow nets with a finite state space the soundness check answers sound exactly when every marking reachable from the initial one can reach the final marking, the final marking is the only reachable one marking the sink, and every labelled transition can fire (dead invisible transitions are not judged).",
     ["inputs"], "all (small, bounded and unbounded) nets",
     "Tests check three or four nets.",
     ["pm4py/algo/analysis/woflan/algorithm.py", "pm4py/algo/analysis/workflow_net/variants/petri_net.py", "pm4py/analysis.py", "pm4py/objects/petri_net/utils/check_soundness.py"],
     [("Woflan", "pm4py/algo/analysis/woflan")],
     ["verdict vs. explicit state-space decision"],
     "Observed executions only: random nets (sound, and mutated to unsound) against explicit-state decision.")

prop("C13", "Model conversions preserve the language",
     "Converting a process tree, POWL model, BPMN diagram, DFG or workflow net to another model type (Petri net, BPMN, process tree, POWL, reachability graph) yields a model with exactly the same set of visible-label sequences from start to completion, whenever the conversion succeeds; and a converted tree, POWL model or structured BPMN diagram is a sound workflow net.",
     ["inputs", "programs"], "all models x all conversions and chains of conversions",
     "Tests convert fixed models and do not compare languages.",
     ["pm4py/objects/conversion/process_tree/variants/to_petri_net.py", "pm4py/objects/conversion/process_tree/variants/to_bpmn.py", "pm4py/objects/conversion/wf_net/variants/to_process_tree.py", "pm4py/objects/conversion/wf_net/variants/to_bpmn.py", "pm4py/objects/conversion/bpmn/variants/to_petri_net.py", "pm4py/objects/conversion/powl/variants/to_petri_net.py", "pm4py/objects/conversion/dfg/variants/to_petri_net_activity_defines_place.py", "pm4py/objects/conversion/dfg/variants/to_petri_net_invisibles_no_duplicates.py", "pm4py/convert.py"],
     [("per-operator constructions", "pm4py/objects/conversion")],
     ["bounded language of source (own denotational semantics) vs. target (own token game)"],
     "Observed executions only: languages compared exactly up to a length bound via independent semantics.")

prop("C14", "Model simplifications preserve behaviour",
     "Removing silent transitions or implicit places from a Petri net, reducing or folding a process tree, binarising, sorting or otherwise normalising it, preserves the language of the model; the simplified model is no larger than the original.",
     ["inputs"], "all nets and trees",
     "Tests call reductions on one model without comparing languages.",
     ["pm4py/objects/petri_net/utils/reduction.py", "pm4py/objects/petri_net/utils/murata.py", "pm4py/objects/process_tree/utils/generic.py", "pm4py/algo/reduction/process_tree/variants/tree_tr_based.py", "pm4py/analysis.py"],
     [("reduction rules", "pm4py/objects/petri_net/utils/reduction.py"), ("fold/reduce_tau_leafs", "pm4py/objects/process_tree/utils/generic.py")],
     ["bounded languages before and after"],
     "Observed executions only: bounded language equality under independent semantics.")

prop("C15", "Play-out produces only and (exhaustively) all the model's behaviour",
     "Every trace played out from a Petri net, process tree or DFG belongs to the model's language, and the requested number of traces is produced; exhaustive play-out up to a length bound returns each trace of the language within the bound, once, and nothing else. Generated random trees respect the requested parameters.",
     ["inputs", "configurations"], "all models x play-out variants and bounds x random choices",
     "Tests check that play-out returns something.",
     ["pm4py/algo/simulation/playout/petri_net/variants/basic_playout.py", "pm4py/algo/simulation/playout/petri_net/variants/extensive.py", "pm4py/algo/simulation/playout/process_tree/variants/basic_playout.py", "pm4py/algo/simulation/playout/process_tree/variants/extensive.py", "pm4py/algo/simulation/playout/dfg/variants/classic.py", "pm4py/algo/simulation/tree_generator/variants/ptandloggenerator.py", "pm4py/sim.py"],
     [("play-out engines", "pm4py/algo/simulation/playout")],
     ["played-out traces vs. own language membership/enumeration"],
     "Observed executions only: membership and enumeration with independent semantics.")

prop("C16", "Inductive-miner models are sound and replay the whole log",
     "For every event log, the process tree, Petri net and BPMN diagram discovered by the inductive miner without noise filtering accept every trace of the log (including empty traces), contain exactly the activities of the log, and are sound workflow models; this holds with and without multiprocessing, for log and variants input, and with fall-throughs disabled the result is still a valid tree. With noise filtering the result is still a sound model over activities of the input; a model discovered from a directly-follows graph is sound, has exactly its activities, and can show each of its start activities, end activities and directly-follows pairs.",
     ["inputs", "configurations"], "all logs and noise thresholds",
     "Tests discover models from three logs and rarely replay them.",
     ["pm4py/algo/discovery/inductive/algorithm.py", "pm4py/algo/discovery/inductive/variants/im.py", "pm4py/algo/discovery/inductive/variants/imf.py", "pm4py/algo/discovery/inductive/variants/imd.py", "pm4py/algo/discovery/inductive/cuts", "pm4py/algo/discovery/inductive/fall_through", "pm4py/algo/discovery/inductive/base_case", "pm4py/discovery.py"],
     [("cut detection and log projection", "pm4py/algo/discovery/inductive/cuts"), ("fall-throughs", "pm4py/algo/discovery/inductive/fall_through")],
     ["membership of each log trace in the discovered model"],
     "Observed executions only: random logs, independent tree-language membership.")

prop("C17", "POWL discovery yields valid models that replay the log",
     "For every event log, each POWL discovery variant without frequency filtering returns a model whose partial orders are irreflexive and transitive, whose activities are those of the log, whose Petri net is sound and which accepts every trace of the log.",
     ["inputs", "configurations"], "all logs x POWL variants",
     "Tests discover POWL models from one log and do not replay it.",
     ["pm4py/algo/discovery/powl", "pm4py/objects/powl/obj.py", "pm4py/objects/powl/BinaryRelation.py", "pm4py/objects/conversion/powl/variants/to_petri_net.py"],
     [("partial order cuts", "pm4py/algo/discovery/powl/inductive/cuts")],
     ["membership of each log trace in the discovered model"],
     "Observed executions only: random logs, independent POWL semantics.")

prop("C18", "Classical miners produce the model their definition prescribes",
     "The alpha and alpha+ miners return the net given by their definition (maximal pairs of the footprint), the ILP miner without filtering returns a net on which every trace of the log replays, the heuristics miner's dependency values, AND measures and thresholded edges follow from the DFG counts, the transition system reflects exactly the log's prefixes or suffixes under the chosen view and window, the prefix tree contains exactly the log's variants, detected batches are exactly the merged execution intervals of each activity and resource with the right type, and the correlation miner's precedence scores are exact and its edges conserve the activity counts.",
     ["inputs", "configurations"], "all logs x parameters",
     "Tests compare against one log or only check that nothing crashes.",
     ["pm4py/algo/discovery/alpha/variants/classic.py", "pm4py/algo/discovery/ilp/variants/classic.py", "pm4py/algo/discovery/heuristics/variants/classic.py", "pm4py/objects/heuristics_net/obj.py", "pm4py/algo/discovery/transition_system/variants/view_based.py", "pm4py/algo/transformation/log_to_trie/algorithm.py", "pm4py/algo/discovery/batches/utils/detection.py"],
     [("maximal pairs", "pm4py/algo/discovery/alpha/variants/classic.py")],
     ["discovered structure vs. structure computed from the definition"],
     "Observed executions only: definitional oracles on random logs.")

prop("C19", "Footprints and footprint conformance reflect the behaviour exactly",
     "The footprints of a log contain exactly its directly-follows pairs split into sequence and parallel, its activities, start and end activities and minimum trace length; those of a process tree or Petri net contain exactly the pairs realised by its language. Footprint conformance reports exactly the pairs and start/end activities that occur in the log but not in the model, so a log whose traces all belong to the model has none, and fitness and precision stay in [0,1] with value 1 when footprints coincide.",
     ["inputs"], "all logs and models",
     "Tests compute footprints of single examples.",
     ["pm4py/algo/discovery/footprints", "pm4py/algo/conformance/footprints", "pm4py/conformance.py"],
     [("bottom-up tree footprints", "pm4py/algo/discovery/footprints/tree/variants/bottomup.py")],
     ["footprints vs. pairs read off the enumerated language"],
     "Observed executions only: own language enumeration as oracle.")

prop("C20", "DECLARE discovery and checking follow the constraint semantics",
     "The support and confidence reported for each discovered DECLARE constraint equal the fraction of cases activating, respectively satisfying, it under the template's semantics, and the thresholds and activity/template restrictions select exactly the constraints meeting them. Checking a log against a model reports for every case exactly the constraints it violates, and a log is fully conformant with the constraints discovered from it at confidence 1.",
     ["inputs"], "all logs, constraint sets and thresholds",
     "Tests check that discovery and checking run on one log.",
     ["pm4py/algo/discovery/declare/variants/classic.py", "pm4py/algo/conformance/declare/variants/classic.py", "pm4py/discovery.py", "pm4py/conformance.py"],
     [("template rules", "pm4py/algo/discovery/declare/variants/classic.py")],
     ["reported deviations vs. constraint semantics evaluated on each trace"],
     "Observed executions only: independent evaluators for every template.")

prop("C21", "Log skeletons describe the log and flag exactly the deviating cases",
     "The log skeleton discovered with zero noise contains exactly the equivalence, always-after, always-before, never-together, directly-follows and activity-frequency relations holding in every trace of the log. Checking a case reports exactly the relations it violates and is-fit exactly when there are none, so the log always conforms to its own skeleton, and raising the noise threshold only enlarges the discovered relations.",
     ["inputs"], "all logs and thresholds",
     "Tests check one log.",
     ["pm4py/algo/discovery/log_skeleton/variants/classic.py", "pm4py/algo/conformance/log_skeleton/variants/classic.py", "pm4py/discovery.py", "pm4py/conformance.py"],
     [("relations per trace", "pm4py/algo/discovery/log_skeleton")],
     ["reported relations and deviations vs. direct evaluation"],
     "Observed executions only: definitional oracle on random logs.")

prop("C22", "Temporal profiles and their deviations are exact",
     "The temporal profile holds for every pair of activities eventually following each other in some case the exact mean and standard deviation of all observed delays. Checking a log against a profile reports exactly the pairs of events whose delay lies outside mean +/- zeta times the standard deviation, with the right case, activities, delay and distance; a larger zeta never adds deviations.",
     ["inputs", "configurations"], "all logs, profiles and zeta",
     "Tests run it on one log.",
     ["pm4py/algo/discovery/temporal_profile/variants/log.py", "pm4py/algo/discovery/temporal_profile/variants/dataframe.py", "pm4py/algo/conformance/temporal_profile/variants/log.py", "pm4py/algo/conformance/temporal_profile/variants/dataframe.py"],
     [("delay accumulation", "pm4py/algo/discovery/temporal_profile")],
     ["profile and deviation list vs. direct evaluation"],
     "Observed executions only: definitional oracle on random logs.")

prop("C23", "Petri-net alignments are valid and optimal",
     "For every trace and easy-sound net, each alignment returned by any alignment variant is valid: its log projection is the trace, its model projection is a firing sequence from the initial to the final marking, and its moves are synchronous, log-only or model-only. Its cost equals the sum of its moves' costs and is minimal, also under user-supplied cost functions; all exact variants agree on it, and the derived fitness is 1 exactly for traces of the language.",
     ["inputs", "configurations"], "all nets, traces, cost functions, variants",
     "Tests align one log with models discovered from it and check at most that fitness is 1.",
     ["pm4py/algo/conformance/alignments/petri_net/algorithm.py", "pm4py/algo/conformance/alignments/petri_net/variants/state_equation_a_star.py", "pm4py/algo/conformance/alignments/petri_net/variants/tweaked_state_equation_a_star.py", "pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_no_heuristics.py", "pm4py/algo/conformance/alignments/petri_net/variants/dijkstra_less_memory.py", "pm4py/objects/petri_net/utils/align_utils.py", "pm4py/objects/petri_net/utils/synchronous_product.py"],
     [("synchronous product + A*", "pm4py/algo/conformance/alignments/petri_net/variants")],
     ["alignment moves replayed; cost vs. own shortest path over (position, marking)"],
     "Observed executions only: own Dijkstra over the product state space as cost oracle.")

prop("C24", "Alignments on other model types agree with the reference cost",
     "Process-tree, DFG and edit-distance alignments are valid against their model; the optimal cost reported on trees and DFGs equals the cost of aligning with the equivalent Petri net, and an edit-distance alignment uses a closest trace of the other log and costs nothing exactly when the trace occurs there; check-is-fitting answers true exactly for traces of the model's language. Diagnostics come back one per case in log order, identical with and without multiprocessing and for repeated variants. On a fixed battery of small nets, decomposed (recomposing) alignments are valid and optimal too.",
     ["inputs", "configurations"], "all trees, DFGs, logs",
     "Tests run them on one log and compare nothing.",
     ["pm4py/algo/conformance/alignments/process_tree/variants/search_graph_pt.py", "pm4py/algo/conformance/alignments/dfg/variants/classic.py", "pm4py/algo/conformance/alignments/edit_distance/variants/edit_distance.py", "pm4py/algo/conformance/alignments/decomposed/variants/recompos_maximal.py", "pm4py/conformance.py"],
     [("search graph", "pm4py/algo/conformance/alignments/process_tree/util/search_graph_pt_replay_semantics.py")],
     ["cost vs. own shortest path in the model"],
     "Observed executions only: own shortest-path oracle.")

prop("C25", "Token-based replay accounts for every token",
     "For every trace and net, token-based replay reports counts with produced + missing = consumed + remaining, trace fitness equal to the standard formula and within [0,1], and is-fit exactly when nothing is missing or remaining; the transitions it reports as activated form a firing sequence when the trace fits. A trace reported fit belongs, once the activities unknown to the net are left out, to the net's language, and on nets without silent transitions and duplicate labels every trace of the language is reported fit; log-level fitness aggregates the traces.",
     ["inputs", "configurations"], "all nets, traces and replay options",
     "Tests replay one log on discovered nets.",
     ["pm4py/algo/conformance/tokenreplay/variants/token_replay.py", "pm4py/algo/conformance/tokenreplay/variants/backwards.py", "pm4py/algo/evaluation/replay_fitness/variants/token_replay.py", "pm4py/conformance.py"],
     [("token accounting", "pm4py/algo/conformance/tokenreplay/variants/token_replay.py")],
     ["reported counters vs. replay of the reported transitions with own token game"],
     "Observed executions only: accounting monitor plus language membership on random nets and logs.")

prop("C26", "Quality metrics lie in range and follow their definitions",
     "Fitness, precision, generalization and simplicity lie in [0,1] for every log and net; alignment and token-based log fitness equal the aggregation of the per-trace diagnostics; precision equals one minus the share of escaping edges over the log's prefix automaton and is 1 when the model allows nothing beyond the log; generalization and simplicity equal their formulas. The metrics do not depend on case order or identifiers.",
     ["inputs"], "all logs and nets",
     "Tests check values on one log and model.",
     ["pm4py/algo/evaluation/precision/variants/etconformance_token.py", "pm4py/algo/evaluation/precision/variants/align_etconformance.py", "pm4py/algo/evaluation/replay_fitness/variants/alignment_based.py", "pm4py/algo/evaluation/replay_fitness/variants/token_replay.py", "pm4py/algo/evaluation/generalization/variants/token_based.py", "pm4py/algo/evaluation/simplicity/variants/arc_degree.py", "pm4py/conformance.py", "pm4py/analysis.py"],
     [("escaping edges", "pm4py/algo/evaluation/precision")],
     ["metric vs. recomputation from own prefix automaton and token game"],
     "Observed executions only: definitional oracles on random logs and nets.")

prop("C27", "Marking-equation solutions never overestimate the true distance",
     "The marking equation is feasible whenever the target marking is reachable and its optimum never exceeds the cost of any firing sequence reaching it; the extended marking equation of a trace and a net lies between zero and the optimal alignment cost. Synchronous products accept exactly the pairs of a trace position and a model run.",
     ["inputs"], "all nets, markings, traces",
     "Tests solve one equation.",
     ["pm4py/algo/analysis/marking_equation/variants/classic.py", "pm4py/algo/analysis/extended_marking_equation/variants/classic.py", "pm4py/objects/petri_net/utils/synchronous_product.py", "pm4py/analysis.py"],
     [("LP/ILP encoding", "pm4py/algo/analysis/marking_equation/variants/classic.py")],
     ["LP optimum vs. own shortest path"],
     "Observed executions only: own shortest-path oracle bounds every LP value.")

prop("C28", "Filtered and sampled OCELs are exact, consistent sub-logs",
     "Filtering or sampling an object-centric log (by event or object attribute, identifiers, object types, allowed activities per type, per-type counts, endpoints, timestamps, connected components, sampling) keeps exactly the events or objects meeting the documented criterion; the result is referentially consistent (every relation, object-to-object link and attribute change refers to kept events and objects) and what is kept is unchanged. Positive and negative modes select complementary sets.",
     ["inputs", "configurations"], "all OCELs x filters x parameters",
     "Tests call filters on one log and check a few counts.",
     ["pm4py/filtering.py", "pm4py/ocel.py", "pm4py/algo/filtering/ocel", "pm4py/objects/ocel/util/filtering_utils.py", "pm4py/objects/ocel/util/sampling.py"],
     [("propagation of filtering", "pm4py/objects/ocel/util/filtering_utils.py")],
     ["tables of the filtered log vs. reference selection"],
     "Observed executions only: set-level oracles for every filter.")

prop("C29", "OCEL flattening, object-centric models and summaries count correctly",
     "Flattening an object-centric log on an object type yields one case per object of that type, with exactly the events related to it in time order; the object-centric DFG, object-centric Petri nets, per-type activities and counts, temporal and object summaries and the object graphs (interaction, descendants, inheritance, co-birth, co-death) contain exactly what the relations of the log imply. Converting a traditional log into an object-centric one and flattening it back returns the original cases.",
     ["inputs"], "all OCELs",
     "Tests compute them once on one log.",
     ["pm4py/ocel.py", "pm4py/objects/ocel/util/flattening.py", "pm4py/algo/discovery/ocel/ocdfg/variants/classic.py", "pm4py/algo/discovery/ocel/ocpn/variants/classic.py", "pm4py/algo/transformation/ocel/graphs", "pm4py/objects/ocel/util/log_ocel.py", "pm4py/objects/ocel/obj.py"],
     [("flattening", "pm4py/objects/ocel/util/flattening.py")],
     ["outputs vs. recomputation from the relation table"],
     "Observed executions only: independent recomputation from the relations.")

prop("C30", "Live streams deliver each event exactly once, in order",
     "Every event or trace appended to a live stream before it is stopped, by any number of producer threads, is delivered to every registered listener exactly once, and stopping returns only after all deliveries are complete; nothing is delivered after that. Whatever the size of the delivery pool, each listener receives the events one at a time and in the stream's order (an event appended after another append has returned is delivered later), stopping terminates also when several threads stop the stream or a listener appends to it, and an exception inside one listener neither loses nor duplicates events for any listener. The dictionaries of the streaming package keep every concurrent update.",
     ["schedules", "fault_sequences", "inputs"], "all interleavings of producers, delivery thread, pool workers and stop; listener faults",
     "Tests push a log through one thread and look at the final result; interleavings are not varied.",
     ["pm4py/streaming/stream/live_event_stream.py", "pm4py/streaming/stream/live_trace_stream.py", "pm4py/streaming/algo/interface.py", "pm4py/streaming/util/dictio/versions/thread_safe.py"],
     [("condition variable + deque + pool", "pm4py/streaming/stream/live_event_stream.py"), ("listener lock", "pm4py/streaming/algo/interface.py")],
     ["append call/return events, per-listener delivery events, stop call/return"],
     "Observed interleavings only: event histories under stress, injected delays and faults, checked offline for exactly-once, order and quiescence.")

prop("C31", "Streaming analyses equal their batch counterparts",
     "After any stream of events, in any interleaving of cases and with any dictionary backend, the streaming DFG equals the batch DFG of the events received so far, and the streaming footprint, token-replay and temporal-profile checkers report for each case the same deviations as the batch definition on its events so far, also after cases are terminated. The streaming importers emit exactly the events (with case attributes) or traces that the batch importers read, in order.",
     ["inputs", "histories", "schedules"], "all event streams and interleavings of cases",
     "Tests stream one log, in case order.",
     ["pm4py/streaming/algo/discovery/dfg/variants/frequency.py", "pm4py/streaming/algo/conformance/footprints/variants/classic.py", "pm4py/streaming/algo/conformance/tbr/variants/classic.py", "pm4py/streaming/algo/conformance/temporal/variants/classic.py", "pm4py/streaming/importer/xes/variants/xes_event_stream.py", "pm4py/streaming/importer/xes/variants/xes_trace_stream.py", "pm4py/streaming/importer/csv/variants/csv_event_stream.py", "pm4py/streaming/conversion/from_pandas.py"],
     [("per-case dictionaries", "pm4py/streaming/algo")],
     ["state after each prefix of the stream vs. batch result on the prefix"],
     "Observed executions only: prefix-by-prefix comparison with batch oracles.")

prop("C32", "Organizational mining results match the resource behaviour",
     "Handover of work, subcontracting, working-together and activity-similarity networks, organizational roles and the network analysis contain exactly the resource relations (with their normalised weights) that the definitions give on the log's events; resource profiles count exactly the events, activities and cases of the resource in the period.",
     ["inputs"], "all logs with resources",
     "Tests run on one log.",
     ["pm4py/org.py", "pm4py/algo/organizational_mining/sna/variants/log", "pm4py/algo/organizational_mining/sna/variants/pandas", "pm4py/algo/organizational_mining/roles", "pm4py/algo/organizational_mining/resource_profiles", "pm4py/algo/organizational_mining/network_analysis"],
     [("SNA metrics", "pm4py/algo/organizational_mining/sna")],
     ["network vs. definition"],
     "Observed executions only: definitional oracles on random logs.")

prop("C33", "ML tables, prefixes, samples and splits are faithful to the log",
     "Train/test splits and samples partition or subset the cases without altering them; prefix extraction keeps exactly the first events of each case; artificial start/end insertion, outcome enrichment, service/waiting-time and arrival-rate columns, and feature tables hold one row per case (or event) with the values the log implies (in the log's case order; for dataframes sorted by case identifier).",
     ["inputs"], "all logs x parameters",
     "Tests check shapes on one log.",
     ["pm4py/ml.py", "pm4py/analysis.py", "pm4py/utils.py", "pm4py/algo/transformation/log_to_features/variants/trace_based.py", "pm4py/objects/log/util/dataframe_utils.py"],
     [("feature extraction", "pm4py/algo/transformation/log_to_features")],
     ["tables vs. values recomputed from events"],
     "Observed executions only: recomputation on random logs.")

prop("C34", "Stochastic languages and earth mover's distance behave as defined",
     "The stochastic language of a log assigns each variant its relative frequency and sums to one; that of a model played out gives positive weight only to traces of the model. The earth mover's distance is zero exactly for equal languages, symmetric, at most one, and equals the optimal transport cost under normalised edit distance.",
     ["inputs"], "all logs and pairs of languages",
     "Tests compute one distance.",
     ["pm4py/stats.py", "pm4py/analysis.py", "pm4py/statistics/variants/log/get.py", "pm4py/algo/evaluation/earth_mover_distance/variants/pyemd.py", "pm4py/util/string_distance.py"],
     [("transport problem", "pm4py/algo/evaluation/earth_mover_distance")],
     ["distance vs. own linear program"],
     "Observed executions only: own transport LP as oracle.")

prop("C35", "Object-centric feature tables and execution clusters are faithful to the OCEL",
     "The event, object and event-object feature tables of an object-centric log hold one row per event, object or related (event, object) pair with the values the log implies (counts of related objects, lifecycle starts/ends, durations, work in progress, interaction and descendants graph degrees, attribute values), and the clusters of equivalent executions group two sub-logs exactly when they coincide after the canonical renaming of their objects (by type and lifecycle).",
     ["inputs"], "all object-centric logs x feature parameters",
     "Tests check that tables are produced for one log.",
     ["pm4py/ocel.py", "pm4py/algo/transformation/ocel/features", "pm4py/algo/transformation/ocel/split_ocel", "pm4py/objects/ocel/util/rename_objs_ot_tim_lex.py"],
     [("object-centric features", "pm4py/algo/transformation/ocel/features")],
     ["tables vs. values recomputed from events, objects and relations"],
     "Observed executions only: recomputation on random object-centric logs.")

prop("C36", "Textual abstractions state exactly what the object contains",
     "The textual abstractions of logs (directly-follows graph, variants, attributes, features, event stream, case), of object-centric logs (events and objects, object-centric directly-follows graph, features) and of models (Petri net, DECLARE, log skeleton, temporal profile) list exactly the elements of the object with the right counts and times, in the documented order; a maximum length cuts only the tail of the list, the header flag changes only the header, and the object given is left unchanged.",
     ["inputs"], "all logs and models x options",
     "No test looks at the produced text.",
     ["pm4py/llm.py", "pm4py/algo/querying/llm/abstractions", "pm4py/algo/transformation/ocel/description/variants/variant1.py"],
     [("abstractions", "pm4py/algo/querying/llm/abstractions")],
     ["text parsed back vs. values recomputed from the object"],
     "Observed executions only: parse-back oracle on random logs and models.")

prop("C37", "Diagrams show exactly the model they are drawn from",
     "A saved diagram contains exactly the nodes, edges and labels of its object: directly-follows graphs with counts or times and start/end activities (keeping the most frequent edges when limited), Petri nets with markings and arc weights, process trees with ordered children, BPMN, POWL orders and operators, heuristics nets, transition systems, prefix trees, network analysis with its thresholds, object-centric directly-follows graphs and Petri nets, object graphs, footprint tables and alignment tables; drawing does not change the object.",
     ["inputs"], "all models x options",
     "Tests only check that drawing does not fail.",
     ["pm4py/vis.py", "pm4py/visualization/dfg", "pm4py/visualization/petri_net", "pm4py/visualization/process_tree", "pm4py/visualization/bpmn", "pm4py/visualization/powl", "pm4py/visualization/heuristics_net", "pm4py/visualization/transition_system", "pm4py/visualization/trie", "pm4py/visualization/network_analysis", "pm4py/visualization/ocel", "pm4py/visualization/footprints", "pm4py/visualization/align_table"],
     [("visualization", "pm4py/visualization")],
     ["diagram laid out by graphviz, read back as a graph and compared up to isomorphism"],
     "Observed executions only: graph isomorphism on random models.")

prop("C38", "Discovery rediscovers the model behind a complete log",
     "When a log shows every start activity, end activity and directly-follows pair of a block-structured model in which every activity occurs once and loop bodies cannot start and end with the same activity, the model discovered from it has exactly the language of that model: for the inductive miner (tree, Petri net, variants; logs and dataframes; also when parts of sequences can be skipped, and with a noise threshold too small to filter anything), for the inductive miner on the directly-follows graph, for POWL discovery (tree, brute force and maximal variants; the latter two also for partial orders of activities and choices shown in all their orders), and, with unique first and last activities, for the alpha and alpha+ miners (loops only inside sequences; alpha+ also loops of one and two activities between single activities) and, with sequences and choices only, for the heuristics miners.",
     ["inputs", "configurations"], "all block-structured models of the class x all complete logs x miners",
     "Tests discover models from fixed logs and look at their size or only that discovery ends.",
     ["pm4py/discovery.py", "pm4py/algo/discovery/inductive", "pm4py/algo/discovery/alpha/variants/classic.py", "pm4py/algo/discovery/alpha/variants/plus.py", "pm4py/algo/discovery/powl/inductive", "pm4py/algo/discovery/heuristics"],
     [("cut detection and projection", "pm4py/algo/discovery/inductive/cuts"), ("alpha relations", "pm4py/algo/discovery/alpha/variants/classic.py")],
     ["language of the discovered model vs. language of the known model"],
     "Observed executions only: random models, own play-out, exact language comparison.")

NOT_APPLICABLE = [
]
if __name__ == "__main__":
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}, ensure_ascii=False) + "\n")
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(ROOT, "rv", "checks", p["id"].lower() + ".py")):
            continue
        checks.append(dict(property=p["id"], quick_cmd=f"./check.sh {p['id']} quick", thorough_cmd=f"./check.sh {p['id']} thorough",
                           technique=p["_tech"] or "runtime monitoring: online/offline oracle monitors over executions of the real code under generated hostile workloads",
                           level="exploration", level_note=p["_note"]))
    claimed = {c["property"] for c in checks}
    na = list(NOT_APPLICABLE) + [dict(property=p["id"], reason="check not built yet") for p in P if p["id"] not in claimed and p["id"] not in {n["property"] for n in NOT_APPLICABLE}]
    man = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="Checks run the code in /repo directly (pure Python; no hooks in /repo: monitors attach at the public API from the harness). check.sh ID TIER; replay: check.sh --replay FILE.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False); f.write("\n")
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        for fn in p["anchors"]["files"]:
            if not os.path.exists(os.path.join("/repo", fn)):
                print("missing anchor", p["id"], fn, file=sys.stderr)
