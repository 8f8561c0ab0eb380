"""Catalogue of the log-based functions of pm4py, with canonical forms of their results."""
import hashlib
import inspect
import math
from datetime import datetime, timedelta
import pandas as pd
import pm4py
from rv import gen, ocelgen as og


# ------------------------------------------------------------------ canonical forms
def wl(nodes, edges, rounds=5):
    """colour-refinement signature of a labelled graph: nodes {id: label}, edges [(u, v, label)]"""
    c = {n: repr(l) for n, l in nodes.items()}
    H = lambda s: hashlib.md5(s.encode()).hexdigest()[:12]
    for _ in range(rounds):
        i, o = {n: [] for n in c}, {n: [] for n in c}
        for u, v, l in edges:
            o[u].append((repr(l), c[v]))
            i[v].append((repr(l), c[u]))
        c = {n: H(c[n] + repr(sorted(i[n])) + repr(sorted(o[n]))) for n in c}
    return sorted((repr(nodes[n]), c[n]) for n in c)


def c_net(x):
    net, im, fm = x
    nodes = {id(p): ("p", im.get(p, 0), fm.get(p, 0)) for p in net.places}
    nodes.update({id(t): ("t", t.label) for t in net.transitions})
    return wl(nodes, [(id(a.source), id(a.target), a.weight) for a in net.arcs])


def c_tree(t):
    f = gen.from_pt(t)

    def rec(t):
        if t[0] in ("a", "tau"):
            return t
        ch = [rec(c) for c in t[1]]
        return (t[0], tuple(sorted(ch, key=repr)) if t[0] in ("X", "+", "O") else (ch[0],) + tuple(sorted(ch[1:], key=repr)) if t[0] == "*" else tuple(ch))
    return repr(rec(f))


def c_bpmn(g):
    from rv.checks.c03 import base
    nodes = {id(n): (base(n), n.get_name() if base(n) == "Task" else "") for n in g.get_nodes()}
    return wl(nodes, [(id(f.get_source()), id(f.get_target()), "") for f in g.get_flows()])


def c_powl(m):
    from rv.checks.c03 import powl_view

    def rec(v):
        if v[0] == "X":
            return ("X",) + (tuple(sorted((rec(c) for c in v[1]), key=repr)),)
        if v[0] == "*":
            return ("*", tuple(rec(c) for c in v[1]))
        return v
    return repr(rec(powl_view(m)))


def c_trie(t):
    return sorted((c.label or "", bool(c.final), c_trie(c)) for c in t.children)


def c_hn(h):
    d = {}
    for n, x in h.nodes.items():
        d[n] = (canon(x.node_occ), bool(x.is_start_activity), bool(x.is_end_activity), sorted((o.node_name, sorted(repr(canon(e.repr_value)) for e in l)) for o, l in x.output_connections.items()))
    return d, canon(h.start_activities), canon(h.end_activities), canon(dict(h.dfg))


def c_ts(t):
    f = lambda x: repr(sorted(x.items())) if isinstance(x, dict) else str(x)
    return sorted((f(s.name), sorted((str(a.name), f(a.to_state.name)) for a in s.outgoing)) for s in t.states)


def num(v):
    return round(float(v), 6)


def canon(x):
    import numpy as np
    from pm4py.objects.log.obj import EventLog, EventStream
    from pm4py.objects.petri_net.obj import PetriNet
    if x is None or x is pd.NaT or (isinstance(x, float) and math.isnan(x)):
        return None
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, (int, float, np.integer, np.floating)):
        return num(x)
    if isinstance(x, str):
        return str(x)
    if isinstance(x, (pd.Timestamp, datetime, np.datetime64)):
        return ("t", og.inst(x))
    if isinstance(x, (timedelta, np.timedelta64)):
        return ("d", round(pd.Timedelta(x).total_seconds(), 6))
    if isinstance(x, dict):
        d = {rk(canon(k)): canon(v) for k, v in x.items()}
        return {k: d[k] for k in sorted(d)}
    if isinstance(x, (set, frozenset)):
        return ("set", sorted((canon(v) for v in x), key=repr))
    if isinstance(x, (list, tuple, np.ndarray, pd.Series)):
        return [canon(v) for v in x]
    if isinstance(x, pd.DataFrame):
        return sorted((canon({k: v for k, v in r.items()}) for r in x.to_dict("records")), key=repr)
    if isinstance(x, PetriNet.Transition):
        return ("transition", x.label)
    if isinstance(x, EventLog):
        return [[canon(dict(e)) for e in t] for t in x]
    return repr(x)


def rk(x):
    return x if isinstance(x, str) else repr(x)


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return math.isclose(a, b, rel_tol=1e-6, abs_tol=2e-6)
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def cases(x, K, uid=True):
    """case id -> [uid or (activity, instant)] of a log result (EventLog or dataframe), whatever the order of the cases"""
    from pm4py.objects.log.obj import EventLog
    out = {}
    ak, tk, ck = K.get("activity_key", "concept:name"), K.get("timestamp_key", "time:timestamp"), K.get("case_id_key", "case:concept:name")

    def ev(e):
        u = e.get("uid")
        return str(e[ak]), og.inst(e[tk]) if not (u is None and not uid) else None, None if u is None or u != u else int(u)
    if isinstance(x, EventLog):
        for i, t in enumerate(x):
            k = str(t.attributes["concept:name"])
            while k in out:
                k += "'"
            out[k] = [ev(e) for e in t]
    else:
        for r in x.to_dict("records"):
            out.setdefault(str(r[ck]), []).append(ev(r))
    return {k: v for k, v in out.items() if v}      # a case without events has no representation in a dataframe


def alikes(l):
    return sorted(l, key=repr)


# ------------------------------------------------------------------ environment: the choices of a run, the same for every representation
class Env:
    def __init__(self, rng, al=None, pool="ABCDEFG"):
        r = self.r = rng
        self.al = al
        self.acts = sorted({e["concept:name"] for _, _, ev in al.cases for e in ev})
        self.a, self.b, self.c = (r.choice(self.acts) for _ in range(3))
        self.some = r.sample(self.acts, r.randint(1, len(self.acts)))
        self.res = sorted({e["org:resource"] for _, _, ev in al.cases for e in ev})
        tr = [[e["concept:name"] for e in ev] for _, _, ev in al.cases]
        self.vs = sorted({tuple(t) for t in tr})
        self.variants = r.sample(self.vs, r.randint(1, len(self.vs)))
        self.sizes = sorted((r.randint(1, 8), r.randint(1, 8)))
        ts = sorted(e["time:timestamp"] for _, _, ev in al.cases for e in ev)
        self.lo, self.hi = sorted((r.choice(ts), r.choice(ts)))
        self.mode = r.choice(["events", "traces_contained", "traces_intersecting"])
        dur = sorted((ev[-1]["time:timestamp"] - ev[0]["time:timestamp"]).total_seconds() for _, _, ev in al.cases)
        self.dmin, self.dmax = sorted((r.choice(dur) - .5, r.choice(dur) + .5))
        self.retain = r.random() < .7
        self.flag = r.random() < .5
        self.k = r.randint(1, 4)
        self.noise = r.choice([0.0, 0.2])
        self.pair = (self.a, self.b)
        t = gen.rand_tree(r, self.acts[:6], depth=2)
        self.tree = gen.to_pt(t)
        self.net = pm4py.convert_to_petri_net(self.tree)
        kw = {}
        self.df0 = al.to_df()
        sub = self.df0[self.df0["case:concept:name"].isin(r.sample([c[0] for c in al.cases], max(1, len(al.cases) // 2)))]
        self.profile = pm4py.discover_temporal_profile(sub)
        self.skel = pm4py.discover_log_skeleton(sub)
        self.decl = pm4py.discover_declare(sub) if len(self.acts) <= 5 else {}
        self.fp = pm4py.discover_footprints(*self.net)

    def fmt(self, t):
        return t.strftime("%Y-%m-%d %H:%M:%S")


def accept(fn, K):
    p = inspect.signature(fn).parameters
    return {k: v for k, v in K.items() if k in p}


def C(fn, E, x, K, *a, **kw):
    kw2 = accept(fn, K)
    kw2.update(kw)
    return fn(x, *a, **kw2)


L = []          # (name, tags, call(E, x, K), canon(result, E, x, K))


def F(name, call, can=None, *tags):
    L.append((name, set(tags), call, can or (lambda r, E, x, K: canon(r))))


def fname(k):
    for p in ("trace:", "event:", "case:"):
        k = k[len(p):] if k.startswith(p) else k
    return k.replace("Act@", "concept:name_").replace("Act_", "concept:name_").replace("@", "_").encode("ascii", "ignore").decode().replace(" ", "")


log_of = lambda r, E, x, K: cases(r, K)
srt = lambda r, E, x, K: alikes(canon(r))
ms = lambda f: (lambda r, E, x, K: alikes([canon(f(y)) for y in r]))
P = pm4py
F("get_start_activities", lambda E, x, K: C(P.get_start_activities, E, x, K))
F("get_end_activities", lambda E, x, K: C(P.get_end_activities, E, x, K))
F("get_event_attribute_values", lambda E, x, K: C(P.get_event_attribute_values, E, x, K, K.get("activity_key", "concept:name") if E.flag else "kind", count_once_per_case=E.retain))
F("get_trace_attribute_values", lambda E, x, K: C(P.get_trace_attribute_values, E, x, K, "region"))
F("get_variants", lambda E, x, K: {k: (len(v) if hasattr(v, "__len__") else v) for k, v in C(P.get_variants, E, x, K).items()})
F("get_minimum_self_distances", lambda E, x, K: C(P.get_minimum_self_distances, E, x, K))
F("get_minimum_self_distance_witnesses", lambda E, x, K: {k: set(v) for k, v in C(P.get_minimum_self_distance_witnesses, E, x, K).items()})
F("get_case_arrival_average", lambda E, x, K: C(P.get_case_arrival_average, E, x, K), None, "case order")
F("get_rework_cases_per_activity", lambda E, x, K: C(P.get_rework_cases_per_activity, E, x, K))
F("get_cycle_time", lambda E, x, K: C(P.get_cycle_time, E, x, K))
F("get_case_overlap", lambda E, x, K: C(P.get_case_overlap, E, x, K), srt)
F("get_all_case_durations", lambda E, x, K: C(P.get_all_case_durations, E, x, K), srt)
F("get_case_duration", lambda E, x, K: C(P.get_case_duration, E, x, K, str(E.al.cases[0][0])))
F("get_activity_position_summary", lambda E, x, K: C(P.get_activity_position_summary, E, x, K, E.a))
F("get_stochastic_language", lambda E, x, K: P.get_stochastic_language(x, **({} if not K else {k: v for k, v in K.items()})), None, "nokeys")
F("get_service_time", lambda E, x, K: C(P.get_service_time, E, x, K, **({"start_timestamp_key": K["timestamp_key"]} if "timestamp_key" in K else {})))
F("split_by_process_variant", lambda E, x, K: None, None, "skip")
F("discover_dfg", lambda E, x, K: C(P.discover_dfg, E, x, K))
F("discover_performance_dfg", lambda E, x, K: C(P.discover_performance_dfg, E, x, K, business_hours=E.flag))
F("discover_eventually_follows_graph", lambda E, x, K: C(P.discover_eventually_follows_graph, E, x, K))
F("discover_petri_net_alpha", lambda E, x, K: C(P.discover_petri_net_alpha, E, x, K), lambda r, *_: c_net(r))
F("discover_petri_net_alpha_plus", lambda E, x, K: C(P.discover_petri_net_alpha_plus, E, x, K), lambda r, *_: c_net(r))
F("discover_petri_net_inductive", lambda E, x, K: C(P.discover_petri_net_inductive, E, x, K, noise_threshold=E.noise), lambda r, *_: c_net(r), "order")
F("discover_process_tree_inductive", lambda E, x, K: C(P.discover_process_tree_inductive, E, x, K, noise_threshold=E.noise), lambda r, *_: c_tree(r), "order")
F("discover_bpmn_inductive", lambda E, x, K: C(P.discover_bpmn_inductive, E, x, K, noise_threshold=E.noise), lambda r, *_: c_bpmn(r), "order")
F("discover_petri_net_heuristics", lambda E, x, K: C(P.discover_petri_net_heuristics, E, x, K), lambda r, *_: sorted(t.label for t in r[0].transitions if t.label))   # its AND/XOR grouping is greedy
F("discover_heuristics_net", lambda E, x, K: C(P.discover_heuristics_net, E, x, K), lambda r, *_: c_hn(r))
F("discover_petri_net_ilp", lambda E, x, K: C(P.discover_petri_net_ilp, E, x, K), lambda r, *_: c_net(r), "slow", "order")
F("discover_powl", lambda E, x, K: C(P.discover_powl, E, x, K), lambda r, *_: c_powl(r), "slow")
F("discover_prefix_tree", lambda E, x, K: C(P.discover_prefix_tree, E, x, K), lambda r, *_: c_trie(r))
F("discover_transition_system", lambda E, x, K: C(P.discover_transition_system, E, x, K, window=E.k, view="sequence" if E.flag else "multiset"), lambda r, *_: c_ts(r))
F("discover_temporal_profile", lambda E, x, K: C(P.discover_temporal_profile, E, x, K))
F("discover_log_skeleton", lambda E, x, K: C(P.discover_log_skeleton, E, x, K, noise_threshold=0.0 if E.flag else E.noise), lambda r, E, x, K: canon({k: v for k, v in r.items() if E.flag or k != "activ_freq"}))
F("discover_declare", lambda E, x, K: C(P.discover_declare, E, x, K), None, "slow")
F("discover_footprints", lambda E, x, K: P.discover_footprints(x), None, "nokeys", "df")
F("discover_batches", lambda E, x, K: C(P.discover_batches, E, x, K, merge_distance=86400), lambda r, *_: alikes([(list(k), n, sorted(map(repr, d if not isinstance(d, dict) else d.items()))) for k, n, d in ((z[0], z[1], [] ) for z in r)]))
F("conformance_diagnostics_token_based_replay", lambda E, x, K: C(P.conformance_diagnostics_token_based_replay, E, x, K, *E.net), ms(lambda d: (d["trace_is_fit"], d["trace_fitness"], d["missing_tokens"], d["consumed_tokens"], d["remaining_tokens"], d["produced_tokens"])))
F("conformance_diagnostics_alignments", lambda E, x, K: C(P.conformance_diagnostics_alignments, E, x, K, *E.net), ms(lambda d: (d["cost"], d["fitness"])))
F("fitness_token_based_replay", lambda E, x, K: C(P.fitness_token_based_replay, E, x, K, *E.net))
F("fitness_alignments", lambda E, x, K: C(P.fitness_alignments, E, x, K, *E.net))
F("precision_token_based_replay", lambda E, x, K: C(P.precision_token_based_replay, E, x, K, *E.net))
F("precision_alignments", lambda E, x, K: C(P.precision_alignments, E, x, K, *E.net), None, "slow")
F("generalization_tbr", lambda E, x, K: C(P.generalization_tbr, E, x, K, *E.net))
F("conformance_temporal_profile", lambda E, x, K: C(P.conformance_temporal_profile, E, x, K, E.profile, zeta=1.0), srt)
F("conformance_log_skeleton", lambda E, x, K: C(P.conformance_log_skeleton, E, x, K, E.skel), ms(lambda d: (d["no_dev_total"], d["no_constr_total"], sorted(map(repr, d["deviations"])), d["is_fit"])))
F("conformance_declare", lambda E, x, K: C(P.conformance_declare, E, x, K, E.decl), ms(lambda d: (d["no_dev_total"], d["no_constr_total"], sorted(map(repr, d["deviations"])))))
F("conformance_diagnostics_footprints", lambda E, x, K: P.conformance_diagnostics_footprints(x, E.fp), lambda r, E, x, K: alikes(canon(r)) if isinstance(r, list) else canon(r), "nokeys", "df")
F("fitness_footprints", lambda E, x, K: P.fitness_footprints(x, *E.net), None, "nokeys", "df")
F("precision_footprints", lambda E, x, K: P.precision_footprints(x, *E.net), None, "nokeys")
F("filter_start_activities", lambda E, x, K: C(P.filter_start_activities, E, x, K, E.some, retain=E.retain), log_of, "log")
F("filter_end_activities", lambda E, x, K: C(P.filter_end_activities, E, x, K, set(E.some), retain=E.retain), log_of, "log")
F("filter_event_attribute_values", lambda E, x, K: C(P.filter_event_attribute_values, E, x, K, K.get("activity_key", "concept:name"), E.some, level="event" if E.flag else "case", retain=E.retain), log_of, "log")
F("filter_trace_attribute_values", lambda E, x, K: C(P.filter_trace_attribute_values, E, x, K, "case:region" if isinstance(x, pd.DataFrame) else "region", ["N"], retain=E.retain), log_of, "log")
F("filter_log_relative_occurrence_event_attribute", lambda E, x, K: C(P.filter_log_relative_occurrence_event_attribute, E, x, K, .5, attribute_key=K.get("activity_key", "concept:name"), level="cases" if E.flag else "events"), log_of, "log")
F("filter_variants", lambda E, x, K: C(P.filter_variants, E, x, K, [list(v) if False else v for v in E.variants], retain=E.retain), log_of, "log")
F("filter_variants_by_coverage_percentage", lambda E, x, K: C(P.filter_variants_by_coverage_percentage, E, x, K, .3), log_of, "log")
F("filter_variants_by_maximum_coverage_percentage", lambda E, x, K: C(P.filter_variants_by_maximum_coverage_percentage, E, x, K, .3), log_of, "log")
F("filter_directly_follows_relation", lambda E, x, K: C(P.filter_directly_follows_relation, E, x, K, [E.pair], retain=E.retain), log_of, "log")
F("filter_eventually_follows_relation", lambda E, x, K: C(P.filter_eventually_follows_relation, E, x, K, [E.pair], retain=E.retain), log_of, "log")
F("filter_time_range", lambda E, x, K: C(P.filter_time_range, E, x, K, E.fmt(E.lo), E.fmt(E.hi), mode=E.mode), log_of, "log")
F("filter_between", lambda E, x, K: C(P.filter_between, E, x, K, E.a, E.b), lambda r, E, x, K: alikes(cases(r, K).values()), "log")
F("filter_case_size", lambda E, x, K: C(P.filter_case_size, E, x, K, *E.sizes), log_of, "log")
F("filter_case_performance", lambda E, x, K: C(P.filter_case_performance, E, x, K, E.dmin, E.dmax), log_of, "log")
F("filter_activities_rework", lambda E, x, K: C(P.filter_activities_rework, E, x, K, E.a, 2), log_of, "log")
F("filter_paths_performance", lambda E, x, K: C(P.filter_paths_performance, E, x, K, E.pair, 0, E.dmax, keep=E.retain), log_of, "log")
F("filter_prefixes", lambda E, x, K: C(P.filter_prefixes, E, x, K, E.a, strict=E.flag), log_of, "log")
F("filter_suffixes", lambda E, x, K: C(P.filter_suffixes, E, x, K, E.a, strict=E.flag), log_of, "log")
F("filter_four_eyes_principle", lambda E, x, K: C(P.filter_four_eyes_principle, E, x, K, E.a, E.b), log_of, "log")
F("filter_activity_done_different_resources", lambda E, x, K: C(P.filter_activity_done_different_resources, E, x, K, E.a), log_of, "log")
F("filter_trace_segments", lambda E, x, K: C(P.filter_trace_segments, E, x, K, [["...", E.a, E.b, "..."]], positive=E.retain), log_of, "log")
SNA = lambda r, *_: (canon(dict(r.connections)), r.is_directed)
F("discover_handover_of_work_network", lambda E, x, K: C(P.discover_handover_of_work_network, E, x, K), SNA, "res")
F("discover_working_together_network", lambda E, x, K: C(P.discover_working_together_network, E, x, K), SNA, "res")
F("discover_subcontracting_network", lambda E, x, K: C(P.discover_subcontracting_network, E, x, K), SNA, "res")
F("discover_activity_based_resource_similarity", lambda E, x, K: C(P.discover_activity_based_resource_similarity, E, x, K), SNA, "res")
F("discover_organizational_roles", lambda E, x, K: C(P.discover_organizational_roles, E, x, K), lambda r, *_: alikes([(sorted(z.activities), canon(z.originator_importance)) for z in r]), "res")
F("get_prefixes_from_log", lambda E, x, K: C(P.get_prefixes_from_log, E, x, K, E.k), log_of, "log")
F("insert_artificial_start_end", lambda E, x, K: C(P.insert_artificial_start_end, E, x, K), lambda r, E, x, K: {k: [e[0] for e in v] for k, v in cases(r, K, uid=False).items()}, "log")
F("insert_case_service_waiting_time", lambda E, x, K: C(P.insert_case_service_waiting_time, E, x, K, **({"start_timestamp_key": K["timestamp_key"]} if "timestamp_key" in K else {})),
  lambda r, E, x, K: {str(z[K.get("case_id_key", "case:concept:name")]): (canon(z["@@service_time"]), canon(z["@@sojourn_time"]), canon(z["@@waiting_time"])) for z in r.to_dict("records")})
F("extract_features_dataframe", lambda E, x, K: C(P.extract_features_dataframe, E, x, K, str_ev_attr=[K.get("activity_key", "concept:name")], num_ev_attr=["cost"], str_tr_attr=["region"], num_tr_attr=["amount"], str_evsucc_attr=[], include_case_id=False),
  lambda r, *_: alikes([sorted((fname(k), round(float(v), 3)) for k, v in z.items()) for z in r.to_dict("records")]), "uniform")
F("project_on_event_attribute", lambda E, x, K: C(P.project_on_event_attribute, E, x, K, K.get("activity_key", "concept:name")), srt)
F("convert_to_event_log", lambda E, x, K: P.convert_to_event_log(x, **({"case_id_key": K["case_id_key"]} if "case_id_key" in K else {})), log_of, "log", "nodecoy")
F("convert_to_dataframe", lambda E, x, K: P.convert_to_dataframe(x), lambda r, E, x, K: cases(r, K), "log")
L = [x for x in L if "skip" not in x[1]]
