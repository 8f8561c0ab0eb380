"""C10 analyses do not modify their inputs: deep snapshots around calls, and the repeated call gives the same answer"""
import copy
import os
import tempfile
from collections import Counter
import pandas as pd
import pm4py
from rv import api, gen, h, ocelgen as og, ref
from rv.worker import Stop

RULE = "every argument is snapshotted (values, order, structure, parents, columns, dtypes, index) before and after the call; the same call is made again on the same objects and its canonical result compared"
ASSUMPTIONS = ["not judged: functions documented to work in place (set_classifier, reduce_petri_net_*, format conversions asked with deepcopy=False), caches kept in private attributes of net elements, the layout information of BPMN diagrams",
               "the repeated result is compared only for functions without random choices"]
MINIMUM = {"argument snapshots": 4500, "repeated results": 1500}


# ------------------------------------------------------------------ snapshots
def cell(v):
    if isinstance(v, (list, tuple, set, frozenset, dict)):
        return snap(v)
    return (type(v).__name__, repr(v))


def snap(x, depth=0):
    from pm4py.objects.log.obj import EventLog, EventStream, Trace
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.process_tree.obj import ProcessTree
    from pm4py.objects.bpmn.obj import BPMN
    from pm4py.objects.ocel.obj import OCEL
    from pm4py.objects.powl.obj import POWL
    from pm4py.objects.trie.obj import Trie
    if isinstance(x, pd.DataFrame):
        return ("df", list(map(repr, x.columns)), [str(t) for t in x.dtypes], [repr(i) for i in x.index], [[cell(v) for v in x[c]] for c in x.columns] if x.columns.is_unique else repr(x.values.tolist()), repr(x.attrs))
    if isinstance(x, (EventLog, EventStream)):
        return ("log", type(x).__name__, [snap_trace(t) if isinstance(t, Trace) else [(k, cell(v)) for k, v in t.items()] for t in x], cell(dict(x.attributes)), cell(dict(x.extensions)), cell(dict(x.classifiers)), cell(dict(x.omni_present)), cell(dict(x.properties)))
    if isinstance(x, Trace):
        return snap_trace(x)
    if isinstance(x, PetriNet):
        return ("net", x.name, sorted((p.name, id(p), cell(p.properties)) for p in x.places), sorted((t.name, repr(t.label), id(t), cell(t.properties)) for t in x.transitions),
                sorted((id(a), id(a.source), id(a.target), a.weight, cell(a.properties)) for a in x.arcs),
                sorted((id(n), sorted(map(id, n.in_arcs)), sorted(map(id, n.out_arcs))) for n in [*x.places, *x.transitions]), cell({k: v for k, v in x.properties.items()}))
    if isinstance(x, Marking):
        return ("marking", sorted((id(p), n) for p, n in x.items()))
    if isinstance(x, ProcessTree):
        return ("tree", id(x), repr(x.operator), repr(x.label), id(x.parent) if x.parent is not None else None, [snap(c) for c in x.children])
    if isinstance(x, BPMN):
        return ("bpmn", sorted((n.get_id(), n.get_name(), type(n).__name__, sorted(f.get_id() for f in n.get_in_arcs()), sorted(f.get_id() for f in n.get_out_arcs())) for n in x.get_nodes()),
                sorted((f.get_id(), f.get_name(), f.get_source().get_id(), f.get_target().get_id()) for f in x.get_flows()))
    if isinstance(x, OCEL):
        return ("ocel", [snap(t) for t in (x.events, x.objects, x.relations, x.o2o, x.e2e, x.object_changes)], cell(x.globals), cell(x.parameters), [x.event_id_column, x.object_id_column, x.object_type_column, x.event_activity, x.event_timestamp, x.qualifier])
    if isinstance(x, POWL):
        return ("powl", id(x), repr(x))
    if isinstance(x, Trie):
        return ("trie", x.label, [snap(c) for c in x.children])
    if isinstance(x, dict):
        return (type(x).__name__, [(snap(k), snap(v)) for k, v in x.items()])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v) for v in x])
    if isinstance(x, (set, frozenset)):
        return (type(x).__name__, sorted((snap(v) for v in x), key=repr))
    if isinstance(x, (PetriNet.Place, PetriNet.Transition)):
        return (type(x).__name__, id(x))
    return (type(x).__name__, repr(x))


def snap_trace(t):
    return ([[(k, cell(v)) for k, v in e.items()] for e in t], [(k, cell(v)) for k, v in t.attributes.items()])


def diff(a, b, path=""):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, f"{path}/{i}")
    return f"{path}: {a!r:.300} became {b!r:.300}"


def pure(ctx, name, fn, objs, can=None, again=True):
    """fn() called twice around snapshots of objs [(name, object)]"""
    r1 = None
    for k in (0, 1):
        before = [snap(o) for _, o in objs]
        try:
            r = fn()
        except Stop:
            raise
        except Exception as e:
            if k == 0:
                ctx.ev("calls refused")     # judged by the other properties; the arguments must be intact all the same
                ctx.ev(f"refused {name} {type(e).__name__}")
                if os.environ.get("RV_DEBUG"):
                    import traceback
                    print("REFUSED", name, traceback.format_exc()[-700:], flush=True)
                r = ("exception", type(e).__name__)
                can2 = None
            else:
                r = ("exception", type(e).__name__)
        for (n, o), b in zip(objs, before):
            ctx.ev("argument snapshots")
            a = snap(o)
            if a != b:
                ctx.fail(f"{name}:{n}", f"argument {n} of {name} modified by the call: {diff(b, a)}")
                return
        if isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] == "exception":
            c = r
        elif can is not None:
            try:
                c = can(r)
            except Stop:
                raise
        else:
            c = None
        if k == 0:
            r1 = c
            if can is None and not (isinstance(r, tuple) and r and isinstance(r[0], str) and r[0] == "exception"):
                again = again and True
        else:
            if c is not None or isinstance(r1, tuple):
                ctx.ev("repeated results")
                if not api.same(r1, c):
                    ctx.fail(f"{name}:repeated", f"{name} called twice on the same objects: {str(r1)[:600]} then {str(c)[:600]}")
                    return
                ctx.nontrivial(name, str(c)[:150])
        if not again:
            return


# ------------------------------------------------------------------ event logs
def mklog(r):
    al = gen.rand_alog(r, distinct_time=r.random() < .5, n=r.choice([2, 3, 5, 8]), maxlen=r.choice([4, 6, 8]))
    al.cases = [c for c in al.cases if c[2]]
    return al if al.cases else mklog(r)


ENVARGS = ("some", "variants", "tree", "net", "profile", "skel", "decl", "fp", "pair", "sizes")


def rep(r, al):
    K = {"activity_key": "Act", "timestamp_key": "When", "resource_key": "Who"}
    k = r.choice(["df", "df", "log", "log", "dfalt", "logalt"])
    if k == "df":
        return al.to_df(order=r.choice([None, "interleave", "time"]), index=r.choice([None, "shuffled", "dup"]), rng=r), {}
    if k == "dfalt":
        return al.to_df(h.ALT, h.ALT_CASE, order=r.choice([None, "interleave"]), rng=r), dict(K, case_id_key=h.ALT_CASE)
    return (al.to_log(), {}) if k == "log" else (al.to_log(h.ALT), K)


def logs(ctx, fns, n):
    r = ctx.rng
    al = mklog(r)
    E = api.Env(r, al)
    for name, tags, call, can in r.sample(fns, min(n, len(fns))):
        x, K = rep(r, al)
        if "nokeys" in tags and K:
            x, K = al.to_df(), {}
        objs = [("log", x), ("keys", K)] + [(a, getattr(E, a)) for a in ENVARGS]
        try:
            pure(ctx, name, lambda: call(E, x, K), objs, lambda y: can(y, E, x, K))
        except Exception as e:
            if name != "x":
                raise


def fam_logs(ctx):
    logs(ctx, [f for f in api.L if "slow" not in f[1]], 12)


def fam_logs_slow(ctx):
    logs(ctx, [f for f in api.L if "slow" in f[1]], 2)


def fam_logs2(ctx):
    """further functions of the simplified interface"""
    r = ctx.rng
    al = mklog(r)
    E = api.Env(r, al)
    P = pm4py
    dfo = lambda y: api.canon(y) if isinstance(y, pd.DataFrame) else None
    S = lambda f: (lambda y: f(y))
    todo = [
        ("get_event_attributes", lambda x: P.get_event_attributes(x), lambda y: sorted(y)),
        ("get_trace_attributes", lambda x: P.get_trace_attributes(x), lambda y: sorted(y)),
        ("get_variants_as_tuples", lambda x: P.get_variants_as_tuples(x), lambda y: sorted(map(repr, y))),
        ("split_by_process_variant", lambda x: [(v, s) for v, s in P.split_by_process_variant(x)], lambda y: [repr(v) for v, _ in y]),
        ("get_variants_paths_duration", lambda x: P.get_variants_paths_duration(x), dfo),
        ("insert_case_arrival_finish_rate", lambda x: P.insert_case_arrival_finish_rate(x, start_timestamp_key="time:timestamp"), dfo),
        ("cluster_log", lambda x: len(list(P.cluster_log(x, sklearn_clusterer=None))), None),
        ("split_train_test", lambda x: P.split_train_test(x, .6), None),
        ("sample_cases", lambda x: P.sample_cases(x, 1), None),
        ("extract_outcome_enriched_dataframe", lambda x: P.extract_outcome_enriched_dataframe(x, start_timestamp_key="time:timestamp"), dfo),
        ("extract_temporal_features_dataframe", lambda x: P.extract_temporal_features_dataframe(x, grouper_freq="W", case_id_key="case:concept:name", start_timestamp_key="time:timestamp"), dfo),
        ("extract_target_vector", lambda x: P.ml.extract_target_vector(x, r2.choice(["next_activity", "next_time", "remaining_time"])), None),
        ("filter_variants_top_k", lambda x: P.filter_variants_top_k(x, 1), None),
        ("check_is_fitting", lambda x: P.check_is_fitting(x, *E.net), None),
        ("check_is_fitting tree", lambda x: P.check_is_fitting(x, E.tree), None),
        ("derive_minimum_self_distance", lambda x: P.discovery.derive_minimum_self_distance(x), api.canon),
        ("discover_footprints net", lambda x: P.discover_footprints(*E.net), api.canon),
        ("convert_log_to_ocel", lambda x: P.convert_log_to_ocel(x, object_types=["org:resource"]) if isinstance(x, pd.DataFrame) else P.convert_log_to_ocel(x), lambda y: sorted(map(repr, og.view(y)[0].items())) if False else len(y.relations)),
        ("convert_log_to_networkx", lambda x: P.convert_log_to_networkx(x), lambda y: (y.number_of_nodes(), y.number_of_edges())),
        ("convert_to_event_stream", lambda x: P.convert_to_event_stream(x), lambda y: len(y)),
        ("serialize", lambda x: P.serialize(x), None),
        ("rebase", lambda x: P.rebase(x, case_id="case:concept:name", activity_key="org:resource") if isinstance(x, pd.DataFrame) else None, dfo),
        ("format_dataframe", lambda x: P.format_dataframe(x, case_id="case:concept:name", activity_key="org:resource", timest_format="ISO8601") if isinstance(x, pd.DataFrame) else None, dfo),
        ("hof filter_log", lambda x: P.filter_log(lambda t: len(t) > 2, x) if not isinstance(x, pd.DataFrame) else None, None),
        ("hof sort_log", lambda x: P.sort_log(x, key=lambda t: len(t)) if not isinstance(x, pd.DataFrame) else None, None),
        ("hof filter_trace", lambda x: P.filter_trace(lambda e: e["concept:name"] == E.a, x[0]) if not isinstance(x, pd.DataFrame) else None, None),
        ("hof sort_trace", lambda x: P.sort_trace(x[0], key=lambda e: e["time:timestamp"], reverse=True) if not isinstance(x, pd.DataFrame) else None, None),
        ("write_xes", lambda x: P.write_xes(x, os.path.join(tmp, "a.xes")), None),
        ("discover_dfg_typed", lambda x: P.discovery.discover_dfg_typed(x) if isinstance(x, pd.DataFrame) else None, lambda y: None if y is None else api.canon([dict(y.graph), dict(y.start_activities), dict(y.end_activities)])),
    ]
    import random
    r2 = random.Random(1)
    with tempfile.TemporaryDirectory() as tmp:
        for name, fn, can in r.sample(todo, 10):
            x = al.to_df(order=r.choice([None, "interleave"]), index=r.choice([None, "dup", "shuffled"]), rng=r) if r.random() < .55 else al.to_log()
            if name in ("discover_dfg_typed",) and not isinstance(x, pd.DataFrame):
                continue
            pure(ctx, name, lambda: fn(x), [("log", x), ("net", E.net), ("tree", E.tree)], (lambda y: None if y is None else can(y)) if can else None)


# ------------------------------------------------------------------ algorithm modules with explicit parameters
def fam_params(ctx):
    """the parameters dictionary given to an algorithm and its input are left alone"""
    r = ctx.rng
    al = mklog(r)
    E = api.Env(r, al)
    alt = r.random() < .4
    ak, tk, rk = ("Act", "When", "Who") if alt else ("concept:name", "time:timestamp", "org:resource")
    ck = h.ALT_CASE if alt else "case:concept:name"
    C = pm4py.util.constants
    base = {C.PARAMETER_CONSTANT_ACTIVITY_KEY: ak, C.PARAMETER_CONSTANT_TIMESTAMP_KEY: tk, C.PARAMETER_CONSTANT_CASEID_KEY: ck, C.PARAMETER_CONSTANT_ATTRIBUTE_KEY: ak, C.PARAMETER_CONSTANT_RESOURCE_KEY: rk}
    from pm4py.algo.discovery.dfg import algorithm as dfg
    from pm4py.algo.discovery.alpha import algorithm as alpha
    from pm4py.algo.discovery.inductive import algorithm as im
    from pm4py.algo.discovery.heuristics import algorithm as hm
    from pm4py.algo.discovery.footprints import algorithm as fpd
    from pm4py.algo.discovery.log_skeleton import algorithm as lsk
    from pm4py.algo.discovery.temporal_profile import algorithm as tpd
    from pm4py.algo.discovery.transition_system import algorithm as tsd
    from pm4py.algo.conformance.tokenreplay import algorithm as tbr
    from pm4py.algo.conformance.alignments.petri_net import algorithm as ali
    from pm4py.algo.conformance.alignments.process_tree import algorithm as alt_tree
    from pm4py.algo.conformance.alignments.dfg import algorithm as ali_dfg
    from pm4py.algo.conformance.footprints import algorithm as fpc
    from pm4py.algo.conformance.log_skeleton import algorithm as lskc
    from pm4py.algo.conformance.temporal_profile import algorithm as tpc
    from pm4py.algo.evaluation.replay_fitness import algorithm as rf
    from pm4py.algo.evaluation.precision import algorithm as pr
    from pm4py.algo.evaluation.generalization import algorithm as ge
    from pm4py.algo.evaluation import algorithm as evaluation
    from pm4py.algo.simulation.playout.petri_net import algorithm as play
    from pm4py.algo.simulation.playout.process_tree import algorithm as tplay
    from pm4py.objects.conversion.log import converter as lc
    from pm4py.objects.conversion.process_tree import converter as ptc
    from pm4py.objects.conversion.wf_net import converter as wfc
    from pm4py.algo.filtering.log.variants import variants_filter as vf
    from pm4py.algo.filtering.log.attributes import attributes_filter as af
    from pm4py.algo.filtering.log.timestamp import timestamp_filter as tf
    from pm4py.algo.filtering.pandas.variants import variants_filter as pvf
    from pm4py.algo.filtering.pandas.attributes import attributes_filter as paf
    from pm4py.algo.filtering.pandas.timestamp import timestamp_filter as ptf
    from pm4py.statistics.traces.generic.log import case_statistics as lcs
    from pm4py.statistics.traces.generic.pandas import case_statistics as pcs
    from pm4py.statistics.service_time.log import get as sj
    from pm4py.statistics.service_time.pandas import get as psj
    from pm4py.statistics.attributes.log import get as la
    from pm4py.algo.transformation.log_to_features import algorithm as feat
    from pm4py.algo.transformation.log_to_trie import algorithm as trie
    from pm4py.algo.organizational_mining.sna import algorithm as sna
    from pm4py.algo.conformance.alignments.decomposed import algorithm as deco
    from pm4py.objects.dfg.filtering import dfg_filtering
    log = al.to_log(h.ALT if alt else None)
    df = al.to_df(h.ALT if alt else None, ck)
    cfp = None
    xs = {"log": log, "df": df}
    net, nim, nfm = E.net
    any_ = ["log", "df"]
    sa = (E.acts + ["zz", "zy"])[:3]
    SEQ = pm4py.convert_to_petri_net(gen.to_pt(("->", [("a", x) for x in sa])))     # the decomposed approach does not terminate on some models and traces (C24)
    SEQL = gen.rand_alog(r, traces=[list(sa)] * 2).to_log(h.ALT if alt else None)
    todo = []

    def T(name, kinds, fn, extra=None, can=None, objs=()):
        todo.append((name, kinds, fn, extra or {}, can, objs))
    cdict = api.canon
    for v in dfg.Variants:
        if v.name not in ("CASE_ATTRIBUTES",):
            T(f"dfg {v.name}", ["log"] if "CLEAN" not in v.name else ["df"], lambda x, p, v=v: dfg.apply(x, variant=v, parameters=p), None, cdict)
    for v in alpha.Variants:
        T(f"alpha {v.name}", any_, lambda x, p, v=v: alpha.apply(x, variant=v, parameters=p), None, lambda y: api.c_net(y))
    for v in (im.Variants.IM, im.Variants.IMf, im.Variants.IMd):
        if v is im.Variants.IMd:
            d = pm4py.discover_dfg_typed(al.to_df())
            T("inductive IMd", any_, lambda x, p, v=v, d=d: im.apply(d, variant=v, parameters=p), None, api.c_tree, [("dfg", [dict(d.graph), dict(d.start_activities), dict(d.end_activities)])])
        else:
            T(f"inductive {v.name}", any_, lambda x, p, v=v: im.apply(x, variant=v, parameters=p), None, api.c_tree)
    for v in hm.Variants:
        T(f"heuristics {v.name}", ["log"], lambda x, p, v=v: hm.apply(x, variant=v, parameters=p), None, None)
    for v in fpd.Variants:
        if v.name.startswith("ENTIRE_EVENT"):
            T(f"footprints {v.name}", ["log"], lambda x, p, v=v: fpd.apply(x, variant=v, parameters=p), None, cdict)
        if v.name == "TRACE_BY_TRACE":
            T(f"footprints {v.name}", ["log"], lambda x, p, v=v: fpd.apply(x, variant=v, parameters=p), None, cdict)
        if v.name == "PETRI_REACH_GRAPH":
            T(f"footprints {v.name}", ["log"], lambda x, p, v=v: fpd.apply(net, nim, variant=v, parameters=p), None, cdict)
        if v.name == "PROCESS_TREE":
            T(f"footprints {v.name}", ["log"], lambda x, p, v=v: fpd.apply(E.tree, variant=v, parameters=p), None, cdict)
    T("log_skeleton", any_, lambda x, p: lsk.apply(x, parameters=p), None, cdict)
    T("temporal_profile", any_, lambda x, p: tpd.apply(x, parameters=p), None, cdict)
    T("transition_system", any_, lambda x, p: tsd.apply(x, parameters=p), None, api.c_ts)
    for v in tbr.Variants:
        T(f"tbr {v.name}", any_ if v.name != "BACKWARDS" else ["log"], lambda x, p, v=v: tbr.apply(x, net, nim, nfm, variant=v, parameters=p), None, lambda y: api.alikes([(d.get("trace_is_fit"), d.get("trace_fitness")) for d in y]))
    for v in ali.Variants:
        if v.name not in ("VERSION_TWEAKED_STATE_EQUATION_A_STAR", "VERSION_DISCOUNTED_A_STAR"):
            T(f"alignments {v.name}", any_, lambda x, p, v=v: ali.apply(x, net, nim, nfm, variant=v, parameters=p), {"show_progress_bar": False}, lambda y: api.alikes([(d["cost"], d["fitness"]) for d in y]))
    T("alignments tree", any_, lambda x, p: alt_tree.apply(x, E.tree, variant=alt_tree.Variants.SEARCH_GRAPH_PT, parameters=p), {"show_progress_bar": False}, lambda y: api.alikes([d["cost"] for d in y]))
    T("alignments dfg", any_, lambda x, p: ali_dfg.apply(x, *D, parameters=p), {"show_progress_bar": False}, lambda y: api.alikes([d["cost"] for d in y]))
    T("alignments decomposed", ["log"], lambda x, p: deco.apply(SEQL, *SEQ, parameters=p), {"show_progress_bar": False}, None, [("fitting log", SEQL)])
    D = pm4py.discover_dfg(al.to_df())
    T("footprints conformance", ["log"], lambda x, p: fpc.apply(fpd.apply(x, variant=fpd.Variants.ENTIRE_EVENT_LOG, parameters=p), E.fp, variant=fpc.Variants.LOG_EXTENSIVE, parameters=p), None, None)
    T("log_skeleton conformance", any_, lambda x, p: lskc.apply(x, E.skel, parameters=p), None, lambda y: api.alikes([d["no_dev_total"] for d in y]))
    T("temporal conformance", any_, lambda x, p: tpc.apply(x, E.profile, parameters=p), {"zeta": 1.0}, lambda y: api.alikes(cdict(y)))
    for v in (rf.Variants.TOKEN_BASED, rf.Variants.ALIGNMENT_BASED):
        T(f"fitness {v.name}", any_, lambda x, p, v=v: rf.apply(x, net, nim, nfm, variant=v, parameters=p), {"show_progress_bar": False}, cdict)
    for v in pr.Variants:
        T(f"precision {v.name}", any_, lambda x, p, v=v: pr.apply(x, net, nim, nfm, variant=v, parameters=p), {"show_progress_bar": False}, cdict)
    T("generalization", any_, lambda x, p: ge.apply(x, net, nim, nfm, parameters=p), None, cdict)
    T("evaluation", any_, lambda x, p: evaluation.apply(x, net, nim, nfm, parameters=p), None, cdict)
    for v in play.Variants:
        if v.name in ("BASIC_PLAYOUT", "EXTENSIVE"):
            T(f"playout {v.name}", ["log"], lambda x, p, v=v: play.apply(net, nim, nfm, variant=v, parameters=p), {"noTraces": 5, "maxTraceLength": 5}, None)
    for v in tplay.Variants:
        T(f"tree playout {v.name}", ["log"], lambda x, p, v=v: tplay.apply(E.tree, variant=v, parameters=p), {"num_traces": 5, "max_trace_length": 5, "max_loop_occ": 1}, None)
    for v in (lc.Variants.TO_EVENT_LOG, lc.Variants.TO_EVENT_STREAM, lc.Variants.TO_DATA_FRAME):
        T(f"convert {v.name}", any_, lambda x, p, v=v: lc.apply(x, variant=v, parameters=p), {"deepcopy": True}, lambda y: len(y))
    for v in (ptc.Variants.TO_PETRI_NET, ptc.Variants.TO_BPMN, ptc.Variants.TO_POWL, ptc.Variants.TO_PETRI_NET_TRANSITION_BORDERED):
        T(f"tree conversion {v.name}", ["log"], lambda x, p, v=v: ptc.apply(E.tree, variant=v, parameters=p), None, None)
    for v in wfc.Variants:
        T(f"net conversion {v.name}", ["log"], lambda x, p, v=v: wfc.apply(net, nim, nfm, variant=v, parameters=p), None, lambda y: api.c_tree(y) if v.name == "TO_PROCESS_TREE" else None)
    T("log variants filter", ["log"], lambda x, p: vf.apply(x, [tuple(v) for v in E.variants], parameters=p), None, lambda y: len(y))
    T("log attributes filter", ["log"], lambda x, p: af.apply(x, E.some, parameters=p), None, lambda y: len(y))
    T("log attributes filter events", ["log"], lambda x, p: af.apply_events(x, E.some, parameters=p), None, lambda y: [len(t) for t in y])
    T("log timestamp filter", ["log"], lambda x, p: tf.apply_events(x, E.fmt(E.lo), E.fmt(E.hi), parameters=p), None, lambda y: [len(t) for t in y])
    T("log timestamp intersecting", ["log"], lambda x, p: tf.filter_traces_intersecting(x, E.fmt(E.lo), E.fmt(E.hi), parameters=p), None, lambda y: len(y))
    T("pandas variants filter", ["df"], lambda x, p: pvf.apply(x, [tuple(v) for v in E.variants], parameters=p), None, lambda y: len(y))
    T("pandas attributes filter", ["df"], lambda x, p: paf.apply(x, E.some, parameters=p), None, lambda y: len(y))
    T("pandas attributes filter numeric", ["df"], lambda x, p: paf.apply_numeric(x, 10, 50, parameters=dict(p, **{C.PARAMETER_CONSTANT_ATTRIBUTE_KEY: "cost"})), None, lambda y: len(y))
    T("pandas timestamp filter", ["df"], lambda x, p: ptf.apply_events(x, E.fmt(E.lo), E.fmt(E.hi), parameters=p), None, lambda y: len(y))
    T("pandas timestamp intersecting", ["df"], lambda x, p: ptf.filter_traces_intersecting(x, E.fmt(E.lo), E.fmt(E.hi), parameters=p), None, lambda y: len(y))
    for nm, m, k in (("log", lcs, "log"), ("pandas", pcs, "df")):
        T(f"{nm} variant statistics", [k], lambda x, p, m=m: m.get_variant_statistics(x, parameters=p), None, lambda y: len(y))
        T(f"{nm} cases description", [k], lambda x, p, m=m: (m.get_cases_description if hasattr(m, "get_cases_description") else m.get_cases_description)(x, parameters=p), None, cdict)
        T(f"{nm} case durations", [k], lambda x, p, m=m: m.get_all_case_durations(x, parameters=p) if hasattr(m, "get_all_case_durations") else m.get_all_casedurations(x, parameters=p), None, cdict)
    T("log sojourn", ["log"], lambda x, p: sj.apply(x, parameters=p), {"pm4py:param:start_timestamp_key": tk}, cdict)
    T("pandas sojourn", ["df"], lambda x, p: psj.apply(x, parameters=p), {"pm4py:param:start_timestamp_key": tk}, cdict)
    T("features", any_, lambda x, p: feat.apply(x, parameters=p), {"str_ev_attr": [ak], "num_ev_attr": ["cost"], "str_tr_attr": ["region"], "num_tr_attr": ["amount"]}, cdict)
    T("features auto", ["log"], lambda x, p: feat.apply(x, parameters=p), None, cdict)
    for v in feat.Variants:
        if v.name == "EVENT_BASED":
            T("features event based", ["log"], lambda x, p, v=v: feat.apply(x, variant=v, parameters=p), None, None)
    T("trie", any_, lambda x, p: trie.apply(x, parameters=p), None, api.c_trie)
    for v in sna.Variants:
        k = ["log"] if v.name.endswith("_LOG") else ["df"]
        T(f"sna {v.name}", k, lambda x, p, v=v: sna.apply(x, variant=v, parameters=p), None, lambda y: cdict(dict(y.connections)))
    from pm4py.algo.discovery.performance_spectrum import algorithm as ps
    from pm4py.algo.discovery.correlation_mining import algorithm as corr
    from pm4py.algo.clustering.profiles import algorithm as clus
    from pm4py.algo.simulation.tree_generator import algorithm as tg
    from pm4py.algo.discovery.batches import algorithm as bat
    from pm4py.statistics.variants.log import get as vget
    from pm4py.statistics.concurrent_activities.log import get as conc
    from pm4py.statistics.eventually_follows.log import get as efl
    from pm4py.statistics.passed_time.log import algorithm as pt
    from pm4py.algo.filtering.log.start_activities import start_activities_filter as sa
    from pm4py.algo.filtering.log.end_activities import end_activities_filter as ea
    from pm4py.algo.filtering.log.paths import paths_filter as pf
    from pm4py.algo.filtering.log.ltl import ltl_checker as ltl
    from pm4py.algo.filtering.pandas.ltl import ltl_checker as pltl
    from pm4py.algo.filtering.log.rework import rework_filter as rwf
    from pm4py.algo.filtering.pandas.rework import rework_filter as prwf
    from pm4py.algo.filtering.log.between import between_filter as btw
    from pm4py.algo.filtering.log.cases import case_filter as cf
    from pm4py.objects.log.util import sampling, sorting, interval_lifecycle, insert_classifier, index_attribute, split_train_test as stt
    from pm4py.objects.log.exporter.xes import exporter as xexp
    acts2 = [E.a, E.b]
    for v in ps.Variants:
        if "PARTIAL" not in v.name:
            T(f"performance spectrum {v.name}", ["df"] if "DATAFRAME" in v.name else ["log"], lambda x, p, v=v: ps.apply(x, acts2, variant=v, parameters=p), None, cdict)
    for v in corr.Variants:
        if v.name in ("CLASSIC", "TRACE_BASED"):
            T(f"correlation mining {v.name}", any_ if v.name == "CLASSIC" else ["log"], lambda x, p, v=v: corr.apply(x, variant=v, parameters=p), None, None)
    T("clustering", any_, lambda x, p: len(list(clus.apply(x, parameters=p))), None, int)
    T("tree generator", ["log"], lambda x, p: tg.apply(variant=tg.Variants.PTANDLOGGENERATOR, parameters=p), {"min": 3, "mode": 4, "max": 6}, None)
    T("tree generator basic", ["log"], lambda x, p: tg.apply(variant=tg.Variants.BASIC, parameters=p), None, None)
    T("batches", any_, lambda x, p: bat.apply(x, parameters=p), {"merge_distance": 3600}, lambda y: len(y))
    T("variants with indices", ["log"], lambda x, p: vget.get_variants_from_log_trace_idx(x, parameters=p), None, cdict)
    T("variants along with times", ["log"], lambda x, p: vget.get_variants_along_with_case_durations(x, parameters=p), None, lambda y: sorted(map(repr, y[1])) if isinstance(y, tuple) else None)
    T("concurrent activities", ["log"], lambda x, p: conc.apply(x, parameters=p), {"pm4py:param:start_timestamp_key": tk}, cdict)
    T("eventually follows", ["log"], lambda x, p: efl.apply(x, parameters=p), None, cdict)
    T("passed time pre", ["log"], lambda x, p: pt.apply(x, E.a, variant=pt.Variants.PREPOST, parameters=p), None, cdict)
    T("log start activities filter", ["log"], lambda x, p: sa.apply(x, E.some, parameters=p), None, lambda y: len(y))
    T("log end activities filter", ["log"], lambda x, p: ea.apply(x, E.some, parameters=p), None, lambda y: len(y))
    T("log paths filter", ["log"], lambda x, p: pf.apply(x, [E.pair], parameters=p), None, lambda y: len(y))
    T("log paths performance", ["log"], lambda x, p: pf.apply_performance(x, E.pair, parameters=p), {"minPerformance": 0, "maxPerformance": 1e6}, lambda y: len(y))
    T("log ltl", ["log"], lambda x, p: ltl.four_eyes_principle(x, E.a, E.b, parameters=p), {"positive": E.flag}, lambda y: len(y))
    T("log ltl eventually", ["log"], lambda x, p: ltl.eventually_follows(x, [E.a, E.b], parameters=p), {"positive": E.flag, "enable_timestamp": True, "timestamp_diff_boundaries": [[0, 1e7]]}, lambda y: len(y))
    T("pandas ltl", ["df"], lambda x, p: pltl.four_eyes_principle(x, E.a, E.b, parameters=p), {"positive": E.flag}, lambda y: len(y))
    T("pandas ltl eventually", ["df"], lambda x, p: pltl.eventually_follows(x, [E.a, E.b], parameters=p), {"positive": E.flag, "enable_timestamp": True, "timestamp_diff_boundaries": [[0, 1e7]]}, lambda y: len(y))
    T("log rework", ["log"], lambda x, p: rwf.apply(x, E.a, parameters=p), {"min_occurrences": 1}, lambda y: len(y))
    T("pandas rework", ["df"], lambda x, p: prwf.apply(x, E.a, parameters=p), {"min_occurrences": 1}, lambda y: len(y))
    T("log between", ["log"], lambda x, p: btw.apply(x, E.a, E.b, parameters=p), None, lambda y: len(y))
    T("log case performance", ["log"], lambda x, p: cf.filter_case_performance(x, E.dmin, E.dmax, parameters=p), None, lambda y: len(y))
    T("max no activities", ["log"], lambda x, p: af.filter_log_on_max_no_activities(x, 2, parameters=p), None, lambda y: [len(t) for t in y])
    T("log attributes numeric", ["log"], lambda x, p: af.apply_numeric(x, 10, 50, parameters=dict(p, **{C.PARAMETER_CONSTANT_ATTRIBUTE_KEY: "cost"})), None, lambda y: len(y))
    T("log attributes numeric events", ["log"], lambda x, p: af.apply_numeric_events(x, 10, 50, parameters=dict(p, **{C.PARAMETER_CONSTANT_ATTRIBUTE_KEY: "cost"})), None, lambda y: [len(t) for t in y])
    T("log trace attributes", ["log"], lambda x, p: af.apply_trace_attribute(x, ["N"], parameters=dict(p, **{C.PARAMETER_CONSTANT_ATTRIBUTE_KEY: "region"})), None, lambda y: len(y))
    T("sampling", ["log"], lambda x, p: sampling.sample(x, n=1), None, None)
    T("sorting", ["log"], lambda x, p: sorting.sort_timestamp(x, timestamp_key=tk), None, None)
    T("lifecycle to interval", ["log"], lambda x, p: interval_lifecycle.to_interval(x, parameters=p), None, None)
    T("interval to lifecycle", ["log"], lambda x, p: interval_lifecycle.to_lifecycle(x, parameters=p), {"pm4py:param:start_timestamp_key": tk}, None)
    for v in xexp.Variants:
        T(f"export {v.name}", ["log"], lambda x, p, v=v: xexp.serialize(x, variant=v, parameters=p), None, None)
    acnt = dict(Counter(e["concept:name"] for _, _, ev in al.cases for e in ev))
    T("dfg filtering activities", ["log"], lambda x, p: dfg_filtering.filter_dfg_on_activities_percentage(D[0], D[1], D[2], acnt, .5), None, cdict)
    T("dfg filtering paths", ["log"], lambda x, p: dfg_filtering.filter_dfg_on_paths_percentage(D[0], D[1], D[2], acnt, .5), None, cdict)
    T("dfg filtering to activity", ["log"], lambda x, p: dfg_filtering.filter_dfg_to_activity(D[0], D[1], D[2], acnt, E.a), None, cdict)
    T("dfg filtering containing", ["log"], lambda x, p: dfg_filtering.filter_dfg_contain_activity(D[0], D[1], D[2], acnt, E.a), None, cdict)
    for name, kinds, fn, extra, can, objs in r.sample(todo, 14):
        k = r.choice(kinds)
        x = xs[k]
        p = dict(base)
        if k == "log":
            del p[C.PARAMETER_CONSTANT_CASEID_KEY]
        p.update(extra)
        pure(ctx, f"parameters: {name}", lambda: fn(x, p), [("log", x), ("parameters", p), ("net", E.net), ("tree", E.tree), ("profile", E.profile), ("skeleton", E.skel), ("dfg", D), ("counts", acnt), ("variants", E.variants)] + list(objs), can)


# ------------------------------------------------------------------ models
def fam_models(ctx):
    r = ctx.rng
    t = gen.rand_tree(r, gen.labels(r, r.randint(2, 5)), depth=2, maxleaf=6)
    tree = gen.to_pt(t)
    from_tree = r.random() < .6
    if from_tree:
        net, im, fm = pm4py.convert_to_petri_net(tree)
    else:
        net, im, fm, _ = gen.rand_wfnet(r)
    try:
        ref.Net(net, im, fm).reach(cap=60)
    except ref.TooBig:
        return
    P = pm4py
    bpmn = P.convert_to_bpmn(tree)
    al = gen.rand_alog(r, traces=[t for t in gen.rand_traces(r, n=4, maxlen=5) if t] or [["a"]])
    log = al.to_log()
    df = al.to_df()
    dfg = list(P.discover_dfg(df))
    pdfg = list(P.discover_performance_dfg(df))
    hn = P.discover_heuristics_net(df)
    powl = P.discover_powl(df)
    trace = log[0]
    fp = P.discover_footprints(net, im, fm)
    from pm4py.objects.conversion.process_tree import converter as ptc
    from pm4py.objects.petri_net.utils import check_soundness as cs, reachability_graph as rg, incidence_matrix as inc, consumption_matrix as con, decomposition, networkx_graph, petri_utils, align_utils
    from pm4py.objects.petri_net import semantics
    from pm4py.objects.process_tree.utils import generic as tu
    from pm4py.algo.analysis.woflan import algorithm as woflan
    from pm4py.algo.simulation.playout.dfg import algorithm as dplay
    from pm4py.algo.evaluation.simplicity import algorithm as simp
    from pm4py.objects.dfg.utils import dfg_utils
    N = [("net", net), ("im", im), ("fm", fm)]
    B, T, W, H = [("bpmn", bpmn)], [("tree", tree)], [("powl", powl)], []
    D = [("dfg", dfg)]
    tup = (net, im, fm)
    sync = P.construct_synchronous_product_net(trace, *tup)
    sn = lambda y: api.c_net(y)
    todo = [
        ("net to bpmn", N, lambda: P.convert_to_bpmn(*tup), api.c_bpmn),
        ("tree to bpmn", T, lambda: P.convert_to_bpmn(tree), api.c_bpmn),
        ("tree to net", T, lambda: P.convert_to_petri_net(tree), sn),
        ("bpmn to net", B, lambda: P.convert_to_petri_net(bpmn), None),
        ("bpmn to tree", B, lambda: P.convert_to_process_tree(bpmn), api.c_tree),
        ("bpmn to reachability graph", B, lambda: P.convert_to_reachability_graph(bpmn), None),
        ("net to tree", N, lambda: P.convert_to_process_tree(*tup), api.c_tree),
        ("powl to net", W, lambda: P.convert_to_petri_net(powl), sn),
        ("heuristics net to net", [("hn dfg", dict(hn.dfg)), ("start", list(map(dict, hn.start_activities))), ("end", list(map(dict, hn.end_activities))), ("nodes", sorted(hn.nodes))], lambda: P.convert_to_petri_net(hn), sn),
        ("dfg to net", D, lambda: P.convert_to_petri_net(*dfg), None),
        ("net to reachability graph", N, lambda: P.convert_to_reachability_graph(*tup), lambda y: (len(y.states), len(y.transitions))),
        ("net to networkx", N, lambda: P.convert_petri_net_to_networkx(*tup), lambda y: (y.number_of_nodes(), y.number_of_edges())),
        ("net to inhibitor", N, lambda: P.convert_petri_net_type(*tup, type="inhibitor"), sn),
        ("net to reset", N, lambda: P.convert_petri_net_type(*tup, type="reset"), sn),
        ("net to reset inhibitor", N, lambda: P.convert_petri_net_type(*tup, type="reset_inhibitor"), sn),
        ("check_soundness", N, lambda: P.check_soundness(*tup), lambda y: y[0]),
        ("check_is_workflow_net", N, lambda: P.check_is_workflow_net(net), bool),
        ("easy soundness", N, lambda: cs.check_easy_soundness_net_in_fin_marking(*tup), bool),
        ("easy soundness unknown markings", N, lambda: cs.check_easy_soundness_of_wfnet(net), bool),
        ("source and sink reachability", N, lambda: cs.check_source_and_sink_reachability(net, sorted(net.places, key=lambda p: p.name)[0], sorted(net.places, key=lambda p: p.name)[-1]), None),
        ("maximal_decomposition", N, lambda: P.maximal_decomposition(*tup), lambda y: sorted(map(repr, map(sn, y)))),
        ("decompose", N, lambda: decomposition.decompose(*tup), lambda y: sorted(map(repr, map(sn, y)))),
        ("merge components", N, lambda: (lambda c: decomposition.merge_comp(c[0], c[1]) if len(c) > 1 else None)(decomposition.decompose(*tup)), None),
        ("simplicity arc degree", N, lambda: P.simplicity_petri_net(*tup, variant="arc_degree"), api.canon),
        ("simplicity cardoso", N, lambda: P.simplicity_petri_net(*tup, variant="extended_cardoso"), api.canon),
        ("simplicity cyclomatic", N, lambda: P.simplicity_petri_net(*tup, variant="extended_cyclomatic"), api.canon),
        ("construct_synchronous_product_net", N + [("trace", trace)], lambda: P.construct_synchronous_product_net(trace, *tup), None),
        ("marking equation", N, lambda: P.solve_marking_equation(*tup), api.canon),
        ("extended marking equation", [("trace", trace), ("sync", sync[0]), ("sync im", sync[1]), ("sync fm", sync[2])], lambda: P.solve_extended_marking_equation(trace, *sync), api.canon),
        ("enabled transitions", N, lambda: P.get_enabled_transitions(net, im), lambda y: sorted(t.name for t in y)),
        ("weak execution", N, lambda: [semantics.weak_execute(t, im) for t in P.get_enabled_transitions(net, im)], lambda y: sorted(repr(sorted((p.name, n) for p, n in m.items())) for m in y)),
        ("execution", N, lambda: [semantics.execute(t, net, im) for t in P.get_enabled_transitions(net, im)], lambda y: sorted(repr(sorted((p.name, n) for p, n in m.items())) for m in y)),
        ("incidence matrix", N, lambda: inc.construct(net), lambda y: len(y.a_matrix)),
        ("consumption matrix", N, lambda: con.construct(net), None),
        ("visible eventually enabled", N, lambda: align_utils.get_visible_transitions_eventually_enabled_by_marking(net, im), lambda y: sorted(t.name for t in y)),
        ("shortest paths by hidden", N, lambda: petri_utils.get_places_shortest_path_by_hidden(net, 5), lambda y: sorted((p.name, sorted(q.name for q in v)) for p, v in y.items())),
        ("networkx graph", N, lambda: networkx_graph.create_networkx_directed_graph(net), None),
        ("s-components", N, lambda: petri_utils.get_s_components_from_petri(*tup), None),
        ("net variants", N, lambda: petri_utils.acyclic_net_variants(*tup) if gen_acyclic else None, lambda y: None if y is None else sorted(tuple(e["concept:name"] for e in v) for v in y)),
        ("woflan", N, lambda: woflan.apply(*tup, parameters={"print_diagnostics": False, "return_diagnostics": True, "return_asap_when_not_sound": True}), lambda y: y[0] if isinstance(y, tuple) else y),
        ("play_out net", N, lambda: P.play_out(*tup, parameters={"noTraces": 5, "maxTraceLength": 8}), None),
        ("play_out tree", T, lambda: P.play_out(tree, parameters={"num_traces": 5}), None),
        ("play_out dfg", D, lambda: P.play_out(*dfg), None),
        ("dfg performance playout", D, lambda: dplay.apply(dfg[0], dfg[1], dfg[2], variant=dplay.Variants.PERFORMANCE, parameters={"performance_dfg": pdfg[0], "num_traces": 5}), None),
        ("footprints of net", N, lambda: P.discover_footprints(*tup), api.canon),
        ("footprints of tree", T, lambda: P.discover_footprints(tree), api.canon),
        ("footprint comparison", [("fp", fp)], lambda: P.algo.conformance.footprints.algorithm.apply(fp, fp), None),
        ("write_pnml", N, lambda: P.write_pnml(*tup, os.path.join(tmp, "a.pnml")), None),
        ("write_ptml", T, lambda: P.write_ptml(tree, os.path.join(tmp, "a.ptml")), None),
        ("write_bpmn", B, lambda: P.write_bpmn(bpmn, os.path.join(tmp, "a.bpmn")), None),
        ("write_bpmn without layout", B, lambda: P.write_bpmn(bpmn, os.path.join(tmp, "a.bpmn"), auto_layout=False), None),
        ("write_dfg", D, lambda: P.write_dfg(*dfg, os.path.join(tmp, "a.dfg")), None),
        ("serialize net", N, lambda: P.serialize(*tup), None),
        ("serialize tree", T, lambda: P.serialize(tree), None),
        ("serialize bpmn", B, lambda: P.serialize(bpmn), None),
        ("serialize dfg", D, lambda: P.serialize(*dfg), None),
        ("stochastic language of tree log", T, lambda: P.get_stochastic_language(tree), None),
        ("process tree height", T, lambda: tu.get_process_tree_height(tree), int),
        ("leaves", T, lambda: tu.get_leaves(tree), None),
        ("tree transition bordered", T, lambda: ptc.apply(tree, variant=ptc.Variants.TO_PETRI_NET_TRANSITION_BORDERED), None),
        ("tree to powl", T, lambda: ptc.apply(tree, variant=ptc.Variants.TO_POWL), repr),
        ("tree to string", T, lambda: str(tree), str),
        ("copy of tree", T, lambda: copy.deepcopy(tree), str),
        ("check_is_fitting", N + T, lambda: (P.check_is_fitting(trace, *tup), P.check_is_fitting(trace, tree)), lambda y: y),
        ("replay_prefix_tbr", N, lambda: P.replay_prefix_tbr([e["concept:name"] for e in trace][:3], *tup), None),
        ("generate_marking", N, lambda: P.generate_marking(net, sorted(net.places, key=lambda p: p.name)[0]), None),
        ("embeddings of dfg", D, lambda: dfg_utils.get_activities_from_dfg(dfg[0]), None),
        ("dfg source/sink", D, lambda: (dfg_utils.infer_start_activities(dfg[0]), dfg_utils.infer_end_activities(dfg[0])), lambda y: [sorted(z) for z in y]),
        ("dfg matrices", D, lambda: dfg_utils.get_dfg_np_matrix(dfg[0]), None),
        ("compute_emd", [], lambda: P.compute_emd({("a", "b"): .5, ("b",): .5}, {("a",): 1.0}), api.canon),
    ]
    gen_acyclic = from_tree and "*" not in gen.tree_ops(t)
    if not gen_acyclic or len(net.transitions) > 12:
        todo = [x for x in todo if x[0] != "net variants"]
    with tempfile.TemporaryDirectory() as tmp:
        for name, objs, fn, can in r.sample(todo, 16):
            pure(ctx, f"models: {name}", fn, objs, (lambda y: None if y is None else can(y)) if can else None)


# ------------------------------------------------------------------ object-centric logs
def fam_ocel(ctx):
    r = ctx.rng
    a = og.rand(r, ocel2=r.random() < .7, ne=r.randint(3, 12), no=r.randint(3, 7), isolated=r.random() < .3, ties=.2, dupq=r.random() < .3)
    while not a.rels:
        a = og.rand(r, ocel2=True, ne=6, no=4)
    oc = a.build()
    P = pm4py
    ty = r.choice(sorted({o[1] for o in a.objects}))
    act = r.choice(sorted({e[1] for e in a.events}))
    ob = r.choice(a.objects)[0]
    evs = r.sample([e[0] for e in a.events], 2)
    obs = r.sample([o[0] for o in a.objects], 2)
    types = [ty]
    corr = {ty: [act]}
    cnt = {ty: 1}
    V = lambda y: repr(sorted(map(repr, (og.view(y).items() if isinstance(og.view(y), dict) else [og.view(y)]))))
    G = lambda y: api.canon(y)
    t0 = min(e[2] for e in a.events)
    t1 = max(e[2] for e in a.events)
    fmt = lambda t: pd.Timestamp(t).strftime("%Y-%m-%d %H:%M:%S")
    todo = [
        ("object types", lambda: P.ocel_get_object_types(oc), sorted),
        ("attribute names", lambda: P.ocel_get_attribute_names(oc), sorted),
        ("flattening", lambda: P.ocel_flattening(oc, ty), G),
        ("object type activities", lambda: P.ocel_object_type_activities(oc), G),
        ("objects ot count", lambda: P.ocel_objects_ot_count(oc), G),
        ("temporal summary", lambda: P.ocel_temporal_summary(oc), G),
        ("objects summary", lambda: P.ocel_objects_summary(oc), G),
        ("interactions summary", lambda: P.ocel_objects_interactions_summary(oc), G),
        ("ocdfg", lambda: P.discover_ocdfg(oc), None),
        ("ocdfg business", lambda: P.discover_ocdfg(oc, business_hours=True), None),
        ("oc petri net", lambda: P.discover_oc_petri_net(oc, inductive_miner_variant=r2.choice(["im", "imd"]), diagnostics_with_tbr=True), None),
        ("objects graph", lambda: P.discover_objects_graph(oc, graph_type=gt), G),
        ("o2o enrichment", lambda: P.ocel_o2o_enrichment(oc), V),
        ("e2o enrichment", lambda: P.ocel_e2o_lifecycle_enrichment(oc), V),
        ("sample objects", lambda: P.sample_ocel_objects(oc, 2), None),
        ("sample components", lambda: P.sample_ocel_connected_components(oc, 1), None),
        ("sample events", lambda: P.sample_events(oc, 2), None),
        ("drop duplicates", lambda: P.ocel_drop_duplicates(oc), V),
        ("merge duplicates", lambda: P.ocel_merge_duplicates(oc, have_common_object=True), None),
        ("sort by column", lambda: P.ocel_sort_by_additional_column(oc, a_col), None),
        ("index timedelta", lambda: P.ocel_add_index_based_timedelta(oc), V),
        ("cluster equivalent", lambda: P.cluster_equivalent_ocel(oc, ty), lambda y: sorted(len(v) for v in y.values())),
        ("filter event attribute", lambda: P.filter_ocel_event_attribute(oc, "ocel:activity", [act], positive=pos), V),
        ("filter object attribute", lambda: P.filter_ocel_object_attribute(oc, "ocel:type", types, positive=pos), V),
        ("filter allowed activities", lambda: P.filter_ocel_object_types_allowed_activities(oc, corr), V),
        ("filter per type count", lambda: P.filter_ocel_object_per_type_count(oc, cnt), V),
        ("filter start events", lambda: P.filter_ocel_start_events_per_object_type(oc, ty), V),
        ("filter end events", lambda: P.filter_ocel_end_events_per_object_type(oc, ty), V),
        ("filter timestamp", lambda: P.filter_ocel_events_timestamp(oc, fmt(t0), fmt(t1)), V),
        ("filter types", lambda: P.filter_ocel_object_types(oc, types, positive=pos), V),
        ("filter types level", lambda: P.filter_ocel_object_types(oc, types, positive=True, level=2), V),
        ("filter objects", lambda: P.filter_ocel_objects(oc, obs, positive=pos), V),
        ("filter objects level", lambda: P.filter_ocel_objects(oc, obs, positive=True, level=2), V),
        ("filter events", lambda: P.filter_ocel_events(oc, evs, positive=pos), V),
        ("filter cc object", lambda: P.filter_ocel_cc_object(oc, ob), V),
        ("filter cc length", lambda: P.filter_ocel_cc_length(oc, 1, 3), V),
        ("filter cc otype", lambda: P.filter_ocel_cc_otype(oc, ty, positive=pos), V),
        ("filter cc activity", lambda: P.filter_ocel_cc_activity(oc, act), V),
        ("to networkx", lambda: P.convert_ocel_to_networkx(oc), lambda y: (y.number_of_nodes(), y.number_of_edges())),
        ("features", lambda: P.extract_ocel_features(oc, ty), G),
        ("serialize", lambda: P.serialize(oc), None),
        ("event features", lambda: fe.apply(oc, parameters=P1), lambda y: (G(y[0]), list(y[1]))),
        ("event-object features", lambda: feo.apply(oc, parameters=P1), lambda y: (G(y[0]), list(y[1]))),
        ("object features", lambda: fo.apply(oc, parameters=P1), lambda y: (len(y[0]), list(y[1]))),
        ("split in components", lambda: list(so.apply(oc, variant=so.Variants.CONNECTED_COMPONENTS, parameters=P1)), lambda y: sorted(map(V, y))),
        ("split ancestors", lambda: list(so.apply(oc, variant=so.Variants.ANCESTORS_DESCENDANTS, parameters=dict(P1, object_type=ty))), lambda y: [(z.parameters.get("@@central_object"), V(z)) for z in y]),
        ("saw nets", lambda: saw.apply(oc, parameters=P1), None),
        ("link analysis", lambda: oc.get_extended_table(), None),
        ("str", lambda: str(oc), str),
        ("summary", lambda: oc.get_summary(), str),
        ("extended table", lambda: oc.get_extended_table(), None),
        ("is_ocel20", lambda: oc.is_ocel20(), bool),
        ("write csv", lambda: P.write_ocel_csv(oc, f("a.csv"), f("b.csv")), None),
        ("write json", lambda: P.write_ocel_json(oc, f("a.json")), None),
        ("write jsonocel", lambda: P.write_ocel(oc, f("a.jsonocel")), None),
        ("write xml", lambda: P.write_ocel_xml(oc, f("a.xml")), None),
        ("write sqlite", lambda: P.write_ocel_sqlite(oc, f("a.sqlite")), None),
        ("write2 json", lambda: P.write.write_ocel2_json(oc, f("b.json")), None),
        ("write2 xml", lambda: P.write_ocel2_xml(oc, f("b.xml")), None),
        ("write2 sqlite", lambda: P.write_ocel2_sqlite(oc, f("b.sqlite")), None),
    ]
    import random
    r2 = random.Random(2)
    gt = r.choice(["object_interaction", "object_descendants", "object_inheritance", "object_cobirth", "object_codeath"])
    pos = r.random() < .5
    a_col = "ocel:activity"
    P1 = {"a": 1}
    from pm4py.algo.transformation.ocel.features.events import algorithm as fe
    from pm4py.algo.transformation.ocel.features.objects import algorithm as fo
    from pm4py.algo.transformation.ocel.features.events_objects import algorithm as feo
    from pm4py.algo.transformation.ocel.split_ocel import algorithm as so
    from pm4py.algo.discovery.ocel.saw_nets import algorithm as saw
    args = [("parameters", P1), ("types", types), ("correspondence", corr), ("counts", cnt), ("events", evs), ("objects", obs)]
    with tempfile.TemporaryDirectory() as tmp:
        def f(n):
            p = os.path.join(tmp, n)
            if os.path.exists(p):
                os.unlink(p)
            return p
        for name, fn, can in r.sample(todo, 16):
            pure(ctx, f"ocel: {name}", fn, [("ocel", oc)] + args, (lambda y: None if y is None else can(y)) if can else None)


FAMILIES = {"logs": (110, 2500, fam_logs), "logs costly": (25, 500, fam_logs_slow), "logs further": (60, 1500, fam_logs2), "parameters": (110, 2500, fam_params), "models": (70, 1500, fam_models), "ocel": (70, 1500, fam_ocel)}
