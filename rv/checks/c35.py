"""C35: object-centric feature tables and execution clusters are recomputed from the events, the objects and their relations"""
import copy
import math
import pm4py
from collections import Counter
from pm4py.algo.transformation.ocel.features.events import algorithm as ef
from pm4py.algo.transformation.ocel.features.events_objects import algorithm as eof
from pm4py.algo.transformation.ocel.features.objects import algorithm as of
from rv import ocelgen as og
from rv.checks.c29 import acts, graphs, mk

RULE = ("object-, event- and (event,object)-based feature tables of object-centric logs have one row per entity in the log's order, and every cell (lifecycle, graphs, work in progress, attributes, endpoints, "
        "interactions, prefixes) equals the value recomputed from events, objects and relations; related-entity features are the minimum/maximum of the related rows; the clusters of equivalent executions group "
        "exactly the executions equal up to the renaming by type, lifecycle and identifier")
ASSUMPTIONS = ["an event is related to an object at most once (qualifiers do not duplicate the relation)", "work in progress is judged for objects with events, in logs where every object has events",
               "columns with missing or non-numeric values are dropped by extract_ocel_features", "clusters are judged on logs with distinct timestamps"]
MINIMUM = {"oracle_checks": 2000, "tables": 400}


def make(ctx, **kw):
    a = mk(ctx, **kw)
    seen = set()
    a.rels = [r for r in a.rels if (r[0], r[1]) not in seen and not seen.add((r[0], r[1]))]
    return a


def snap(oc):
    return [t.to_csv() for t in (oc.events, oc.objects, oc.relations, oc.o2o, oc.object_changes)]


def cmp(ctx, names, rows, exp, ids, key, subset=False, **d):
    ctx.check(len(names) == len(set(names)), key + ":duplicates", "duplicate feature names", names=[x for x, n in Counter(names).items() if n > 1])
    miss, unexp = sorted(set(exp) - set(names)), sorted(set(names) - set(exp))
    ctx.check(not unexp and (subset or not miss), key + ":columns", "the columns are not the expected ones", missing=miss[:6], unexpected=unexp[:6], **d)
    ctx.check(len(rows) == len(ids) and all(len(r) == len(names) for r in rows), key + ":shape", "not one row per entity", rows=len(rows), expected_rows=len(ids))
    if len(rows) == len(ids):
        for j, nm in enumerate(names):
            if nm in exp:
                bad = [(o, r[j], exp[nm].get(o, 0.0)) for o, r in zip(ids, rows) if not math.isclose(float(r[j]), exp[nm].get(o, 0.0), rel_tol=1e-9, abs_tol=1e-5)]
                ctx.check(not bad, key + ":values", "a column has wrong values", column=nm, wrong=bad[:4], **d)
    ctx.ev("tables")


def event_cols(a, st=(), nu=()):
    ac, eo, oe = acts(a), a.e_objs(), a.o_evs()
    ty = {o[0]: o[1] for o in a.objects}
    tm = {e[0]: e[2] for e in a.events}
    types = set(ty.values())
    c = {"@@event_act_" + x: {e: 1.0 for e in ac if ac[e] == x} for x in set(ac.values())}
    c["@@event_timestamp"] = {e: t.timestamp() for e, t in tm.items()}
    c["@@event_timestamp_dayofweek"] = {e: float(t.weekday()) for e, t in tm.items()}
    c["@@event_timestamp_hour"] = {e: float(t.hour) for e, t in tm.items()}
    c["@@event_timestamp_month"] = {e: float(t.month) for e, t in tm.items()}
    c["@@event_timestamp_day"] = {e: float(t.day) for e, t in tm.items()}
    c["@@event_num_rel_objs"] = {e: float(len(l)) for e, l in eo.items()}
    for t in types:
        c["@@event_num_rel_objs_type_" + t] = {e: float(sum(ty[o] == t for o in l)) for e, l in eo.items()}
        c["@@event_start_" + t] = {l[0]: 1.0 for o, l in oe.items() if l and ty[o] == t}
        c["@@event_end_" + t] = {l[-1]: 1.0 for o, l in oe.items() if l and ty[o] == t}
    seen, new = set(), {}
    for e in [x[0] for x in a.events]:
        p = {frozenset((x, y)) for x in eo[e] for y in eo[e] if x != y}
        new[e] = float(len(p - seen))
        seen |= p
    c["@@ev_new_interactions"] = new
    for e, _, _, at in a.events:
        for k in st:
            if k in at:
                c.setdefault(f"@@event_attr_value_{k}_{at[k]}", {})[e] = 1.0
    for k in nu:
        c["@@event_num_" + k] = {e: float(at[k]) for e, _, _, at in a.events if k in at}
    return c


EVENT_FLAGS = {"enable_event_activity": ["@@event_act_"], "enable_event_timestamp": ["@@event_timestamp"], "enable_event_num_rel_objs": ["@@event_num_rel_objs"], "enable_event_num_rel_objs_type": ["@@event_num_rel_objs_type_"],
               "enable_event_start_ot": ["@@event_start_"], "enable_event_end_ot": ["@@event_end_"], "enable_new_interactions": ["@@ev_new_interactions"]}


def obj_cols(a, st=(), nu=(), paths=False, wip=False):
    ac, eo, oe = acts(a), a.e_objs(), a.o_evs()
    ty = {o[0]: o[1] for o in a.objects}
    tm = {e[0]: e[2].timestamp() for e in a.events}
    g = graphs(a)
    c = {"@@object_lifecycle_length": {o: float(len(l)) for o, l in oe.items()},
         "@@object_lifecycle_duration": {o: tm[l[-1]] - tm[l[0]] for o, l in oe.items() if l},
         "@@object_lifecycle_start_timestamp": {o: tm[l[0]] for o, l in oe.items() if l},
         "@@object_lifecycle_end_timestamp": {o: tm[l[-1]] for o, l in oe.items() if l},
         "@@object_lifecycle_unq_act": {o: float(len({ac[e] for e in l})) for o, l in oe.items()}}
    for x in set(ac.values()):
        c["@@ocel_lif_activity_" + x] = {o: float(sum(ac[e] == x for e in l)) for o, l in oe.items()}

    def deg(edges, k=None):
        d = {o: set() for o in ty}
        for x, y in edges:
            d[x].add(y)
            d[y].add(x)
        return {o: float(sum(k is None or ty[y] == k for y in s)) for o, s in d.items()}
    inter = deg(g["object_interaction"])
    n = sum(v > 0 for v in inter.values())
    c["@@object_degree_centrality"] = {o: v / (n - 1) if v else 0.0 for o, v in inter.items()}
    c["@@object_general_interaction_graph"] = inter
    c["@@object_cobirth"], c["@@object_codeath"] = deg(g["object_cobirth"]), deg(g["object_codeath"])
    for k in ("descendants", "inheritance"):
        c[f"@@object_general_{k}_graph_ascendants"] = {o: float(sum(y == o for x, y in g["object_" + k])) for o in ty}
        c[f"@@object_general_{k}_graph_descendants"] = {o: float(sum(x == o for x, y in g["object_" + k])) for o in ty}
    for t in set(ty.values()):
        c["@@object_interaction_graph_" + t] = deg(g["object_interaction"], t)
    for o, _, at in a.objects:
        for k in st:
            if k in at:
                c.setdefault(f"@@object_attr_value_{k}_{at[k]}", {})[o] = 1.0
    for k in nu:
        c["@@event_num_" + k] = {o: float(at[k]) for o, _, at in a.objects if k in at}
    if paths:
        for o, l in oe.items():
            for x, y in zip(l, l[1:]):
                d = c.setdefault(f"@@ocel_lif_path_{ac[x]}##{ac[y]}", {})
                d[o] = d.get(o, 0.0) + 1
    if wip:
        iv = {o: (tm[l[0]], tm[l[-1]]) for o, l in oe.items() if l}
        c["@@object_wip"] = {o: float(sum(y[0] <= x[1] and x[0] <= y[1] for y in iv.values())) for o, x in iv.items()}
    return c


def attrs(a, which):
    L = [(x[3] if which == "e" else x[2]) for x in (a.events if which == "e" else a.objects)]
    ks = {k for d in L for k in d}
    return sorted(k for k in ks if all(isinstance(d[k], str) for d in L if k in d)), sorted(k for k in ks if all(isinstance(d[k], (int, float)) for d in L if k in d))


def fam_events(ctx):
    r = ctx.rng
    a = make(ctx)
    oc = a.build()
    before = snap(oc)
    S, N = attrs(a, "e")
    st, nu = [k for k in S if r.random() < .7], [k for k in N if r.random() < .7]
    par = {}
    if st or r.random() < .3:
        par["str_ev_attr"] = st
    if nu or r.random() < .3:
        par["num_ev_attr"] = nu
    full = event_cols(a, st, nu)
    exp = full
    if r.random() < .4:
        par["enable_all"] = False
        on = [f for f in EVENT_FLAGS if r.random() < .5] or ["enable_event_activity"]
        par.update({f: True for f in on})
        exp = {}
        for f in on:
            for p in EVENT_FLAGS[f]:
                exp.update({k: v for k, v in full.items() if (k.startswith(p) if p.endswith("_") else k == p or (p == "@@event_timestamp" and k.startswith(p)))})
        for f, pre in (("enable_event_str_attributes", "@@event_attr_value_"), ("enable_event_num_attributes", "@@event_num_")):
            if r.random() < .5:
                par[f] = True
                exp.update({k: v for k, v in full.items() if k.startswith(pre) and not k.startswith("@@event_num_rel_objs")})
    data, names = ctx.call("event features", ef.apply, oc, parameters=dict(par))
    cmp(ctx, list(names), data, exp, list(oc.events["ocel:eid"]), "event_features", par=str(par))
    # related objects
    if r.random() < .5:
        data, names = ctx.call("related objects", ef.apply, oc, parameters={"enable_all": False, "enable_related_objects_features": True})
        # enable_all also switches the features of the related objects off: nothing to relate
        data2, names2 = ctx.call("related objects", ef.apply, oc, parameters={"enable_all": False, "enable_related_objects_features": True, "enable_object_lifecycle_length": True, "enable_object_lifecycle_duration": True, "enable_object_cobirth_graph": True})
        oc_ = obj_cols(a)
        eo = a.e_objs()
        exp = {}
        for k in ("@@object_lifecycle_length", "@@object_lifecycle_duration", "@@object_lifecycle_start_timestamp", "@@object_lifecycle_end_timestamp", "@@object_cobirth"):
            for f, fn in (("min", min), ("max", max)):
                exp[f"@@rel_obj_fea_{f}_{k}"] = {e: fn(oc_[k].get(o, 0.0) for o in l) for e, l in eo.items() if l}
        ctx.check(not names, "related_objects:empty", "features of disabled object features", names=list(names)[:4])
        cmp(ctx, list(names2), data2, exp, list(oc.events["ocel:eid"]), "related_objects")
    ctx.check(snap(oc) == before, "input_changed", "the log has been changed")
    ctx.nontrivial("events", len(a.events), len(a.rels), tuple(sorted(par)), sum(not l for l in a.e_objs().values()))


def fam_objects(ctx):
    r = ctx.rng
    wip = r.random() < .4
    a = make(ctx, isolated=False) if wip else make(ctx)
    oc = a.build(rng=r, shuffle=False)
    before = snap(oc)
    S, N = attrs(a, "o")
    st, nu = [k for k in S if r.random() < .7], [k for k in N if r.random() < .7]
    paths = r.random() < .5
    ty = {o[0]: o[1] for o in a.objects}
    par = {}
    if st:
        par["str_obj_attr"] = st
    if nu:
        par["num_obj_attr"] = nu
    if paths:
        par["enable_object_lifecycle_paths"] = True
    if wip:
        par["enable_object_work_in_progress"] = True
    t = r.choice(sorted(set(ty.values()))) if r.random() < .4 else None
    if t:
        par["filter_per_type"] = t
    exp = obj_cols(a, st, nu, paths, wip)
    ids = [o for o in oc.objects["ocel:oid"] if t is None or ty[o] == t]
    data, names = ctx.call("object features", of.apply, oc, parameters=dict(par))
    cmp(ctx, list(names), data, exp, ids, "object_features", par=str(par))
    # simplified interface
    t = r.choice(sorted(set(ty.values())))
    ids = [o for o in oc.objects["ocel:oid"] if ty[o] == t]
    withid = r.random() < .5
    df = ctx.call("extract", pm4py.extract_ocel_features, oc, t, enable_object_lifecycle_paths=paths, enable_object_work_in_progress=wip, object_str_attributes=st or None, object_num_attributes=nu or None, include_obj_id=withid)
    if withid:
        ctx.eq(list(df["ocel:oid"]), ids, "extract:ids")
        df = df[[x for x in df.columns if x != "ocel:oid"]]
    cmp(ctx, list(df.columns), df.values.tolist(), exp, ids, "extract", par=str(par))
    ctx.check(len(df) == len(ids), "extract:rows", "not one row per object of the type")
    # related events / activities / connected objects
    if r.random() < .5:
        ev = event_cols(a)
        oe, ac = a.o_evs(), acts(a)
        sub = {"enable_all": False, "enable_event_num_rel_objs": True, "enable_event_timestamp": True, "enable_event_start_ot": True}
        cols = [k for k in ev if k == "@@event_num_rel_objs" or k.startswith("@@event_timestamp") or k.startswith("@@event_start_")]
        data, names = ctx.call("related events", of.apply, oc, parameters={**sub, "enable_related_events_features": True})
        exp = {f"@@rel_eve_{f}_{k}": {o: fn(ev[k].get(e, 0.0) for e in l) for o, l in oe.items() if l} for k in cols for f, fn in (("min", min), ("max", max))}
        ids = list(oc.objects["ocel:oid"])
        cmp(ctx, list(names), data, exp, ids, "related_events")
        data, names = ctx.call("related activities", of.apply, oc, parameters={**sub, "enable_related_activities_features": True})
        exp = {}
        for k in cols:
            for x in {ac[e] for l in oe.values() for e in l}:
                exp[f"@@ev_act_fea_{x}_{k}"] = {o: ev[k].get([e for e in l if ac[e] == x][-1], 0.0) for o, l in oe.items() if any(ac[e] == x for e in l)}
        cmp(ctx, list(names), data, exp, ids, "related_activities")
        full = obj_cols(a)
        data, names = ctx.call("connected objects", of.apply, oc, parameters={"enable_all": False, "enable_obj_con_in_graph_features": True})
        nb = {o: set() for o in ty}
        for x, y in graphs(a)["object_interaction"]:
            nb[x].add(y)
            nb[y].add(x)
        exp = {f"@@obj_graph_con_{f}_{k}": {o: fn(v.get(y, 0.0) for y in s) for o, s in nb.items() if s} for k, v in full.items() for f, fn in (("min", min), ("max", max))}
        cmp(ctx, list(names), data, exp, ids, "connected_objects")
    ctx.check(snap(oc) == before, "input_changed", "the log has been changed")
    ctx.nontrivial("objects", len(a.objects), len(a.rels), paths, wip, bool(st), bool(nu), sum(not l for l in a.o_evs().values()))


def fam_pairs(ctx):
    r = ctx.rng
    a = make(ctx)
    oc = a.build()
    before = snap(oc)
    data, names = ctx.call("event-object features", eof.apply, oc, parameters={})
    # the exploded log: one event per relation
    b = copy.copy(a)
    ev = {e[0]: e for e in a.events}
    order = {e[0]: i for i, e in enumerate(a.events)}
    b.rels = [(e + "_" + o, o, q) for e, o, q in sorted(a.rels, key=lambda x: order[x[0]])]
    src = {e + "_" + o: (e, o) for e, o, _ in a.rels}
    b.events = [(p, ev[src[p][0]][1], ev[src[p][0]][2], {}) for p, _, _ in b.rels]
    full = event_cols(b)
    exp = {k: v for k, v in full.items() if k.startswith(("@@event_act_", "@@event_timestamp", "@@event_num_rel_objs_type_", "@@event_start_"))}
    oe, ac = b.o_evs(), acts(b)
    tm = {e[0]: e[2].timestamp() for e in b.events}
    ln, td = {}, {}
    for o, l in oe.items():
        for i, p in enumerate(l):
            if i:
                ln[p], td[p] = float(i), tm[p] - tm[l[0]]
                for q in l[:i]:
                    d = exp.setdefault("@@ev_obj_pref_act_" + ac[q], {})
                    d[p] = d.get(p, 0.0) + 1
    for x in set(ac.values()):
        exp.setdefault("@@ev_obj_pref_act_" + x, {})
    exp["@@ev_obj_pref_length"], exp["@@ev_obj_pref_timediff"] = ln, td
    # the order of the rows is the one of the relations
    ids = [e + "_" + o for e, o in zip(oc.relations["ocel:eid"], oc.relations["ocel:oid"])]
    cmp(ctx, list(names), data, exp, ids, "event_object_features")
    ctx.check(snap(oc) == before, "input_changed", "the log has been changed")
    ctx.nontrivial("pairs", len(b.events), len(ln), len(exp))


def fam_clusters(ctx):
    r = ctx.rng
    a = make(ctx)
    # distinct timestamps
    import datetime as dt
    t0 = a.events[0][2]
    a.events = [(e, x, t0 + dt.timedelta(hours=i), at) for i, (e, x, _, at) in enumerate(a.events)]
    a.changes = []
    oc = a.build()
    before = snap(oc)
    ty = {o[0]: o[1] for o in a.objects}
    t = r.choice(sorted(set(ty.values())))
    k = r.choice([None, None, 1, 3])
    got = ctx.call("cluster", pm4py.cluster_equivalent_ocel, oc, t, **({"max_objs": k} if k else {}))
    oe = a.o_evs()
    pos = {e[0]: i for i, e in enumerate(a.events)}
    ac = acts(a)
    central = [o for o in oc.objects["ocel:oid"] if ty[o] == t][:k]
    ctx.eq(sorted(p.parameters["@@central_object"] for l in got.values() for p in l), sorted(central), "clusters:partition")

    def key(p):
        objs = set(p.objects["ocel:oid"])
        life = {o: [pos[e] for e in oe[o]] for o in objs}
        nm = {}
        for y in {ty[o] for o in objs}:
            for i, o in enumerate(sorted((o for o in objs if ty[o] == y), key=lambda o: (not life[o], life[o][:1], life[o][-1:], o))):
                nm[o] = f"{y}_{i + 1}"
        evs = sorted({e for o in objs for e in oe[o]}, key=pos.get)
        eo = {e: sorted(nm[o] for o in objs if e in oe[o]) for e in evs}
        return tuple((ac[e], tuple(eo[e])) for e in evs), tuple(sorted(nm.values()))
    part = {frozenset(p.parameters["@@central_object"] for p in l) for l in got.values()}
    exp = {}
    for l in got.values():
        for p in l:
            exp.setdefault(key(p), set()).add(p.parameters["@@central_object"])
            ctx.check(p.parameters["@@central_object"] in set(p.objects["ocel:oid"]), "clusters:central", "the central object is not in its execution")
    ctx.eq(part, {frozenset(s) for s in exp.values()}, "clusters:classes", type=t)
    ctx.check(snap(oc) == before, "input_changed", "the log has been changed")
    ctx.ev("tables", len(central))
    ctx.nontrivial("clusters", len(central), len(exp), k)


FAMILIES = {
    "events": (150, 2500, fam_events),
    "objects": (150, 2500, fam_objects),
    "pairs": (60, 1000, fam_pairs),
    "clusters": (80, 1200, fam_clusters),
}
