"""C29 flattening, object-centric models, summaries and object graphs count exactly what the relations imply"""
import statistics
from collections import Counter
from datetime import timedelta
import pandas as pd
import pm4py
from rv import gen, h, ocelgen as og, ref

RULE = "own computation over the abstract object-centric log: events of an object = the events related to it (once, whatever the number of qualifiers), in the time order of the log"
ASSUMPTIONS = ["events at the same instant are ordered as in the events table; the relations table is ordered like the events table (as after every importer)",
               "the temporal summary is judged as sets of activities and objects per timestamp, on the events related to an object; the objects summary on the objects related to an event",
               "the nets of the object-centric Petri net are judged for replaying the cases of the flattened log (variant im) and for their labels (variant imd)",
               "merging duplicates: events are the same when activity and timestamp are the same"]
MINIMUM = {"flattened cases": 1500, "ocdfg edges": 2500, "ocpn traces replayed": 250, "graph edges": 2500, "summary rows": 1500}


def mk(ctx, **kw):
    r = ctx.rng
    a = og.rand(r, ocel2=r.random() < .6, ne=kw.pop("ne", r.choice([None, None, r.randint(8, 25)])), no=r.choice([None, None, r.randint(4, 10)]),
                isolated=kw.pop("isolated", r.random() < .3), ties=r.choice([0, .2, .5]), dupq=r.random() < .6, cols=("s", "f", "i"), **kw)
    return a if a.rels else mk(ctx, **kw)


def acts(a):
    return {e[0]: e[1] for e in a.events}


def fam_flatten(ctx):
    r = ctx.rng
    a = mk(ctx)
    oc = a.build()
    ty = {o[0]: o[1] for o in a.objects}
    oat = {o[0]: og.amap(o[2]) for o in a.objects}
    ev = {e[0]: e for e in a.events}
    oe = a.o_evs()
    for t in sorted(set(ty.values())):
        df = ctx.call("ocel_flattening", pm4py.ocel_flattening, oc, t)
        got = {}
        for x in df.to_dict("records"):
            got.setdefault(x["case:concept:name"], []).append(x)
        exp = {o: oe[o] for o in oe if ty[o] == t and oe[o]}
        ctx.check(set(got) == set(exp), "flatten:cases", f"type {t}: missing {sorted(set(exp) - set(got))}, extra {sorted(set(got) - set(exp))}")
        for o in set(got) & set(exp):
            ctx.ev("flattened cases")
            ctx.eq([x["ocel:eid"] for x in got[o]], exp[o], "flatten:events")
            for x in got[o]:
                e = ev[x["ocel:eid"]]
                ctx.check(x["concept:name"] == e[1] and og.inst(x["time:timestamp"]) == og.inst(e[2]), "flatten:event-columns", f"{x} for {e}")
                at = og.amap({k: v for k, v in x.items() if not k.startswith(("case:", "ocel:")) and k not in ("concept:name", "time:timestamp")})
                ctx.check(at == og.amap(e[3]), "flatten:event-attributes", f"{at} for {e}")
                ca = og.amap({k[5:]: v for k, v in x.items() if k.startswith("case:") and k not in ("case:concept:name", "case:ocel:type")})
                ctx.check(ca == oat[o], "flatten:object-attributes", f"{ca} for {o}: {oat[o]}")
            if len(exp[o]) > 2:
                ctx.nontrivial(tuple(exp[o]), o, t)


def fam_ocdfg(ctx):
    r = ctx.rng
    a = mk(ctx)
    oc = a.build()
    ty = {o[0]: o[1] for o in a.objects}
    ac = acts(a)
    tm = {e[0]: e[2] for e in a.events}
    oe = a.o_evs()
    m = ctx.call("discover_ocdfg", pm4py.discover_ocdfg, oc)
    ctx.eq(m["activities"], set(ac.values()), "ocdfg:activities")
    ctx.eq(m["object_types"], set(ty.values()), "ocdfg:object-types")
    edges, start, end, ot, indep = {}, {}, {}, {}, {}
    for o, l in oe.items():
        if not l:
            continue
        start.setdefault(ty[o], {}).setdefault(ac[l[0]], set()).add((l[0], o))
        end.setdefault(ty[o], {}).setdefault(ac[l[-1]], set()).add((l[-1], o))
        for e in l:
            ot.setdefault(ty[o], {}).setdefault(ac[e], set()).add((e, o))
            indep.setdefault(ac[e], set()).add((e, o))
        for x, y in zip(l, l[1:]):
            edges.setdefault(ty[o], {}).setdefault((ac[x], ac[y]), set()).add((x, y, o))
    ctx.ev("ocdfg edges", sum(len(x) for d in edges.values() for x in d.values()))

    def cmp(tag, got, exp, f_ev, f_ob, f_tot=set):
        for k, f in (("event_couples" if "edges" in tag else "events", f_ev), ("unique_objects", f_ob), ("total_objects", None)):
            g = {t: {x: (list(y) if f is None else set(y)) for x, y in d.items()} for t, d in got[k].items()}
            e = {t: {x: (y if f is None else {f(z) for z in y}) for x, y in d.items()} for t, d in exp.items()}
            if f is None:
                for t in g:
                    for x in g[t]:
                        ctx.check(len(g[t][x]) == len(set(g[t][x])), f"{tag}:{k}:repeated", f"{t} {x}: {[z for z, n in Counter(g[t][x]).items() if n > 1]}")
                        g[t][x] = set(g[t][x])
            ctx.check(g == e, f"{tag}:{k}", f"got {str(g)[:400]} expected {str(e)[:400]}")
    cmp("ocdfg:edges", m["edges"], edges, lambda z: z[:2], lambda z: z[2])
    cmp("ocdfg:start", m["start_activities"], start, lambda z: z[0], lambda z: z[1])
    cmp("ocdfg:end", m["end_activities"], end, lambda z: z[0], lambda z: z[1])
    cmp("ocdfg:activities-per-type", m["activities_ot"], ot, lambda z: z[0], lambda z: z[1])
    cmp("ocdfg:activities-indep", {k: {"": v} for k, v in m["activities_indep"].items()}, {"": indep}, lambda z: z[0], lambda z: z[1])
    for k, f in (("event_couples", lambda z: z[:2]), ("total_objects", lambda z: z)):
        perf = m["edges_performance"][k]
        for t, d in edges.items():
            for p, s in d.items():
                exp = sorted((tm[z[1]] - tm[z[0]]).total_seconds() for z in {f(z) for z in s})
                got = perf.get(t, {}).get(p, [])
                ctx.check(len(got) == len(exp) and all(h.close(x, y, ab=1e-5) for x, y in zip(got, exp)), f"ocdfg:performance:{k}", f"{t} {p}: {got} instead of {exp}")
    ctx.nontrivial(str(sorted(a.rels))[:300]) if sum(map(len, edges.values())) > 2 else None


def fam_ocpn(ctx):
    r = ctx.rng
    a = mk(ctx, ne=r.randint(3, 14))
    oc = a.build()
    ty = {o[0]: o[1] for o in a.objects}
    ac = acts(a)
    oe = a.o_evs()
    variant = r.choice(["im", "im", "imd"])
    tbr = r.random() < .3
    m = ctx.call("discover_oc_petri_net", pm4py.discover_oc_petri_net, oc, inductive_miner_variant=variant, diagnostics_with_tbr=tbr)
    used = {ty[o] for o in oe if oe[o]}
    ctx.check(used <= set(m["petri_nets"]) <= set(ty.values()), "ocpn:types", f"{set(m['petri_nets'])} for {used}")
    eo = {}
    for e, o, _ in a.rels:
        eo.setdefault((ty[o], ac[e]), {}).setdefault(e, set()).add(o)
    for (t, x), d in eo.items():
        share = sum(1 for s in d.values() if len(s) == 1) / len(d)
        ctx.check(m["double_arcs_on_activity"][t].get(x) == (share <= .8), "ocpn:double-arcs", f"{t} {x}: {m['double_arcs_on_activity'][t].get(x)}; {share} of the events have a single object")
    for t in used:
        net, im, fm = m["petri_nets"][t]
        ctx.eq({x.label for x in net.transitions if x.label is not None}, {x for tt, x in eo if tt == t}, "ocpn:labels")
        R = ref.Net(net, im, fm)
        trs = {tuple(ac[e] for e in oe[o]) for o in oe if ty[o] == t and oe[o]}
        if variant == "im":
            for tr in trs:
                if len(tr) > 12:
                    continue
                ctx.ev("ocpn traces replayed")
                try:
                    ok = R.accepts(tr)
                except ref.TooBig:
                    continue
                ctx.check(ok, "ocpn:replay", f"{t}: {tr} is a case of the flattened log, not of the net")
        if tbr:
            pd_, tc = m["tbr_results"][t]
            ctx.check(set(tc) == set(net.transitions), "ocpn:tbr-transitions", "not all the transitions are in the diagnostics")
            if variant == "im":
                cnt = Counter(ac[e] for o in oe if ty[o] == t for e in oe[o])
                lab = Counter()
                for x, n in tc.items():
                    if x.label is not None:
                        lab[x.label] += n
                ctx.check(dict(lab) == dict(cnt), "ocpn:tbr-counts", f"{t}: {dict(lab)} activations, {dict(cnt)} events")
        if len(trs) > 1:
            ctx.nontrivial(t, tuple(sorted(trs)))


def graphs(a):
    """expected object graphs"""
    eo = a.e_objs()
    oe = a.o_evs()
    first = {o: l[0] for o, l in oe.items() if l}
    last = {o: l[-1] for o, l in oe.items() if l}
    g = {k: set() for k in ("object_interaction", "object_descendants", "object_inheritance", "object_cobirth", "object_codeath")}
    for e, l in eo.items():
        for x in set(l):
            for y in set(l):
                if x == y:
                    continue
                if x < y:
                    g["object_interaction"].add((x, y))
                    if first[x] == e == first[y]:
                        g["object_cobirth"].add((x, y))
                    if last[x] == e == last[y]:
                        g["object_codeath"].add((x, y))
                if first[x] != e and first[y] == e:
                    g["object_descendants"].add((x, y))
                if last[x] == e == first[y]:
                    g["object_inheritance"].add((x, y))
    g["object_inheritance"] = {(x, y) for x, y in g["object_inheritance"] if (y, x) not in g["object_inheritance"]}
    return g


def fam_summary(ctx):
    r = ctx.rng
    a = mk(ctx)
    oc = a.build()
    ty = {o[0]: o[1] for o in a.objects}
    ac = acts(a)
    tm = {e[0]: e[2] for e in a.events}
    oe, eo = a.o_evs(), a.e_objs()
    eo = {e: list(dict.fromkeys(l)) for e, l in eo.items()}
    ctx.eq(set(ctx.call("types", pm4py.ocel_get_object_types, oc)), set(ty.values()), "object-types")
    ctx.eq(set(ctx.call("attribute names", pm4py.ocel_get_attribute_names, oc)), {k for x in a.events for k in x[3]} | {k for x in a.objects for k in x[2]}, "attribute-names")
    exp = {}
    for e, o, _ in a.rels:
        exp.setdefault(ty[o], set()).add(ac[e])
    ctx.eq({k: set(v) for k, v in ctx.call("ot activities", pm4py.ocel_object_type_activities, oc).items()}, exp, "object-type-activities")
    exp = {e: dict(Counter(ty[o] for o in l)) for e, l in eo.items() if l}
    got = ctx.call("ot count", pm4py.ocel_objects_ot_count, oc)
    ctx.eq({e: {k: int(n) for k, n in d.items() if n} for e, d in got.items() if d}, exp, "objects-ot-count")
    s = ctx.call("temporal summary", pm4py.ocel_temporal_summary, oc)
    exp = {}
    for e, l in eo.items():
        if l:
            x = exp.setdefault(og.inst(tm[e]), (set(), set()))
            x[0].add(ac[e])
            x[1].update(l)
    got = {og.inst(x["ocel:timestamp"]): (set(x["ocel:activity"]), set(x["ocel:oid"])) for x in s.to_dict("records")}
    ctx.ev("summary rows", len(got))
    ctx.eq(got, exp, "temporal-summary")
    ctx.check([og.inst(x) for x in s["ocel:timestamp"]] == sorted(exp), "temporal-summary:order", "the timestamps are not in order")
    s = ctx.call("objects summary", pm4py.ocel_objects_summary, oc)
    got = {x["ocel:oid"]: x for x in s.to_dict("records")}
    ctx.check(len(got) == len(s), "objects-summary:rows", "several rows for an object")
    ctx.eq({o for o in got if oe.get(o)}, {o for o in oe if oe[o]}, "objects-summary:objects")
    for o in got:
        l = oe[o]
        if not l:
            continue
        ctx.ev("summary rows")
        x = got[o]
        ctx.eq(list(x["activities_lifecycle"]), [ac[e] for e in l], "objects-summary:activities")
        ctx.check(og.inst(x["lifecycle_start"]) == og.inst(tm[l[0]]) and og.inst(x["lifecycle_end"]) == og.inst(tm[l[-1]]), "objects-summary:lifecycle", f"{o}: {x}")
        ctx.check(h.close(x["lifecycle_duration"], (tm[l[-1]] - tm[l[0]]).total_seconds(), ab=1e-5), "objects-summary:duration", f"{o}: {x['lifecycle_duration']}")
        ctx.eq(set(x["interacting_objects"]), {y for e in l for y in eo[e] if y != o}, "objects-summary:interacting")
    s = ctx.call("interactions", pm4py.ocel_objects_interactions_summary, oc)
    got = Counter((x["ocel:eid"], x["ocel:activity"], x["ocel:oid"], x["ocel:type"], x["ocel:oid_2"], x["ocel:type_2"]) for x in s.to_dict("records"))
    exp = Counter((e, ac[e], x, ty[x], y, ty[y]) for e, l in eo.items() for x in l for y in l if x != y)
    ctx.ev("summary rows", len(got))
    ctx.eq(dict(got), dict(exp), "interactions-summary")
    G = graphs(a)
    for k in G:
        got = ctx.call("discover_objects_graph", pm4py.discover_objects_graph, oc, k)
        ctx.ev("graph edges", len(got))
        ctx.eq(set(got), G[k], f"graph:{k}")
    inc = r.choice([None, None, sorted(r.sample(sorted(G), 2))])
    b = ctx.call("o2o enrichment", pm4py.ocel_o2o_enrichment, oc, None if inc is None else [x + "_graph" for x in inc])
    exp = sorted(a.view()["o2o"] + [(x, y, k + "_graph") for k in (inc or G) for x, y in (G[k] | ({(y, x) for x, y in G[k]} if k == "object_interaction" else set()))])
    ctx.eq(og.view(b)["o2o"], exp, "o2o-enrichment")
    from pm4py.objects.ocel.util import events_per_object_type, events_per_type_per_activity, objects_per_type_per_activity, related_events, related_objects
    exp = {t: len({e for o in oe if ty[o] == t for e in oe[o]}) for t in set(ty.values())}
    ctx.eq({k: int(v) for k, v in ctx.call("events_per_object_type", events_per_object_type.apply, oc).items()}, exp, "events-per-type")
    st = lambda v: {"min": min(v), "max": max(v), "mean": statistics.mean(v), "median": statistics.median(v)}
    for tag, fn, cnt in (("events-per-type-per-activity", events_per_type_per_activity, Counter((ac[e], ty[o], o) for o in oe for e in oe[o])),
                         ("objects-per-type-per-activity", objects_per_type_per_activity, Counter((ac[e], ty[o], e) for o in oe for e in oe[o]))):
        exp = {}
        for (x, t, _), n in cnt.items():
            exp.setdefault(x, {}).setdefault(t, []).append(n)
        got = ctx.call(tag, fn.apply, oc)
        for x in exp:
            for t in exp[x]:
                g = got.get(x, {}).get(t, {})
                ctx.check(all(k in g and h.close(g[k], v) for k, v in st(exp[x][t]).items()), tag, f"{x} {t}: {g} instead of {st(exp[x][t])}")
    got = ctx.call("related_events", related_events.related_events_dct, oc)
    ctx.eq({t: {o: list(dict.fromkeys(l)) for o, l in d.items()} for t, d in got.items()}, {t: {o: oe[o] for o in oe if ty[o] == t and oe[o]} for t in {ty[o] for o in oe if oe[o]}}, "related-events")
    got = ctx.call("related_objects", related_objects.related_objects_dct_overall, oc)
    ctx.eq({e: set(l) for e, l in got.items()}, {e: set(l) for e, l in eo.items()}, "related-objects")
    nx = ctx.call("ocel_to_nx", pm4py.convert_ocel_to_networkx, oc)
    nodes = {n for n in nx.nodes if not str(n).startswith("@@change")}
    ctx.eq(nodes, set(ac) | set(ty), "nx:nodes")
    pairs = {(e, o) for e, o, _ in a.rels} | {(x, y) for x, y, _ in a.o2o} | {(x, y) for l in oe.values() for x, y in zip(l, l[1:])}
    ctx.eq({(x, y) for x, y in nx.edges if not str(x).startswith("@@change") and x != y}, {p for p in pairs if p[0] != p[1]}, "nx:edges")
    if len(a.rels) > 3:
        ctx.nontrivial(str(sorted(a.rels))[:300])


def fam_convert(ctx):
    r = ctx.rng
    al = gen.rand_alog(r, ties=r.choice([0, .3]))
    obj = r.choice(["df", "df", "log"])
    if obj == "df":
        order = r.choice([None, "interleave", "time"])
        df = al.to_df(order=order, rng=r)
        L = df
    else:
        L = al.to_log()
    oc = ctx.call("convert_log_to_ocel", pm4py.convert_log_to_ocel, L, object_types=None if r.random() < .5 else ["case:concept:name"])
    bad = og.consistent(oc)
    if bad:
        ctx.fail("convert:referential", f"{bad[:5]}")
    t = "case:concept:name"
    ctx.eq(list(pm4py.ocel_get_object_types(oc)), [t], "convert:types")
    back = ctx.call("ocel_flattening", pm4py.ocel_flattening, oc, t)
    got = {}
    for x in back.to_dict("records"):
        got.setdefault(str(x[t]), []).append((str(x["concept:name"]), og.inst(x["time:timestamp"])))
    exp = {str(cid): sorted([(e["concept:name"], og.inst(e["time:timestamp"])) for e in ev], key=lambda z: z[1]) for cid, _, ev in al.cases}
    ctx.ev("flattened cases", len(exp))
    ctx.eq(got, exp, "convert:flatten-back")
    if len(exp) > 1:
        ctx.nontrivial(str(exp)[:300])


def fam_multi(ctx):
    """traditional log with columns holding objects of several types"""
    r = ctx.rng
    al = gen.rand_alog(r, n=r.randint(1, 5), ties=r.choice([0, .3]))
    df = al.to_df(rng=r)
    sep = r.choice([" AND ", " AND ", ";"])
    pool = {t: [f"{t[0]}{i}" for i in range(r.randint(1, 5))] for t in ("item", "route")}
    want = []
    cols = {t: [] for t in pool}
    recs = df.to_dict("records")
    for x in recs:
        m = {"case:concept:name": [str(x["case:concept:name"])]}
        for t in pool:
            k = r.randint(0, min(3, len(pool[t])))
            os_ = r.sample(pool[t], k)
            cols[t].append(sep.join(os_) if os_ else r.choice([None, ""]))
            m[t] = os_
        want.append(m)
    for t in pool:
        df[t] = cols[t]
    df["cost"] = [r.choice([1.5, 2.0, None]) for _ in recs]
    df["color"] = [r.choice(["red", "blue"]) for _ in recs]
    types = ["case:concept:name"] + sorted(pool)
    oc = ctx.call("convert_log_to_ocel", pm4py.convert_log_to_ocel, df, object_types=types, obj_separator=sep, additional_event_attributes=["cost"], additional_object_attributes={"item": ["color"]})
    bad = og.consistent(oc)
    if bad:
        ctx.fail("convert:referential", f"{bad[:5]}")
    order = sorted(range(len(recs)), key=lambda i: recs[i]["time:timestamp"])
    for t in types:
        exp = {}
        for i in order:
            for o in want[i][t]:
                exp.setdefault(o, []).append((recs[i]["concept:name"], og.inst(recs[i]["time:timestamp"]), df["cost"].iloc[i] if pd.notna(df["cost"].iloc[i]) else None))
        if not exp:
            continue
        got = {}
        for x in ctx.call("ocel_flattening", pm4py.ocel_flattening, oc, t).to_dict("records"):
            got.setdefault(str(x["case:concept:name"]), []).append((str(x["concept:name"]), og.inst(x["time:timestamp"]), x["cost"] if "cost" in x and pd.notna(x["cost"]) else None))
        ctx.ev("flattened cases", len(exp))
        ctx.eq(got, exp, f"multi:flatten:{'case' if t.startswith('case') else 'column'}")
    firstcol = {}
    for i in range(len(recs)):
        for o in want[i]["item"]:
            firstcol.setdefault(o, set()).add(df["color"].iloc[i])
    for x in oc.objects.to_dict("records"):
        if x["ocel:type"] == "item":
            ctx.check(x["color"] in firstcol[x["ocel:oid"]], "multi:object-attribute", f"{x}: values on its events {firstcol[x['ocel:oid']]}")
    # relations of the objects do not depend on the storage order of the rows: object-centric DFG
    m = ctx.call("discover_ocdfg", pm4py.discover_ocdfg, oc)
    for t in sorted(pool):
        e = Counter()
        oe = {}
        for i in order:
            for o in want[i][t]:
                oe.setdefault(o, []).append(recs[i]["concept:name"])
        for l in oe.values():
            e.update(zip(l, l[1:]))
        got = {k: len(v) for k, v in m["edges"]["total_objects"].get(t, {}).items()}
        ctx.eq(got, dict(e), "multi:ocdfg")
    ctx.nontrivial(str(want)[:300])


def fam_edit(ctx):
    r = ctx.rng
    a = mk(ctx)
    ev = {e[0]: e for e in a.events}
    tri = {(ev[e][1], og.inst(ev[e][2]), o) for e, o, _ in a.rels}
    # duplicated events: same activity, timestamp and objects
    if r.random() < .7:
        for i in range(r.randint(1, 3)):
            e = r.choice(a.events)
            n = f"dup{i}"
            p = a.events.index(e)
            a.events.insert(p + 1, (n, e[1], e[2], dict(e[3])))
            new = [(n, o, q) for x, o, q in a.rels if x == e[0] and r.random() < .8]
            a.rels.extend(new)
        pos = {e[0]: i for i, e in enumerate(a.events)}
        a.rels.sort(key=lambda x: pos[x[0]])
        ev = {e[0]: e for e in a.events}
    v0 = a.view()
    b = ctx.call("ocel_drop_duplicates", pm4py.ocel_drop_duplicates, a.build())
    v = og.view(b)
    bad = og.consistent(b)
    ctx.check(not bad, "drop-duplicates:referential", f"{bad[:4]}")
    g = Counter((ev[e][1], og.inst(ev[e][2]), o) for e, o, _ in v["rels"])
    ctx.check(set(g) == tri and set(g.values()) <= {1}, "drop-duplicates:relations", f"{[k for k, n in g.items() if n > 1][:4]}, missing {list(tri - set(g))[:4]}")
    ctx.check(set(v["rels"]) <= set(v0["rels"]) and all(v["events"][e] == v0["events"][e] for e in v["events"]), "drop-duplicates:changed", "an event or relation is not of the original log")
    common = r.random() < .5
    b = ctx.call("ocel_merge_duplicates", pm4py.ocel_merge_duplicates, a.build(), have_common_object=common)
    bad = og.consistent(b)
    ctx.check(not bad, "merge-duplicates:referential", f"{bad[:4]}", common=common)
    v = og.view(b)
    g = {(v["events"][e][0], v["events"][e][1], o) for e, o, _ in v["rels"] if e in v["events"]}
    ctx.check(g == tri, "merge-duplicates:relations", f"missing {list(tri - g)[:4]}, extra {list(g - tri)[:4]}", common=common)
    ctx.check({x[:2] for x in v["events"].values()} == {x[:2] for x in v0["events"].values()}, "merge-duplicates:events", "an activity at a timestamp is lost", common=common)
    if not common:
        rel = {e for e, _, _ in a.rels}
        c = Counter(v["events"][e][:2] for e in {x[0] for x in v["rels"]} if e in v["events"])
        ctx.check(set(c.values()) <= {1}, "merge-duplicates:still-duplicated", f"{[k for k, n in c.items() if n > 1][:4]}")
    # additional sorting column
    col = r.choice(["prio", "name"])
    val = {e[0]: (r.choice([1, 2, 3]) if col == "prio" else r.choice("abc")) for e in a.events}
    oc = a.build()
    oc.events[col] = oc.events["ocel:eid"].map(val)
    b = ctx.call("ocel_sort_by_additional_column", pm4py.ocel_sort_by_additional_column, oc, col)
    exp = [e[0] for e in sorted(a.events, key=lambda e: (e[2], val[e[0]]))]
    ctx.eq(list(b.events["ocel:eid"]), exp, "sort-by-column")
    b = ctx.call("ocel_add_index_based_timedelta", pm4py.ocel_add_index_based_timedelta, a.build())
    v = og.view(b)
    ctx.check(all(v["events"][e[0]][1] == og.inst(e[2] + timedelta(milliseconds=i)) for i, e in enumerate(a.events)) and not og.consistent(b), "timedelta", f"{og.consistent(b)[:3]}")
    # lifecycle qualifiers
    oc = a.build()
    b = ctx.call("ocel_e2o_lifecycle_enrichment", pm4py.ocel_e2o_lifecycle_enrichment, oc)
    oe = a.o_evs()
    for x in b.relations.to_dict("records"):
        l = oe[x["ocel:oid"]]
        q = "creation" if x["ocel:eid"] == l[0] else "termination" if x["ocel:eid"] == l[-1] else "other"
        ctx.check(x["ocel:qualifier"] == q, "e2o-lifecycle", f"{x['ocel:eid']} {x['ocel:oid']}: {x['ocel:qualifier']} instead of {q}")
    ctx.check(sorted({(x[0], x[1]) for x in og.view(b)["rels"]}) == sorted({(e, o) for e, o, _ in a.rels}), "e2o-lifecycle:relations", "the relations changed")
    # equivalent executions
    a2 = og.rand(r, isolated=False, ne=r.randint(2, 10), no=r.randint(2, 6), ties=0)
    ty = {o[0]: o[1] for o in a2.objects}
    t = r.choice(sorted(set(ty.values())))
    cl = ctx.call("cluster_equivalent_ocel", pm4py.cluster_equivalent_ocel, a2.build(), t)
    mem = Counter(x.parameters["@@central_object"] for l in cl.values() for x in l)
    ctx.eq(dict(mem), {o: 1 for o in ty if ty[o] == t}, "cluster:partition")

    def sig(x):
        """what an execution looks like, up to the names of its objects: activities in order with the types of their objects"""
        vv = og.view(x)
        eo = {}
        for e, o, _ in vv["rels"]:
            eo.setdefault(e, []).append(vv["objects"][o][0])
        es = sorted(vv["events"], key=lambda e: vv["events"][e][1])
        return tuple((vv["events"][e][0], tuple(sorted(eo[e]))) for e in es)
    for l in cl.values():
        ctx.check(len({sig(x) for x in l}) == 1, "cluster:different", f"executions with different activities or object types in a cluster: {[sig(x) for x in l][:2]}")
    if len(a.events) > 3:
        ctx.nontrivial(str(a.rels)[:300])


FAMILIES = {"flatten": (200, 4000, fam_flatten), "ocdfg": (200, 4000, fam_ocdfg), "ocpn": (120, 2000, fam_ocpn), "summary": (200, 4000, fam_summary),
            "convert": (150, 3000, fam_convert), "multi": (150, 3000, fam_multi), "edit": (200, 4000, fam_edit)}
