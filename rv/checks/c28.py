"""C28 filtered and sampled OCELs are exact, referentially consistent sub-logs"""
import random
from datetime import timedelta
import pm4py
from rv import ocelgen as og

RULE = "restriction of the abstract object-centric log to the events / objects / relations meeting the criterion, computed on the abstract log"
ASSUMPTIONS = ["a filter on events keeps the relations of the kept events and the objects related to them; a filter on objects keeps the relations of the kept objects and the events related to them",
               "an object that never shares an event with another one is a connected component of its own",
               "timestamps are timezone-aware (as after every importer); ranges are inclusive",
               "for objects whose first (last) events share the timestamp, the first (last) in the order of the relations counts"]
MINIMUM = {"sub-logs judged": 1500, "strict sub-logs": 600, "complementary pairs": 150, "components": 500}


def gen(ctx, **kw):
    r = ctx.rng
    a = og.rand(r, ocel2=r.random() < .7, ne=r.choice([None, None, r.randint(8, 25)]), no=r.choice([None, None, r.randint(6, 16)]), isolated=r.random() < .4,
                ties=r.choice([0, .2, .6]), dupq=r.random() < .5, cols=("s", "f", "t", "i"), **kw)
    if r.random() < .3:
        # several executions: keep only relations inside groups of objects
        g = {o[0]: r.randint(0, 2) for o in a.objects}
        ge = {e[0]: r.randint(0, 2) for e in a.events}
        a.rels = [x for x in a.rels if g[x[1]] == ge[x[0]]]
    if r.random() < .4 and len(a.events) > 1:
        ids = [e[0] for e in a.events]
        a.e2e = sorted({(r.choice(ids), r.choice(ids), r.choice(og.QUALS)) for _ in range(r.randint(1, 4))})
    return a


def sub(a, E, O, R=None):
    return og.AOcel([e for e in a.events if e[0] in E], [o for o in a.objects if o[0] in O],
                    [x for x in a.rels if x[0] in E and x[1] in O and (R is None or x in R)],
                    [x for x in a.o2o if x[0] in O and x[1] in O], [x for x in a.changes if x[0] in O], [x for x in a.e2e if x[0] in E and x[1] in E])


def by_events(a, E):
    return sub(a, E, {o for e, o, _ in a.rels if e in E})


def by_objects(a, O):
    return sub(a, {e for e, o, _ in a.rels if o in O}, O)


def by_rels(a, R):
    R = set(R)
    return sub(a, {x[0] for x in R}, {x[1] for x in R}, R)


def components(a):
    p = {o[0]: o[0] for o in a.objects}

    def find(x):
        while p[x] != x:
            x = p[x]
        return x
    first = {}
    for e, o, _ in a.rels:
        if e in first:
            p[find(o)] = find(first[e])
        else:
            first[e] = o
    c = {}
    for o in p:
        c.setdefault(find(o), set()).add(o)
    return list(c.values())


def judge(ctx, tag, src, exp, got, **d):
    ctx.ev("sub-logs judged")
    bad = og.consistent(got)
    if bad:
        ctx.fail(f"{tag}:referential", f"{bad[:5]}", **d)
    v, x = og.view(got), exp.view()
    if v["dup"]:
        ctx.fail(f"{tag}:duplicates", f"{v['dup'][:5]}", **d)
    for k in ("events", "objects"):
        if set(v[k]) != set(x[k]):
            return ctx.fail(f"{tag}:{k}", f"missing {sorted(set(x[k]) - set(v[k]))[:6]}, extra {sorted(set(v[k]) - set(x[k]))[:6]}", **d)
        for i in x[k]:
            ctx.check(v[k][i] == x[k][i], f"{tag}:{k}-changed", f"{i}: {x[k][i]} became {v[k][i]}", **d)
    for k in ("rels", "o2o", "changes"):
        ctx.check(v[k] == x[k], f"{tag}:{k}", f"missing {[y for y in x[k] if y not in v[k]][:5]}, extra {[y for y in v[k] if y not in x[k]][:5]}", **d)
    e2e = sorted((y[got.event_id_column], y[got.event_id_column + "_2"], y[got.qualifier]) for y in got.e2e.to_dict("records"))
    ctx.check(e2e == sorted(exp.e2e), f"{tag}:e2e", f"{e2e} instead of {exp.e2e}", **d)
    ctx.check(list(got.events[got.event_id_column]) == [e[0] for e in src.events if e[0] in x["events"]], f"{tag}:event-order", "the kept events are not in the order of the log", **d)
    if len(exp.events) < len(src.events) or len(exp.objects) < len(src.objects) or len(exp.rels) < len(src.rels):
        ctx.ev("strict sub-logs")
        if exp.rels:
            ctx.nontrivial(tag, tuple(sorted(x["events"])), tuple(sorted(x["objects"])))


def untouched(ctx, tag, a, oc):
    v, x = og.view(oc), a.view()
    ctx.check(all(v[k] == x[k] for k in x), f"{tag}:input-modified", "the log passed to the filter was changed")


def fam_events(ctx):
    r = ctx.rng
    a = gen(ctx)
    oc = a.build(r, shuffle=r.random() < .5)
    ids = [e[0] for e in a.events]
    # identifiers
    S = set(r.sample(ids, r.randint(0, len(ids)))) | ({"nope"} if r.random() < .2 else set())
    arg = r.choice([list, set, tuple])(S)
    judge(ctx, "events", a, by_events(a, S), ctx.call("filter_ocel_events", pm4py.filter_ocel_events, oc, arg, positive=True))
    judge(ctx, "events-neg", a, by_events(a, set(ids) - S), ctx.call("filter_ocel_events", pm4py.filter_ocel_events, oc, arg, positive=False))
    ctx.ev("complementary pairs")
    # attribute
    keys = ["ocel:activity", "ocel:activity"] + sorted({k for e in a.events for k in e[3]})
    for k in set(r.sample(keys, min(2, len(keys)))):
        vals = [e[1] if k == "ocel:activity" else e[3].get(k) for e in a.events]
        cand = sorted({v for v in vals if v is not None}, key=repr)
        V = r.sample(cand, r.randint(1, len(cand)))
        hit = {e[0] for e, v in zip(a.events, vals) if v is not None and v in V}
        judge(ctx, "event-attribute", a, by_events(a, hit), ctx.call("filter_ocel_event_attribute", pm4py.filter_ocel_event_attribute, oc, k, V), attr=k, values=V)
        judge(ctx, "event-attribute-neg", a, by_events(a, set(ids) - hit), ctx.call("filter_ocel_event_attribute", pm4py.filter_ocel_event_attribute, oc, k, V, positive=False), attr=k, values=V)
        ctx.ev("complementary pairs")
    # timestamps
    ts = [e[2] for e in a.events]
    lo, hi = sorted([r.choice(ts) + timedelta(seconds=r.choice([0, 0, 1, -1])), r.choice(ts) + timedelta(seconds=r.choice([0, 0, 1, -1]))])
    form = r.choice(["str", "aware", "naive"])
    if form == "str":
        lo, hi = lo.replace(microsecond=0), hi.replace(microsecond=0)
        args = [x.strftime("%Y-%m-%d %H:%M:%S") for x in (lo, hi)]
    else:
        args = [x if form == "aware" else x.replace(tzinfo=None) for x in (lo, hi)]
    judge(ctx, "events-timestamp", a, by_events(a, {e[0] for e in a.events if lo <= e[2] <= hi}), ctx.call("filter_ocel_events_timestamp", pm4py.filter_ocel_events_timestamp, oc, *args), args=args)
    # counts per type
    ty = {o[0]: o[1] for o in a.objects}
    per = {e: {} for e in ids}
    for e, o, _ in a.rels:
        per[e].setdefault(ty[o], set()).add(o)
    M = {t: r.choice([1, 1, 1, 2, 3]) for t in r.sample(sorted(set(ty.values())), r.randint(1, min(2, len(set(ty.values())))))}
    hit = {e for e in ids if all(len(per[e].get(t, ())) >= n for t, n in M.items())}
    judge(ctx, "per-type-count", a, by_events(a, hit), ctx.call("filter_ocel_object_per_type_count", pm4py.filter_ocel_object_per_type_count, oc, M), minimum=M)
    # endpoints
    oe = {o[0]: [] for o in a.objects}
    for x in sorted(oc.relations.to_dict("records"), key=lambda x: x["ocel:timestamp"]):
        oe[x["ocel:oid"]].append(x["ocel:eid"])
    for t in sorted(set(ty.values())):
        for tag, fn, i in (("start-events", pm4py.filter_ocel_start_events_per_object_type, 0), ("end-events", pm4py.filter_ocel_end_events_per_object_type, -1)):
            hit = {oe[o][i] for o in oe if ty[o] == t and oe[o]}
            judge(ctx, tag, a, by_events(a, hit), ctx.call(tag, fn, oc, t), type=t)
    untouched(ctx, "events", a, oc)


def fam_objects(ctx):
    r = ctx.rng
    a = gen(ctx)
    oc = a.build(r, shuffle=r.random() < .5)
    ids = [o[0] for o in a.objects]
    ty = {o[0]: o[1] for o in a.objects}
    S = set(r.sample(ids, r.randint(0, len(ids))))
    arg = r.choice([list, set, tuple])(S)
    judge(ctx, "objects", a, by_objects(a, S), ctx.call("filter_ocel_objects", pm4py.filter_ocel_objects, oc, arg))
    judge(ctx, "objects-neg", a, by_objects(a, set(ids) - S), ctx.call("filter_ocel_objects", pm4py.filter_ocel_objects, oc, arg, positive=False))
    ctx.ev("complementary pairs")
    # levels: objects sharing an event, recursively
    nb = {o: set() for o in ids}
    eo = a.e_objs()
    for e in eo:
        for o in eo[e]:
            nb[o] |= set(eo[e])
    lv = r.choice([2, 2, 3, 4])
    T = set(r.sample(sorted(set(ty.values())), 1))
    for tag, fn, arg, base in (("objects-level", pm4py.filter_ocel_objects, r.sample(ids, 1), None), ("object-types-level", pm4py.filter_ocel_object_types, list(T), None)):
        X = set(arg) if fn is pm4py.filter_ocel_objects else {o for o in ids if ty[o] in T}
        for _ in range(lv - 1):
            X = X | {y for x in X for y in nb[x]}
        pos = r.random() < .6
        judge(ctx, tag, a, by_objects(a, X if pos else set(ids) - X), ctx.call(tag, fn, oc, arg, positive=pos, level=lv), arg=arg, level=lv, positive=pos)
    # types
    T = set(r.sample(sorted(set(ty.values())), r.randint(0, len(set(ty.values()))))) | ({"nope"} if r.random() < .2 else set())
    judge(ctx, "object-types", a, by_objects(a, {o for o in ids if ty[o] in T}), ctx.call("filter_ocel_object_types", pm4py.filter_ocel_object_types, oc, list(T)), types=sorted(T))
    judge(ctx, "object-types-neg", a, by_objects(a, {o for o in ids if ty[o] not in T}), ctx.call("filter_ocel_object_types", pm4py.filter_ocel_object_types, oc, list(T), positive=False), types=sorted(T))
    ctx.ev("complementary pairs")
    # attribute
    keys = ["ocel:type", "ocel:type"] + sorted({k for o in a.objects for k in o[2]})
    for k in set(r.sample(keys, min(2, len(keys)))):
        vals = [o[1] if k == "ocel:type" else o[2].get(k) for o in a.objects]
        cand = sorted({v for v in vals if v is not None}, key=repr)
        V = r.sample(cand, r.randint(1, len(cand)))
        hit = {o[0] for o, v in zip(a.objects, vals) if v is not None and v in V}
        judge(ctx, "object-attribute", a, by_objects(a, hit), ctx.call("filter_ocel_object_attribute", pm4py.filter_ocel_object_attribute, oc, k, V), attr=k, values=V)
        judge(ctx, "object-attribute-neg", a, by_objects(a, set(ids) - hit), ctx.call("filter_ocel_object_attribute", pm4py.filter_ocel_object_attribute, oc, k, V, positive=False), attr=k, values=V)
        ctx.ev("complementary pairs")
    # allowed activities per type
    acts = sorted({e[1] for e in a.events})
    D = {t: r.sample(acts, r.randint(0, len(acts))) for t in r.sample(sorted(set(ty.values())), r.randint(1, len(set(ty.values()))))}
    act = {e[0]: e[1] for e in a.events}
    judge(ctx, "allowed-activities", a, by_rels(a, [x for x in a.rels if act[x[0]] in D.get(ty[x[1]], ())]),
          ctx.call("filter_ocel_object_types_allowed_activities", pm4py.filter_ocel_object_types_allowed_activities, oc, D), allowed=D)
    untouched(ctx, "objects", a, oc)


def fam_components(ctx):
    r = ctx.rng
    a = gen(ctx)
    oc = a.build(r, shuffle=r.random() < .5)
    cc = components(a)
    ctx.ev("components", len(cc))
    ty = {o[0]: o[1] for o in a.objects}
    allo = set(ty)
    o = r.choice(sorted(allo))
    mine = next(c for c in cc if o in c)
    judge(ctx, "cc-object", a, by_objects(a, mine), ctx.call("filter_ocel_cc_object", pm4py.filter_ocel_cc_object, oc, o), object=o)
    got, comps = ctx.call("filter_ocel_cc_object", pm4py.filter_ocel_cc_object, oc, o, return_conn_comp=True)
    judge(ctx, "cc-object", a, by_objects(a, mine), got, object=o)
    o2 = r.choice(sorted(allo))
    judge(ctx, "cc-object-given", a, by_objects(a, next(c for c in cc if o2 in c)), ctx.call("filter_ocel_cc_object", pm4py.filter_ocel_cc_object, oc, o2, conn_comp=comps), object=o2)
    lo = r.choice([0, 1, 1, 2, 3])
    hi = lo + r.choice([0, 0, 1, 3, 20])
    judge(ctx, "cc-length", a, by_objects(a, {x for c in cc if lo <= len(c) <= hi for x in c}), ctx.call("filter_ocel_cc_length", pm4py.filter_ocel_cc_length, oc, lo, hi), bounds=(lo, hi), sizes=sorted(map(len, cc)))
    t = r.choice(sorted(set(ty.values())))
    hit = {x for c in cc if any(ty[y] == t for y in c) for x in c}
    judge(ctx, "cc-otype", a, by_objects(a, hit), ctx.call("filter_ocel_cc_otype", pm4py.filter_ocel_cc_otype, oc, t), type=t)
    judge(ctx, "cc-otype-neg", a, by_objects(a, allo - hit), ctx.call("filter_ocel_cc_otype", pm4py.filter_ocel_cc_otype, oc, t, positive=False), type=t)
    ctx.ev("complementary pairs")
    act = r.choice(sorted({e[1] for e in a.events}))
    touched = {x[1] for x in a.rels if dict((e[0], e[1]) for e in a.events)[x[0]] == act}
    judge(ctx, "cc-activity", a, by_objects(a, {x for c in cc if c & touched for x in c}), ctx.call("filter_ocel_cc_activity", pm4py.filter_ocel_cc_activity, oc, act), activity=act)
    untouched(ctx, "components", a, oc)
    # the partition of the log in its executions
    from pm4py.algo.transformation.ocel.split_ocel import algorithm as split
    parts = ctx.call("split_ocel", split.apply, oc, variant=split.Variants.CONNECTED_COMPONENTS)
    gotc = {}
    for p in parts:
        gotc[frozenset(p.objects["ocel:oid"])] = p
    ctx.check(len(gotc) == len(parts) and set(gotc) == {frozenset(c) for c in cc}, "split-components:partition", f"objects {sorted(map(sorted, gotc))} instead of {sorted(map(sorted, cc))}")
    for c in cc:
        if frozenset(c) in gotc:
            judge(ctx, "split-components", a, by_objects(a, c), gotc[frozenset(c)])


def fam_sample(ctx):
    r = ctx.rng
    a = gen(ctx)
    oc = a.build(r, shuffle=r.random() < .5)
    random.seed(r.random())
    n = r.randint(0, len(a.objects) + 1)
    s = ctx.call("sample_ocel_objects", pm4py.sample_ocel_objects, oc, n)
    got = set(s.objects["ocel:oid"])
    ctx.check(len(got) == min(n, len(a.objects)), "sample-objects:number", f"{len(got)} objects instead of {min(n, len(a.objects))}")
    judge(ctx, "sample-objects", a, by_objects(a, got), s)
    from pm4py.objects.ocel.util import sampling
    n = r.randint(0, len(a.events) + 1)
    s = ctx.call("sample_ocel_events", sampling.sample_ocel_events, oc, {"num_entities": n})
    got = set(s.events["ocel:eid"])
    ctx.check(len(got) == min(n, len(a.events)), "sample-events:number", f"{len(got)} events instead of {min(n, len(a.events))}")
    judge(ctx, "sample-events", a, by_events(a, got), s)
    cc = components(a)
    ctx.ev("components", len(cc))
    lim = {}
    if r.random() < .6:
        for k, hi in (("max_num_events_per_cc", 6), ("max_num_objects_per_cc", 4), ("max_num_e2o_relations_per_cc", 8)):
            if r.random() < .4:
                lim[k] = r.randint(1, hi)
    ok = []
    for c in cc:
        x = by_objects(a, c)
        if len(x.events) <= lim.get("max_num_events_per_cc", 10 ** 9) and len(x.objects) <= lim.get("max_num_objects_per_cc", 10 ** 9) and len(x.rels) <= lim.get("max_num_e2o_relations_per_cc", 10 ** 9):
            ok.append(frozenset(c))
    n = r.randint(1, len(cc) + 1)
    s = ctx.call("sample_ocel_connected_components", pm4py.sample_ocel_connected_components, oc, n, **lim)
    got = set(s.objects["ocel:oid"])
    picked = [c for c in ok if c & got]
    ctx.check(len(picked) == min(n, len(ok)) and {x for c in picked for x in c} == got, "sample-components:objects",
              f"objects {sorted(got)}; {n} of the components {[sorted(c) for c in ok]} wanted", limits=lim)
    exp = by_objects(a, got)
    if set(s.events["ocel:eid"]) == {e[0] for e in exp.events}:
        s.events = s.events.set_index("ocel:eid").loc[[e[0] for e in exp.events]].reset_index()  # the order of the sampled components is free
    judge(ctx, "sample-components", a, exp, s)
    untouched(ctx, "sample", a, oc)
    # executions of the objects of a type: ancestors and descendants
    from pm4py.algo.transformation.ocel.split_ocel import algorithm as split
    ty = {o[0]: o[1] for o in a.objects}
    t = r.choice(sorted(set(ty.values())))
    parts = ctx.call("split_ocel", split.apply, oc, variant=split.Variants.ANCESTORS_DESCENDANTS, parameters={"object_type": t})
    ctx.check([p.parameters["@@central_object"] for p in parts] == [o for o in oc.objects["ocel:oid"] if ty[o] == t], "split-ancestors:central-objects", f"{[p.parameters['@@central_object'] for p in parts]}")
    oe = a.o_evs()
    tm = {e[0]: e[2] for e in a.events}
    start = {o: tm[oe[o][0]] for o in oe if oe[o]}
    nb = {o: set() for o in ty}
    for e, l in a.e_objs().items():
        for x in l:
            nb[x] |= set(l) - {x}
    if len(set(start.values())) == len(start):
        for p in parts:
            c = p.parameters["@@central_object"]
            X = {c}
            for up in (True, False):
                front = [c]
                seen = {c}
                while front:
                    x = front.pop()
                    for y in nb[x]:
                        if y not in seen and (start[y] < start[x]) == up:
                            seen.add(y)
                            front.append(y)
                X |= seen
            judge(ctx, "split-ancestors", a, by_objects(a, X), p, central=c)


FAMILIES = {"events": (250, 4000, fam_events), "objects": (250, 4000, fam_objects), "components": (250, 4000, fam_components), "sampling": (250, 4000, fam_sample)}
