"""C18 classical miners: the discovered artefact vs. the one computed from the definition"""
import datetime as dt
import itertools
from collections import Counter
import pm4py
from rv import gen, ref, h

RULE = ("own alpha / alpha+ relations and maximal pairs (subset enumeration), own dependency/AND/length-two measures, own replay of ILP nets, "
        "own window abstractions, trie as a set of words, own interval merging, own precede/succeed counts and conservation of the correlation LP")
ASSUMPTIONS = ["alpha/alpha+: at most 7 activities", "alpha+: self loops are attached to every place p(X,Y) with A-B in X and B-A in Y, as the implementation reads the definition",
               "batches: whole-second timestamps; identical events of one case count once", "heuristics: dataframes with strictly increasing timestamps per case"]
MINIMUM = {"alpha nets judged": 150, "alpha+ nets judged": 80, "ILP traces replayed": 250, "dependency values": 500, "state spaces judged": 150, "tries judged": 100, "batch groups": 100, "precedence pairs": 150}
CASE_CPU = 150


def small(r, k=None, empty=False):
    labs = gen.labels(r, k or r.choice([1, 2, 3, 4, 5, 6]))
    m = r.random()
    if m < 0.35:
        t = gen.rand_tree(r, labs, ops=("->", "X", "+", "*"), depth=3, tau=0.0)
        out = [gen.play_tree(r, t) for _ in range(r.randint(1, 12))]
        out = [x[:14] for x in out if x] or [[labs[0]]]
    elif m < 0.6:
        # few distinct short traces: rich sharp relations
        out = [r.sample(labs, r.randint(1, len(labs))) for _ in range(r.randint(1, 6))]
    else:
        out = gen.rand_traces(r, labs=labs, n=r.choice([1, 2, 3, 5, 8]), maxlen=r.choice([3, 5, 8]), empty=False)
    if empty and r.random() < 0.2:
        out.insert(r.randint(0, len(out)), [])
    return out


def alog_of(r, traces, **kw):
    return gen.rand_alog(r, traces=traces, **kw)


def subsets(xs):
    xs = list(xs)
    for k in range(1, len(xs) + 1):
        yield from itertools.combinations(xs, k)


def maximal_pairs(acts, causal, sharp):
    ok = [a for a in acts if sharp(a, a)]
    ind = [frozenset(s) for s in subsets(ok) if all(sharp(x, y) for x in s for y in s)]
    out = set()
    for A in ind:
        cand = [b for b in ok if all((a, b) in causal for a in A)]
        for B in ind:
            if B <= set(cand):
                out.add((A, B))
    return {(A, B) for A, B in out if not any((A, B) != (C, D) and A <= C and B <= D for C, D in out)}


def classic_pairs(traces):
    df = set(h.dfg_of(traces))
    acts = {a for t in traces for a in t}
    causal = {(a, b) for a, b in df if (b, a) not in df}
    return acts, maximal_pairs(sorted(acts), causal, lambda a, b: (a, b) not in df and (b, a) not in df)


def structure_of(net, im, fm):
    """multiset of (inputs labels, outputs labels, initial, final) of every place"""
    out = Counter()
    for p in net.places:
        out[(frozenset(a.source.label for a in p.in_arcs), frozenset(a.target.label for a in p.out_arcs), im.get(p, 0), fm.get(p, 0))] += 1
    return out


def alpha(ctx):
    r = ctx.rng
    traces = small(r)
    al = alog_of(r, traces)
    d = dict(traces=traces)
    acts, pairs = classic_pairs(traces)
    want = Counter()
    for A, B in pairs:
        want[(A, B, 0, 0)] += 1
    want[(frozenset(), frozenset(t[0] for t in traces), 1, 0)] += 1
    want[(frozenset(t[-1] for t in traces), frozenset(), 0, 1)] += 1
    runs = h.both(r, al)
    res = [(f"alpha:{how}", ctx.call(f"alpha:{how}", pm4py.discover_petri_net_alpha, obj, **kw)) for how, obj, kw in runs]
    from pm4py.algo.discovery.alpha import algorithm
    if set(h.dfg_of(traces)) and r.random() < 0.5:
        res.append(("alpha:dfg", ctx.call("alpha:dfg", algorithm.variants.classic.apply_dfg_sa_ea, h.dfg_of(traces), dict(Counter(t[0] for t in traces)), dict(Counter(t[-1] for t in traces)))))
    for tag, (net, im, fm) in res:
        ctx.ev("alpha nets judged")
        ctx.eq(sorted(str(t.label) for t in net.transitions), sorted(acts), f"{tag}:transitions")
        got = structure_of(net, im, fm)
        ctx.check(got == want, f"{tag}:places", f"missing {list((want - got).items())[:3]}, extra {list((got - want).items())[:3]}", **d)
        ctx.check(all(a.weight == 1 for a in net.arcs), f"{tag}:weights", "weight other than 1", **d)
    ctx.nontrivial("alpha", len(acts), len(pairs), max((len(A) * len(B) for A, B in pairs), default=0))
    ctx.sample({"traces": traces[:4], "maximal pairs": [[sorted(A), sorted(B)] for A, B in pairs][:4]})


def alpha_plus(ctx):
    r = ctx.rng
    traces = small(r, r.choice([1, 2, 3, 4]))
    if r.random() < 0.7:
        # length-one loops with several predecessors/successors
        x = r.choice([a for t in traces for a in t])
        traces = [sum(([a] * (r.randint(1, 3) if a == x else 1) for a in t), []) for t in traces]
    S, E = ("s",), ("e",)
    full = [[S] + list(t) + [E] for t in traces]
    loops = {a for t in full for a, b in zip(t, t[1:]) if a == b}
    red = [[a for a in t if a not in loops] for t in full]
    df0 = set(h.dfg_of(full))
    fo = set(h.dfg_of(red))
    tri = {(t[i], t[i + 1]) for t in red for i in range(len(t) - 2) if t[i] == t[i + 2]}
    sq = {(a, b) for a, b in tri if (b, a) in tri}
    acts = {a for t in red for a in t}
    causal = {(a, b) for a, b in fo if (b, a) not in fo or (a, b) in sq}
    sharp = lambda a, b: (a, b) not in fo and (b, a) not in fo
    if len(acts) > 9:
        return
    order = sorted(acts, key=str)
    pairs = maximal_pairs(order, causal, sharp)
    places, trans = ["i", "o"], []
    tin, tout = {a: {} for a in acts | loops}, {a: {} for a in acts | loops}
    tin[S]["i"] = 1
    tout[E]["o"] = 1
    for k, (A, B) in enumerate(sorted(pairs, key=str)):
        p = f"p{k}"
        places.append(p)
        for a in A:
            tout[a][p] = 1
        for b in B:
            tin[b][p] = 1
        for l in loops:
            pre, post = {a for a, b in df0 if b == l and a not in loops}, {b for a, b in df0 if a == l and b not in loops}
            if pre and post and pre - post <= A and post - pre <= B:
                tin[l][p] = tout[l][p] = 1
    for a in acts | loops:
        trans.append((str(a), None if a in (S, E) else a, tin[a], tout[a]))
    net0, P = gen.build_net(places, trans)
    from pm4py.objects.petri_net.obj import Marking
    want = ref.Net(net0, Marking({P["i"]: 1}), Marking({P["o"]: 1}))
    k = max(len(t) for t in traces) + 1 if len(acts) < 5 else 5
    lw = want.lang(min(k, 6), cap=4000)
    al = alog_of(r, traces)
    d = dict(traces=traces)
    from pm4py.algo.discovery.alpha import algorithm
    for how, obj, kw in h.both(r, al):
        tag = f"alpha+:{how}"
        pr = {}
        if kw:
            pr = {algorithm.Parameters.ACTIVITY_KEY: "Act", algorithm.Parameters.TIMESTAMP_KEY: "When"}
            from pm4py.algo.discovery.alpha.variants import plus
            pr = {"pm4py:param:activity_key": "Act", "pm4py:param:timestamp_key": "When"}
            if how == "df":
                pr["pm4py:param:case_id_key"] = "Cid"
        net, im, fm = ctx.call(tag, algorithm.apply, obj, parameters=pr, variant=algorithm.Variants.ALPHA_VERSION_PLUS)
        ctx.ev("alpha+ nets judged")
        ctx.eq(sorted(t.label for t in net.transitions if t.label is not None), sorted({a for t in traces for a in t}), f"{tag}:transitions")
        got = ref.Net(net, im, fm).lang(min(k, 6), cap=4000)
        ctx.check(got == lw, f"{tag}:language", f"lost {sorted(lw - got)[:3]}, gained {sorted(got - lw)[:3]}", **d)
    ctx.nontrivial("alpha+", len(acts), len(loops), len(sq), len(lw))


def ilp(ctx):
    r = ctx.rng
    traces = small(r, r.choice([1, 2, 3, 4, 5]), empty=False)
    al = alog_of(r, traces)
    for how, obj, kw in h.both(r, al):
        tag = f"ilp:{how}"
        net, im, fm = ctx.call(tag, pm4py.discover_petri_net_ilp, obj, **kw)
        ctx.eq(sorted(t.label for t in net.transitions if t.label is not None), sorted({a for t in traces for a in t}), f"{tag}:transitions")
        ctx.eq((sum(im.values()), sum(fm.values())), (1, 1), f"{tag}:markings")
        R = ref.Net(net, im, fm)
        for t in {tuple(t) for t in traces}:
            ok = R.accepts(list(t), cap=6000)
            ctx.ev("ILP traces replayed")
            ctx.check(ok, f"{tag}:fitness", f"{t} does not replay", traces=traces, net=[(x[1], x[2], x[3]) for x in R.trans])
        ctx.nontrivial("ilp", len(net.places), len(net.transitions))


def clean(dfg, th):
    mx = Counter()
    for (a, b), v in dfg.items():
        mx[a], mx[b] = max(mx[a], v), max(mx[b], v)
    return {(a, b): v for (a, b), v in dfg.items() if not (th > 0 and v < min(mx[a] * th, mx[b] * th))}


def heuristics(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.choice([2, 3, 4, 5]))
    traces = small(r, len(labs))
    if r.random() < 0.5:
        traces = traces * r.randint(1, 4)
    if r.random() < 0.4:
        a, b = labs[0], labs[1]
        traces = traces + [[a, b, a] + ([b] if r.random() < .5 else []) for _ in range(r.randint(1, 3))]
    al = alog_of(r, traces)
    dep_t, and_t, l2_t = r.choice([0.5, 0.0, 0.3, 0.8]), r.choice([0.65, 0.2, 0.0, 1.0]), r.choice([0.5, 0.2, 0.8, 0.66])
    mina, mind = r.choice([1, 1, 2]), r.choice([1, 1, 2])
    dfg = h.dfg_of(traces)
    dfc = clean(dfg, 0.05)
    occ = Counter(a for t in traces for a in t)
    tri = Counter((t[i], t[i + 1]) for t in traces for i in range(len(t) - 2) if t[i] == t[i + 2] and t[i] != t[i + 1])
    dep = {}
    for (a, b), v in dfc.items():
        w = dfc.get((b, a), 0) if a != b else 0
        dep[a, b] = (v - w) / (v + w + 1)
    edges = {e: d for e, d in dep.items() if d >= dep_t and min(occ[e[0]], occ[e[1]]) >= mina and dfc[e] >= mind}
    nodes = {x for e in edges for x in e}
    l2 = set()
    for (a, b) in tri:
        v = tri[a, b] + tri.get((b, a), 0)
        if a in nodes and v / (v + 1) >= l2_t and dfc.get((a, b), 0) >= mind and min(occ[a], occ[b]) >= mina:
            if not (dep.get((a, b), -2) >= dep_t or dep.get((b, a), -2) >= dep_t):
                l2 |= {(a, b), (b, a)}
    want = dict(edges)
    for e in l2:
        want.setdefault(e, 0)
    wnodes = nodes | {x for e in l2 for x in e}
    if not nodes:
        wnodes = set(occ)
    d = dict(traces=traces, thresholds=[dep_t, and_t, l2_t, mina, mind])
    for how, obj, kw in h.both(r, al):
        tag = f"heuristics:{how}"
        hn = ctx.call(tag, pm4py.discover_heuristics_net, obj, dependency_threshold=dep_t, and_threshold=and_t, loop_two_threshold=l2_t, min_act_count=mina, min_dfg_occurrences=mind, **kw)
        got = {(a, b): v for a, row in hn.dependency_matrix.items() for b, v in row.items()}
        ctx.ev("dependency values", len(dep))
        ctx.check(set(got) == set(dep) and all(h.close(got[e], dep[e], 1e-12, 1e-12) for e in dep), f"{tag}:dependency", f"got {got}, want {dep}", **d)
        ctx.eq(sorted(hn.nodes), sorted(wnodes), f"{tag}:nodes")
        for side in ("output", "input"):
            e = {}
            for n, o in hn.nodes.items():
                for m, es in getattr(o, side + "_connections").items():
                    key = (n, m.node_name) if side == "output" else (m.node_name, n)
                    e[key] = [(x.dependency_value, x.dfg_value) for x in es]
            w = {k: [(v, dfc.get(k, 0))] for k, v in want.items()}
            ctx.ev("dependency edges", len(w))
            ok = set(e) == set(w) and all(len(e[k]) == 1 and h.close(e[k][0][0], w[k][0][0], 1e-12, 1e-12) and e[k][0][1] == w[k][0][1] for k in w)
            ctx.check(ok, f"{tag}:{side}-edges", f"got {e}, want {w}", **d)
        for n, o in hn.nodes.items():
            ctx.eq(o.node_occ, occ[n], f"{tag}:occurrences")
            ctx.eq((bool(o.is_start_activity) or n in {t[0] for t in traces}, n in hn.start_activities[0]), (n in {t[0] for t in traces},) * 2, f"{tag}:start")
            for side in ("out", "in"):
                nb = sorted((y if side == "out" else x) for x, y in edges if (x if side == "out" else y) == n)
                am = {}
                for x, y in itertools.combinations(nb, 2):
                    den = (dfc.get((n, x), 0) + dfc.get((n, y), 0)) if side == "out" else (dfc.get((x, n), 0) + dfc.get((y, n), 0))
                    v = (dfc.get((x, y), 0) + dfc.get((y, x), 0)) / (den + 1)
                    if v >= and_t:
                        am[x, y] = v
                gm = {(x, y): v for x, row in getattr(o, "and_measures_" + side).items() for y, v in row.items()}
                ctx.ev("AND measures", len(am))
                ctx.check(set(am) == set(gm) and all(h.close(am[k], gm[k], 1e-12, 1e-12) for k in am), f"{tag}:and-{side}", f"{n}: got {gm}, want {am}", **d)
        if mina > 1 or mind > 1:
            continue
        net, im, fm = ctx.call(f"{tag}:net", pm4py.discover_petri_net_heuristics, obj, dependency_threshold=dep_t, and_threshold=and_t, loop_two_threshold=l2_t, **kw)
        ctx.eq(sorted(t.label for t in net.transitions if t.label is not None), sorted(wnodes), f"{tag}:net-labels")
        ctx.eq((sum(im.values()), sum(fm.values())), (1, 1), f"{tag}:net-markings")
    ctx.nontrivial("heu", len(wnodes), len(want), len(l2))
    # causal graphs computed from the same DFG
    from pm4py.algo.discovery.causal import algorithm as causal
    ca = causal.apply(dict(dfg), variant=causal.Variants.CAUSAL_ALPHA)
    ctx.eq({k for k, v in ca.items() if v > 0}, {(a, b) for a, b in dfg if (b, a) not in dfg}, "causal:alpha")
    ch = causal.apply(dict(dfg), variant=causal.Variants.CAUSAL_HEURISTIC)
    for (a, b) in dfg:
        if a != b:
            v, w = dfg[a, b], dfg.get((b, a), 0)
            ctx.check(h.close(ch[a, b], (v - w) / (v + w + 1), 1e-12, 1e-12), "causal:heuristic", f"{a},{b}: {ch[a, b]}", **d)


def transition_system(ctx):
    r = ctx.rng
    traces = small(r, empty=False)
    al = alog_of(r, traces)
    direction, window, view = r.choice(["forward", "backward"]), r.choice([1, 2, 2, 3, 100]), r.choice(["sequence", "set", "multiset"])

    def ab(x):
        return tuple(x) if view == "sequence" else frozenset(x) if view == "set" else frozenset(Counter(x).items())

    def canon(n):
        return tuple(n) if isinstance(n, list) else frozenset(n.items()) if isinstance(n, Counter) else frozenset(n)
    states, trans, occ = set(), set(), Counter()
    for t in traces:
        vs = [ab(t[i:i + window] if direction == "forward" else t[max(0, i - window):i]) for i in range(len(t) + 1)]
        states |= set(vs)
        for i in range(len(t)):
            trans.add((vs[i], t[i], vs[i + 1]))
            occ[vs[i], t[i], vs[i + 1]] += 1
    d = dict(traces=traces, direction=direction, window=window, view=view)
    runs = h.both(r, al)
    for how, obj, kw in runs:
        tag = f"ts:{how}"
        T = ctx.call(tag, pm4py.discover_transition_system, obj, direction=direction, window=window, view=view, **kw)
        ctx.ev("state spaces judged")
        gs = [canon(s.name) for s in T.states]
        ctx.check(len(gs) == len(set(gs)) and set(gs) == states, f"{tag}:states", f"got {gs}, want {states}", **d)
        gt = [(canon(t.from_state.name), t.name, canon(t.to_state.name)) for t in T.transitions]
        ctx.check(len(gt) == len(set(gt)) and set(gt) == trans, f"{tag}:transitions", f"got {gt}, want {trans}", **d)
        ctx.check(all(t in t.from_state.outgoing and t in t.to_state.incoming for t in T.transitions) and all(o in T.transitions for s in T.states for o in list(s.outgoing) + list(s.incoming)), f"{tag}:wiring", "", **d)
    from pm4py.algo.discovery.transition_system import algorithm
    log = al.to_log()
    T = ctx.call("ts:data", algorithm.apply, log, parameters={"direction": direction, "window": window, "view": view, "include_data": True})
    got = Counter()
    bad = []
    for t in T.transitions:
        k = (canon(t.from_state.name), t.name, canon(t.to_state.name))
        evs = [x for v in t.data.values() for x in v]
        got[k] += len(evs)
        for case, i in evs:
            if case[i]["concept:name"] != t.name:
                bad.append((t.name, case[i]["concept:name"]))
    ctx.check(got == occ and not bad, "ts:data:events", f"got {dict(got)}, want {dict(occ)}, mislabelled {bad[:3]}", **d)
    ctx.nontrivial("ts", direction, window, view, len(states), len(trans))


def trie(ctx):
    r = ctx.rng
    traces = small(r, empty=True)
    al = alog_of(r, traces)
    has_empty = any(not t for t in traces)
    for how, obj, kw in h.both(r, al):
        tag = f"trie:{how}"
        T = ctx.call(tag, pm4py.discover_prefix_tree, obj, **kw)
        words, bad = [], []

        def rec(n, w, depth):
            if n.final:
                words.append(tuple(w))
            labs = [c.label for c in n.children]
            if len(labs) != len(set(labs)) or n.depth != depth or (not n.children and not n.final):
                bad.append(tuple(w))
            for c in n.children:
                if c.parent is not n:
                    bad.append(("parent",) + tuple(w))
                rec(c, w + [c.label], depth + 1)
        rec(T, [], 0)
        want = {tuple(t) for t in traces if t or how == "log"}
        ctx.ev("tries judged")
        ctx.eq(sorted(words), sorted(want), f"{tag}:words")
        ctx.check(not bad, f"{tag}:structure", f"{bad[:3]}", traces=traces)
    ctx.nontrivial("trie", len(traces), has_empty)


def classify(ev):
    s, e = {x[0] for x in ev}, {x[1] for x in ev}
    if len(s) == 1 and len(e) == 1:
        return "Simultaneous"
    if len(s) == 1:
        return "Batching on Start"
    if len(e) == 1:
        return "Batching on End"
    o = sorted(ev)
    return "Sequential batching" if all(a[1] == b[0] for a, b in zip(o, o[1:])) else "Concurrent batching"


def batches(ctx):
    r = ctx.rng
    base = dt.datetime(2021, 3, 1, tzinfo=dt.timezone.utc)
    n = r.choice([2, 5, 10, 25])
    acts, ress = ["A", "B"][:r.randint(1, 2)], ["R", "S"][:r.randint(1, 2)]
    cases = []
    span = r.choice([600, 4000, 40000])
    shape = r.choice(["mixed", "grid", "seq", "mixed"])
    interval = r.random() < 0.7
    t0 = 0
    for c in range(n):
        evs = []
        for _ in range(r.randint(1, 3)):
            if shape == "grid":
                s = r.randrange(0, 8) * (span // 8)
                dur = r.choice([0, span // 8, span // 4])
            elif shape == "seq":
                s = t0
                dur = r.choice([60, 60, 300])
                t0 += dur + (r.choice([0, 0, 0, 1200]))
            else:
                s = r.randrange(0, span)
                dur = r.choice([0, 10, 300, 2000])
            if not interval:
                dur = 0
            evs.append({"concept:name": r.choice(acts), "org:resource": r.choice(ress), "start_timestamp": base + dt.timedelta(seconds=s), "time:timestamp": base + dt.timedelta(seconds=s + dur)})
        evs.sort(key=lambda e: e["time:timestamp"])
        cases.append((f"c{c}", {}, evs))
    al = gen.ALog(cases)
    md, mb = r.choice([0, 60, 900, 5000]), r.choice([1, 2, 3])
    want = {}
    for cid, _, evs in cases:
        for e in evs:
            s = e["start_timestamp"] if interval else e["time:timestamp"]
            want.setdefault((e["concept:name"], e["org:resource"]), []).append((s.timestamp(), e["time:timestamp"].timestamp(), cid))
    exp = {}
    for k, evs in want.items():
        ivs = []
        for s, e, c in sorted(set(evs)):
            # zero-distance rule: strictly overlapping or at most md apart
            if ivs and (s < ivs[-1][1] or s - ivs[-1][1] <= md):
                ivs[-1] = [ivs[-1][0], max(ivs[-1][1], e), ivs[-1][2] | {(s, e, c)}]
            else:
                ivs.append([s, e, {(s, e, c)}])
        out = {}
        for s, e, st in ivs:
            if len(st) >= mb:
                out.setdefault(classify(st), []).append((s, e, frozenset(st)))
        if out:
            exp[k] = {t: set(v) for t, v in out.items()}
    d = dict(events={str(k): v for k, v in want.items()}, merge_distance=md, min_batch_size=mb)
    from pm4py.algo.discovery.batches import algorithm
    for how, obj in (("log", al.to_log()), ("df", al.to_df(order=r.choice([None, "time"]), rng=r))):
        tag = f"batches:{how}"
        if interval:
            got = ctx.call(tag, algorithm.apply, obj, parameters={"pm4py:param:start_timestamp_key": "start_timestamp", "merge_distance": md, "min_batch_size": mb})
        else:
            got = ctx.call(tag, pm4py.discover_batches, obj, merge_distance=md, min_batch_size=mb)
        g = {k: {t: {(b[0], b[1], frozenset(x[:3] for x in b[2])) for b in bs} for t, bs in x.items()} for k, _, x in got}
        ctx.ev("batch groups", len(want))
        ctx.check(g == exp, f"{tag}", f"got {g}, want {exp}", **d)
        ctx.check(all(nb == sum(len(b) for b in x.values()) for _, nb, x in got), f"{tag}:count", "", **d)
        ctx.eq([x[1] for x in got], sorted((x[1] for x in got), reverse=True), f"{tag}:order")
    ctx.nontrivial("batches", len(exp), sum(len(b) for x in exp.values() for b in x.values()))


def correlation(ctx):
    r = ctx.rng
    traces = small(r, r.choice([2, 3, 4]))
    al = alog_of(r, traces, distinct_time=True)
    inter = r.random() < 0.5
    for _, _, evs in al.cases:
        for e in evs:
            e["start_timestamp"] = e["time:timestamp"] - dt.timedelta(seconds=r.choice([0, 1, 50, 5000]) if inter else 0)
    from pm4py.algo.discovery.correlation_mining import algorithm
    from pm4py.algo.discovery.correlation_mining.variants import classic, trace_based
    acts = sorted({a for t in traces for a in t})
    occ = Counter(a for t in traces for a in t)
    allev = [e for _, _, evs in al.cases for e in evs]
    alt = r.random() < 0.3
    rn = h.ALT if alt else None
    p = {"pm4py:param:start_timestamp_key": "start_timestamp"}
    if alt:
        p.update({"pm4py:param:activity_key": "Act", "pm4py:param:timestamp_key": "When"})
    for how in ("log", "df"):
        pp = dict(p)
        if alt and how == "df":
            pp["pm4py:param:case_id_key"] = "Cid"
        obj = al.to_log(rn) if how == "log" else al.to_df(rn, "Cid" if alt else "case:concept:name", order=r.choice([None, "time"]), rng=r)
        _, grouped, a1 = ctx.call(f"correlation:{how}", classic.preprocess_log, obj, parameters=dict(pp))
        PS, DUR = classic.get_PS_dur_matrix(grouped, a1, parameters=dict(pp))
        _, tg, a2, cnt = ctx.call(f"correlation:trace:{how}", trace_based.preprocess_log, obj, parameters=dict(pp))
        PT, _ = trace_based.get_PS_duration_matrix(a2, tg, parameters=dict(pp))
        d = dict(events=[[(e["concept:name"], str(e["start_timestamp"]), str(e["time:timestamp"])) for e in evs] for _, _, evs in al.cases])
        ctx.eq([list(a1), list(a2)], [acts, acts], f"correlation:{how}:activities")
        for i, a in enumerate(acts):
            for j, b in enumerate(acts):
                if i == j:
                    continue
                A, B = [e for e in allev if e["concept:name"] == a], [e for e in allev if e["concept:name"] == b]
                v = sum(x["time:timestamp"] < y["start_timestamp"] for x in A for y in B) / (len(A) * len(B))
                ctx.ev("precedence pairs")
                ctx.check(h.close(PS[i, j], v), f"correlation:{how}:precede", f"{a},{b}: got {PS[i, j]}, want {v}", **d)
                num = tot = 0
                for _, _, evs in al.cases:
                    A, B = [e for e in evs if e["concept:name"] == a], [e for e in evs if e["concept:name"] == b]
                    tot += len(A) * len(B)
                    num += sum(x["time:timestamp"] < y["start_timestamp"] for x in A for y in B)
                w = num / tot if tot else 0
                ctx.check(h.close(PT[i, j], w), f"correlation:trace:{how}:precede", f"{a},{b}: got {PT[i, j]}, want {w}", **d)
                ctx.check((DUR[i, j] > 0) == (PS[i, j] > 0) and DUR[i, j] >= 0, f"correlation:{how}:duration", f"{a},{b}: {DUR[i, j]} {PS[i, j]}", **d)
        for var in ("CLASSIC", "TRACE_BASED", "CLASSIC_SPLIT"):
            q = dict(pp)
            if var == "CLASSIC_SPLIT":
                q["sample_size"] = r.choice([2, 5, 1000])
            o2 = al.to_log(rn) if how == "log" else obj.copy()
            if var != "TRACE_BASED" and r.random() < 0.3 and how == "df":
                o2 = o2[[c for c in o2.columns if c not in ("case:concept:name", "Cid")]]
            dfg, perf = ctx.call(f"correlation:{var}:{how}", algorithm.apply, o2, variant=getattr(algorithm.Variants, var), parameters=q)
            ctx.ev("correlation DFGs")
            out, inn = Counter(), Counter()
            for (a, b), v in dfg.items():
                out[a] += v
                inn[b] += v
            ctx.check(out == occ and inn == occ, f"correlation:{var}:{how}:conservation", f"dfg {dfg}, occurrences {dict(occ)}", **d)
            ctx.eq(set(perf), set(dfg), f"correlation:{var}:{how}:performance-keys")
    ctx.nontrivial("corr", len(acts), len(allev), inter, alt)


FAMILIES = {
    "alpha": (600, 8000, alpha),
    "alpha_plus": (400, 5000, alpha_plus),
    "ilp": (200, 2000, ilp),
    "heuristics": (500, 6000, heuristics),
    "transition_system": (400, 5000, transition_system),
    "trie": (200, 3000, trie),
    "batches": (400, 6000, batches),
    "correlation": (150, 1500, correlation),
}
