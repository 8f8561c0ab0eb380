"""C05 follows-relations are counted exactly"""
import math
import warnings
from collections import Counter
from rv import gen, h

warnings.filterwarnings("ignore")
RULE = "a case is non-trivial when at least one directly-follows pair exists; distinct by the multiset of traces"


def _alog(ctx, empty_ok=False, **kw):
    r = ctx.rng
    al = gen.rand_alog(r, ties=0.0, distinct_time=False, attrs=r.random() < 0.5, **kw)
    # strictly increasing time inside each case unless ties are requested explicitly
    tr = al.traces()
    if any(len(t) > 1 for t in tr):
        ctx.nontrivial(tuple(sorted(map(tuple, tr))))
    ctx.ev("traces", len(tr))
    ctx.ev("log_events", al.n_events())
    ctx.sample([" ".join(map(str, t)) for t in tr[:4]])
    return al


def fam_dfg(ctx):
    import pm4py
    al = _alog(ctx, ties=0.0) if False else _alog(ctx)
    tr = al.traces()
    exp = h.dfg_of(tr)
    sa = dict(Counter(t[0] for t in tr))
    ea = dict(Counter(t[-1] for t in tr))
    occ = Counter(a for t in tr for a in t)
    for kind, log, kw in h.both(ctx.rng, al):
        d, s, e = ctx.call(f"discover_dfg:{kind}", pm4py.discover_dfg, log, **kw)
        ctx.eq(h.ints(d), exp, f"dfg:{kind}")
        ctx.eq(h.ints(s), sa, f"dfg-start:{kind}")
        ctx.eq(h.ints(e), ea, f"dfg-end:{kind}")
        for a in occ:
            ctx.eq(s.get(a, 0) + sum(v for (x, y), v in d.items() if y == a), occ[a], f"flow-in:{kind}")
            ctx.eq(e.get(a, 0) + sum(v for (x, y), v in d.items() if x == a), occ[a], f"flow-out:{kind}")
        if kind == "df":
            t = ctx.call("dfg_typed", pm4py.discover_dfg_typed, log, **kw)
            ctx.eq(h.ints(t.graph), exp, "typed-graph")
            ctx.eq(h.ints(t.start_activities), sa, "typed-start")
            ctx.eq(h.ints(t.end_activities), ea, "typed-end")
            from pm4py.objects.dfg import util as du
            ctx.eq(set(du.get_vertices(t)), set(occ), "typed-vertices")
            ctx.eq(h.ints(du.get_vertex_frequencies(t)), dict(occ), "typed-vertex-frequencies")
            og, ic = du.get_outgoing_arcs(t), du.get_incoming_arcs(t)
            ctx.eq({(a, b): int(n) for a in og for b, n in og[a].items()}, exp, "typed-outgoing")
            ctx.eq({(a, b): int(n) for b in ic for a, n in ic[b].items()}, exp, "typed-incoming")
            pre, post = du.get_transitive_relations(t)
            ep = {a: set() for a in occ}
            for a in occ:
                st = [y for (x, y) in exp if x == a]
                while st:
                    b = st.pop()
                    if b not in ep[a]:
                        ep[a].add(b)
                        st += [y for (x, y) in exp if x == b]
            ctx.eq({a: set(v) - {a} for a, v in post.items()}, {a: v - {a} for a, v in ep.items()}, "typed-transitive-post")
            ctx.eq({a: set(v) - {a} for a, v in pre.items()}, {a: {b for b in occ if a in ep[b]} - {a} for a in occ}, "typed-transitive-pre")


def fam_variants(ctx):
    """window, once-per-case, triples, case attributes"""
    al = _alog(ctx)
    tr = al.traces()
    r = ctx.rng
    w = r.randint(1, 4)
    from pm4py.algo.discovery.dfg import algorithm as dfg_alg
    from pm4py.algo.discovery.dfg.adapters.pandas import df_statistics, freq_triples
    (_, log, _), (_, df, _) = h.both(r, al, alt=False)
    for once in (False, True):
        g = ctx.call("native", dfg_alg.apply, log, parameters={"window": w, "keep_once_per_case": once})
        ctx.eq(h.ints(g), h.dfg_of(tr, w, once), f"native-window-once={once}")
        g = ctx.call("df_graph", df_statistics.get_dfg_graph, df.copy(), window=w, keep_once_per_case=once)
        ctx.eq(h.ints(g), h.dfg_of(tr, w, once), f"df-window-once={once}")
    tri = Counter((t[i], t[i + 1], t[i + 2]) for t in tr for i in range(len(t) - 2))
    g = ctx.call("triples-log", dfg_alg.apply, log, variant=dfg_alg.Variants.FREQ_TRIPLES)
    ctx.eq(h.ints(g), dict(tri), "triples-log")
    g = ctx.call("triples-df", freq_triples.get_freq_triples, df.copy())
    ctx.eq(h.ints(g), dict(tri), "triples-df")
    # frequency and performance counted together keep the same support
    both = ctx.call("df-both", df_statistics.get_dfg_graph, df.copy(), measure="both", perf_aggregation_key="raw_values")
    ctx.eq(h.ints(both[0]), h.dfg_of(tr), "both-frequency")
    ctx.eq({k: len(v) for k, v in both[1].items()}, h.dfg_of(tr), "both-raw-values")
    if tr:
        from pm4py.algo.discovery.dfg.variants import case_attributes
        exp, nodes = {}, {}
        for (cid, ca, ev), t in zip(al.cases, tr):
            for i in range(len(t)):
                nodes.setdefault(t[i], Counter())[cid] += 1
                if i + 1 < len(t):
                    exp.setdefault((t[i], t[i + 1]), Counter())[cid] += 1
        g, n = ctx.call("case_attributes", case_attributes.apply, log, parameters={"return_nodes_attributes": True})
        ctx.eq({k: dict(v["concept:name"]) for k, v in g.items()}, {k: dict(v) for k, v in exp.items()}, "dfg-case-attributes")
        ctx.eq({k: dict(v["concept:name"]) for k, v in n.items()}, {k: dict(v) for k, v in nodes.items()}, "dfg-node-attributes")
        # cleanly typed replacement adapters
        from pm4py.objects.dfg.retrieval import log as dlog
        ctx.eq(h.ints(dlog.native(log)), h.dfg_of(tr), "retrieval-native")


def fam_efg(ctx):
    import pm4py
    r = ctx.rng
    al = gen.rand_alog(r, ties=r.choice([0, 0, 0.4]), attrs=False)
    tr = al.traces()
    if any(len(t) > 1 for t in tr):
        ctx.nontrivial("efg", tuple(sorted(map(tuple, tr))))
    exp = Counter()
    first = Counter()
    for t in tr:
        for i in range(len(t)):
            for j in range(i + 1, len(t)):
                exp[(t[i], t[j])] += 1
    for kind, log, kw in h.both(r, al, order=r.choice([None, "interleave"])):
        g = ctx.call(f"efg:{kind}", pm4py.discover_eventually_follows_graph, log, **kw)
        ctx.eq(h.ints(g), dict(exp), f"efg:{kind}")
    from pm4py.statistics.eventually_follows.log import get as gl
    from pm4py.statistics.eventually_follows.pandas import get as gp
    log, df = al.to_log(), al.to_df()
    ff = h.dfg_of(tr)
    ctx.eq(h.ints(ctx.call("efg-first-log", gl.apply, log, {"keep_first_following": True})), ff, "efg-first-following:log")
    ctx.eq(h.ints(ctx.call("efg-first-df", gp.apply, df, {"keep_first_following": True})), ff, "efg-first-following:df")
    from pm4py.statistics.eventually_follows.uvcl import get as gu
    from pm4py.algo.discovery.inductive.dtypes.im_ds import IMDataStructureUVCL
    ctx.eq(h.ints(gu.apply(IMDataStructureUVCL(Counter(map(tuple, tr))))), dict(exp), "efg:uvcl")


def fam_msd(ctx):
    import pm4py
    al = _alog(ctx)
    tr = al.traces()
    msd, wit = {}, {}
    for t in tr:
        for i in range(len(t)):
            for j in range(i + 1, len(t)):
                if t[i] == t[j]:
                    msd[t[i]] = min(msd.get(t[i], 10 ** 9), j - i - 1)
                    break
    for t in tr:
        for i in range(len(t)):
            a = t[i]
            if a in msd and msd[a] > 0 and i + msd[a] + 1 < len(t) and t[i + msd[a] + 1] == a:
                wit.setdefault(a, set()).update(t[i + 1:i + msd[a] + 1])
    from pm4py.algo.discovery.minimum_self_distance import utils
    for kind, log, kw in h.both(ctx.rng, al):
        g = ctx.call(f"msd:{kind}", pm4py.derive_minimum_self_distance, log, **kw)
        ctx.eq(h.ints(g), msd, f"msd:{kind}")
        if not kw:
            g = ctx.call("witnesses", utils.derive_msd_witnesses, log, parameters={})
            ctx.eq({a: set(s) for a, s in g.items()}, wit, f"msd-witnesses:{kind}")


def fam_trie(ctx):
    import pm4py
    al = _alog(ctx)
    tr = set(map(tuple, al.traces()))
    for kind, log, kw in h.both(ctx.rng, al):
        root = ctx.call(f"trie:{kind}", pm4py.discover_prefix_tree, log, **kw)
        paths, finals, bad = [], set(), []

        def walk(n, p):
            if p:
                paths.append(p)
                if n.final:
                    finals.add(p)
                if n.depth != len(p):
                    bad.append((p, n.depth))
            for c in n.children:
                if c.parent is not n:
                    bad.append(p)
                walk(c, p + (c.label,))
        walk(root, ())
        ctx.eq(sorted(paths), sorted({t[:i] for t in tr for i in range(1, len(t) + 1)}), f"trie-paths:{kind}")
        ctx.eq(finals, tr, f"trie-final:{kind}")
        ctx.eq(bad, [], f"trie-structure:{kind}")


def fam_filter(ctx):
    """noise filtering of a DFG keeps a connected sub-graph with original counts"""
    from pm4py.algo.filtering.dfg import dfg_filtering as f
    import pm4py
    al = _alog(ctx, n=ctx.rng.choice([4, 8, 12]))
    tr = al.traces()
    dfg = h.dfg_of(tr)
    sa, ea = dict(Counter(t[0] for t in tr)), dict(Counter(t[-1] for t in tr))
    ac = dict(Counter(a for t in tr for a in t))
    p = ctx.rng.choice([0, 0.2, 0.5, 0.7, 0.9, 1.0])

    def conn(d, s, e, a, key):
        ctx.check(all(dfg.get(k) == v for k, v in d.items()), key + ":edge-counts-changed")
        ctx.check(all(sa.get(k) == v for k, v in s.items()) and all(ea.get(k) == v for k, v in e.items()), key + ":endpoint-counts-changed")
        ctx.check(all(ac.get(k) == v for k, v in a.items()), key + ":activity-counts-changed")
        ctx.check(all(x in a and y in a for x, y in d), key + ":dangling-edge", d=d, a=a)
        ctx.check(set(s) <= set(a) and set(e) <= set(a), key + ":dangling-endpoint")
        fw, bw = set(s), set(e)
        for _ in range(len(a) + 1):
            fw |= {y for x, y in d if x in fw}
            bw |= {x for x, y in d if y in bw}
        ctx.check(set(a) <= fw and set(a) <= bw, key + ":not-connected", dfg=d, s=s, e=e, a=a)
    snap = repr((sorted(dfg.items(), key=repr), sa, ea, ac))
    d, s, e, a = ctx.call("act%", f.filter_dfg_on_activities_percentage, dfg, sa, ea, ac, p)
    conn(d, s, e, a, "activities%")
    if len(ac) > 1 and len(dfg) > 1:
        keep = [x for x, n in sorted(ac.items(), key=lambda z: (z[1], z[0]), reverse=True)][:math.ceil((len(ac) - 1) * p) + 1]
        ctx.check(set(keep) <= set(a), "activities%:frequent-activity-dropped", p=p, ac=ac, a=a)
    if p == 1.0:
        ctx.eq((d, s, e, a), (dfg, sa, ea, ac), "activities%:full-is-identity")
    keepall = ctx.rng.random() < 0.5
    d, s, e, a = ctx.call("paths%", f.filter_dfg_on_paths_percentage, dfg, sa, ea, ac, p, keep_all_activities=keepall)
    conn(d, s, e, a, "paths%")
    if keepall:
        ctx.eq(set(a), set(ac), "paths%:keep-all-activities")
    if p == 1.0:
        ctx.eq((d, s, e, a), (dfg, sa, ea, ac), "paths%:full-is-identity")
    d, s, e, a = ctx.call("keepconn", f.filter_dfg_keep_connected, dfg, sa, ea, ac, p - 0.5, keep_all_activities=keepall)
    conn(d, s, e, a, "keep-connected")
    if keepall:
        ctx.eq(set(a), set(ac), "keep-connected:keep-all-activities")
    ctx.eq(repr((sorted(dfg.items(), key=repr), sa, ea, ac)), snap, "filter-mutates-input")
    from pm4py.objects.dfg.utils import dfg_utils as u
    ctx.eq({(a_, b): n for a_, m in u.get_outgoing_edges(dfg).items() for b, n in m.items()}, dfg, "outgoing-edges")
    ctx.eq({(b, a_): n for a_, m in u.get_ingoing_edges(dfg).items() for b, n in m.items()}, dfg, "ingoing-edges")
    if dfg:
        ctx.eq(set(u.get_activities_from_dfg(dfg)), {x for k in dfg for x in k}, "activities-from-dfg")


FAMILIES = {
    "dfg": (260, 12000, fam_dfg),
    "variants": (160, 6000, fam_variants),
    "efg": (160, 6000, fam_efg),
    "msd": (120, 5000, fam_msd),
    "trie": (120, 5000, fam_trie),
    "filter": (200, 9000, fam_filter),
}
MINIMUM = {"oracle_checks": 2000, "log_events": 5000}
