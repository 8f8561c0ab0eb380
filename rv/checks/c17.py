"""C17 POWL discovery: own reading of POWL models (own translation into a place/transition system) and own token game on
the net pm4py derives from them"""
from collections import Counter
import pm4py
from rv import gen, ref, h
from rv.checks import c16

RULE = "own POWL semantics (partial orders, choices, loops as a token game with exact state space): strict partial orders, activities, acceptance of every trace; own soundness of the converted net"
ASSUMPTIONS = ["logs of at most 7 activities and 20 traces", "models whose state space exceeds the cap are only judged structurally"]
MINIMUM = {"models judged": 200, "traces replayed": 800, "partial orders judged": 100}
CASE_CPU = 150


class PowlNet(ref.Net):
    def __init__(self, m):
        self.places, self.trans, self.obj = [], [], []
        i, o = self._p("i"), self._p("o")
        self._add(m, i, o)
        self.im, self.fm = ((i, 1),), ((o, 1),)

    def _p(self, n):
        self.places.append(f"{n}{len(self.places)}")
        return len(self.places) - 1

    def _t(self, lab, pre, post):
        self.trans.append((f"t{len(self.trans)}", lab, {p: 1 for p in pre}, {p: 1 for p in post}, [], []))

    def _add(self, m, i, o):
        from pm4py.objects.powl.obj import Transition, OperatorPOWL, StrictPartialOrder
        from pm4py.objects.process_tree.obj import Operator
        if isinstance(m, Transition):
            self._t(m.label, [i], [o])
        elif isinstance(m, StrictPartialOrder):
            ns = list(m.children)
            ed = {}
            for x in range(len(ns)):
                for y in range(len(ns)):
                    if m.order.is_edge(ns[x], ns[y]):
                        ed[x, y] = self._p("e")
            ins, outs = [], []
            for x, n in enumerate(ns):
                a, b = self._p("a"), self._p("b")
                s = self._p("s")
                f = self._p("f")
                ins.append(s)
                outs.append(f)
                self._t(None, [s] + [p for (u, v), p in ed.items() if v == x], [a])
                self._t(None, [b], [f] + [p for (u, v), p in ed.items() if u == x])
                self._add(n, a, b)
            self._t(None, [i], ins)
            self._t(None, outs, [o])
        elif isinstance(m, OperatorPOWL):
            if m.operator is Operator.XOR:
                for n in m.children:
                    self._add(n, i, o)
            elif m.operator is Operator.LOOP:
                a, b = self._p("a"), self._p("b")
                self._t(None, [i], [a])
                self._t(None, [b], [o])
                self._add(m.children[0], a, b)
                self._add(m.children[1], b, a)
            else:
                raise ValueError(str(m.operator))
        else:
            raise ValueError(type(m).__name__)


def structure(ctx, m, tag, acts, **d):
    """labels, strictness and transitivity of every partial order (read from the raw relation)"""
    from pm4py.objects.powl.obj import Transition, OperatorPOWL, StrictPartialOrder
    labs = []

    def rec(n):
        if isinstance(n, Transition):
            if n.label is not None:
                labs.append(n.label)
            return
        if isinstance(n, StrictPartialOrder):
            ns = list(n.children)
            E = {(x, y) for x in range(len(ns)) for y in range(len(ns)) if n.order.is_edge(ns[x], ns[y])}
            ctx.ev("partial orders judged")
            ctx.check(not any(x == y for x, y in E), f"{tag}:irreflexive", f"{n}", **d)
            ctx.check(all((x, z) in E for x, y in E for y2, z in E if y == y2), f"{tag}:transitive", f"{n}", **d)
            ctx.check(len({id(c) for c in ns}) == len(ns), f"{tag}:nodes", "a node appears twice", **d)
            ctx.eq(len(set(n.order._map_node_to_id.values())), len(ns), f"{tag}:order-nodes")
        elif isinstance(n, OperatorPOWL):
            ctx.check(len(n.children) >= 2, f"{tag}:arity", f"{n}", **d)
        for c in n.children:
            rec(c)
    rec(m)
    try:
        m.validate_partial_orders()
    except Exception as e:
        ctx.fail(f"{tag}:validate", f"{e}", **d)
    ctx.check(set(labs) == acts, f"{tag}:activities", f"{sorted(set(labs))} vs {sorted(acts)}", **d)
    return labs


def replay(ctx, R, vs, tag, **d):
    for tr in vs:
        try:
            ok = R.accepts(tr, cap=6000)
        except ref.TooBig:
            ctx.ev("cases beyond the reference bound")
            return
        ctx.ev("traces replayed")
        if not ok:
            ctx.fail(f"{tag}:fitness", f"trace {tr} not accepted", **d)
            return


def discover(ctx):
    from pm4py.algo.discovery.powl.inductive.variants.powl_discovery_varaints import POWLDiscoveryVariant as V
    r = ctx.rng
    traces = c16.mk_traces(r)
    acts = {a for t in traces for a in t}
    vs = sorted({tuple(t) for t in traces})
    how, L, kw = c16.inputs(r, traces)
    # brute force enumerates partitions: small alphabets only
    v = r.choice([V.TREE, V.MAXIMAL, V.MAXIMAL, V.DYNAMIC_CLUSTERING, V.DYNAMIC_CLUSTERING] + ([V.BRUTE_FORCE] * 2 if len(acts) <= 5 else []))
    tag = v.name.lower()
    d = dict(log=[list(t) for t in traces], input=how)
    m = ctx.call(tag, pm4py.discover_powl, L, variant=v, **kw)
    ctx.ev("models judged")
    d["model"] = str(m)
    structure(ctx, m, tag, acts, **d)
    R = PowlNet(m)
    replay(ctx, R, vs, tag, **d)
    net, im, fm = ctx.call(f"{tag}:convert", pm4py.convert_to_petri_net, m)
    c16.judge_net(ctx, net, im, fm, acts, vs, f"{tag}:net", **d)
    ctx.nontrivial(tag, str(m)[:300])


def direct(ctx):
    """algorithm-level entry: every implemented variant class, simplification preserves the behaviour"""
    from pm4py.algo.discovery.powl.inductive.variants.im_tree import IMBasePOWL
    from pm4py.algo.discovery.powl.inductive.variants.im_brute_force import POWLInductiveMinerBruteForce
    from pm4py.algo.discovery.powl.inductive.variants.im_maximal import POWLInductiveMinerMaximalOrder
    from pm4py.algo.discovery.powl.inductive.variants.im_dynamic_clustering import POWLInductiveMinerDynamicClustering
    from pm4py.algo.discovery.powl.inductive.variants.im_dynamic_clustering_frequencies import POWLInductiveMinerDynamicClusteringFrequency
    from pm4py.algo.discovery.inductive.dtypes.im_ds import IMDataStructureUVCL
    r = ctx.rng
    traces = c16.mk_traces(r)
    acts = {a for t in traces for a in t}
    vs = sorted({tuple(t) for t in traces})
    cl = r.choice([IMBasePOWL, POWLInductiveMinerMaximalOrder, POWLInductiveMinerDynamicClustering, POWLInductiveMinerDynamicClusteringFrequency] + ([POWLInductiveMinerBruteForce] if len(acts) <= 5 else []))
    tag = "direct:" + cl.__name__
    d = dict(log=[list(t) for t in traces])
    m = ctx.call(tag, lambda: cl({}).apply(IMDataStructureUVCL(Counter(tuple(t) for t in traces)), {}))
    structure(ctx, m, tag, acts, **dict(d, model=str(m)))
    s = ctx.call(f"{tag}:simplify", lambda: m.simplify())
    structure(ctx, s, f"{tag}:simplify", acts, **dict(d, model=str(m), simplified=str(s)))
    ctx.ev("models judged")
    a, b = PowlNet(m), PowlNet(s)
    replay(ctx, a, vs, tag, **d)
    replay(ctx, b, vs, f"{tag}:simplify", model=str(m), simplified=str(s), **d)
    try:
        ka, kb = a.lang(4, 1500), b.lang(4, 1500)
        ctx.check(ka == kb, f"{tag}:simplify:language", f"lost {sorted(ka - kb)[:3]}, gained {sorted(kb - ka)[:3]}", model=str(m), simplified=str(s))
        ctx.ev("simplifications with equal bounded language")
    except ref.TooBig:
        ctx.ev("cases beyond the reference bound")
    cp = ctx.call(f"{tag}:copy", lambda: s.copy())
    structure(ctx, cp, f"{tag}:copy", acts, model=str(s))
    ctx.nontrivial(tag, str(m)[:300])


FAMILIES = {"discover": (160, 4000, discover), "direct": (120, 3000, direct)}
