"""C15: play-out produces only (exhaustive play-out: exactly) the behaviour of the model; generated trees respect their parameters"""
import copy
import itertools
import math
import random as pyrandom
import pm4py
from pm4py.objects.petri_net.obj import PetriNet, Marking
from pm4py.objects.process_tree.obj import Operator
from rv import gen, ref
from rv.ref import Net, RawNet, model_net
from rv.checks.c13 import lean

RULE = ("every played-out trace is accepted by an independent token game on the model (a trace cut at the maximum length: a firing sequence of the model), the number of traces is the requested one, "
        "case identifiers are distinct and timestamps increase; exhaustive play-out returns exactly the words of the language within the length bounds, each once; "
        "the DFG play-out returns the most probable traces with their probability; the model is not modified; generated trees have the requested activities, operators, silent and duplicate leaves")
ASSUMPTIONS = ["loops have a body and one redo part", "silent loops without exit are not generated (play-out of a net may diverge there)",
               "exhaustive tree play-out supports sequence, choice, concurrency and loop, and is run with enough loop repetitions for the length bound",
               "the maximum number of occurrences of a marking in exhaustive net play-out is left unbounded"]
MINIMUM = {"oracle_checks": 2000, "traces judged": 3000}
OP = {"->": Operator.SEQUENCE, "X": Operator.XOR, "+": Operator.PARALLEL, "*": Operator.LOOP, "O": Operator.OR, "<>": Operator.INTERLEAVING}


def words(log, key="concept:name"):
    return [tuple(e[key] for e in t) for t in log]


def seed(ctx):
    import numpy as np
    pyrandom.seed(ctx.rng.random())
    np.random.seed(ctx.rng.randrange(2 ** 31))


class Lang:
    """membership with memory"""

    def __init__(self, N):
        self.N = N
        self.memo = {(): frozenset(N.closure({N.im}, 1500))}

    def states(self, w):
        if w not in self.memo:
            s = self.states(w[:-1])
            nx = {self.N.fire(m, t) for m in s for t in self.N.trans if t[1] == w[-1] and self.N.enabled(m, t)}
            self.memo[w] = frozenset(self.N.closure(nx, 1500)) if nx else frozenset()
        return self.memo[w]

    def accepts(self, w):
        return self.N.fm in self.states(w)

    def prefix(self, w):
        return bool(self.states(w))


def order(ctx, key, log, case_attr="concept:name"):
    ids = [t.attributes.get(case_attr) for t in log]
    ctx.check(len(set(ids)) == len(ids) and None not in ids, f"{key}:case-ids", f"{ids[:5]}")
    ts = [e["time:timestamp"] for t in log for e in t]
    ctx.check(all(a < b for t in log for a, b in zip([e["time:timestamp"] for e in t], [e["time:timestamp"] for e in t][1:])), f"{key}:timestamps", "timestamps do not increase along a case")
    return ts


def guarded(f):
    def g(ctx):
        try:
            f(ctx)
        except ref.TooBig:
            ctx.ev("beyond the reference bound")
    g.__name__ = f.__name__
    return g


@guarded
def fam_tree(ctx):
    r = ctx.rng
    ops = r.choice([("->", "X", "+", "*"), ("->", "X"), ("->", "+"), ("X", "+", "*"), ("->", "X", "+", "*", "O"), ("->", "<>", "X"), ("O", "->"), ("*", "->"), ("<>", "+", "*")])
    labs = gen.labels(r, r.randint(1, 6))
    t = gen.rand_tree(r, labs, ops=ops, depth=r.choice([1, 2, 3]), dup=r.choice([0, 0, .5]), tau=r.choice([0, .15, .4]), maxleaf=r.choice([3, 5, 7]))
    s = gen.tree_str(t)
    L = Lang(model_net(t))
    tree = gen.to_pt(t)
    ctx.nontrivial(s)
    ctx.sample(s)
    seed(ctx)
    n = r.choice([1, 7, 30, 60])
    from pm4py.algo.simulation.playout.process_tree import algorithm as po
    log = ctx.call("play_out(tree)", pm4py.play_out, tree, parameters={"num_traces": n})
    ctx.eq(len(log), n, "tree:number-of-traces")
    for w in words(log):
        ctx.ev("traces judged")
        ctx.check(L.accepts(w), "tree:not-in-language", lambda: f"{w} is not a trace of {s}")
    log = ctx.call("play_out(tree, basic)", po.apply, gen.to_pt(t), variant=po.Variants.BASIC_PLAYOUT, parameters={"num_traces": n})
    ctx.eq(len(log), n, "basic:number-of-traces")
    for w in words(log):
        ctx.ev("traces judged")
        ctx.check(L.accepts(w), "basic:not-in-language", lambda: f"{w} is not a trace of {s}")
    order(ctx, "tree", log)
    ctx.eq(gen.tree_str(gen.from_pt(tree)), s, "tree:model-modified")
    # a model with a small finite language: repeated sampling finds every trace
    if not gen.tree_ops(t) & {"*"} and ctx.index % 4 == 0:
        try:
            lang = ref.tree_lang(t, 12, 60) if not gen.tree_ops(t) & {"<>"} else None
        except ref.TooBig:
            lang = None
        if lang and len(lang) <= 6 and gen.tree_size(t) <= 8:
            for v in (po.Variants.TOPBOTTOM, po.Variants.BASIC_PLAYOUT):
                log = ctx.call("play_out(tree)", po.apply, gen.to_pt(t), variant=v, parameters={"num_traces": 1500})
                ctx.eq(set(words(log)), set(lang), f"{v.name}:some-trace-never-played", tree=s)


@guarded
def fam_tree_all(ctx):
    from pm4py.algo.simulation.playout.process_tree import algorithm as po
    r = ctx.rng
    ops = r.choice([("->", "X", "+", "*"), ("->", "X", "+"), ("->", "*"), ("X", "+", "*"), ("->", "X", "*")])
    labs = gen.labels(r, r.randint(1, 5))
    t = gen.rand_tree(r, labs, ops=ops, depth=r.choice([1, 2, 3]), dup=r.choice([0, 0, .4, .8]), tau=r.choice([0, .2, .4]), maxleaf=r.choice([3, 5]))
    s = gen.tree_str(t)
    hi = r.choice([1, 2, 3, 4, 5])
    lo = r.choice([0, 0, 1, 2, 3])
    if lo > hi:
        lo = hi
    try:
        lang = Net.lang(model_net(t), hi, 300)
    except ref.TooBig:
        return ctx.ev("beyond the reference bound")
    exp = {w for w in lang if lo <= len(w) <= hi}
    ctx.nontrivial(s, lo, hi)
    ctx.sample({"tree": s, "min": lo, "max": hi})
    tree = gen.to_pt(t)
    L = Lang(model_net(t))
    P = {"min_trace_length": lo, "max_trace_length": hi}
    if r.random() < .3:
        P["max_loop_occ"] = 50
    got = ctx.call("extensive play-out (tree)", po.apply, tree, variant=po.Variants.EXTENSIVE, parameters=dict(P, return_set_strings=True))
    got = set(got)
    ctx.ev("traces judged", len(got | exp))
    ctx.eq(sorted(exp - got), [], "extensive-tree:missing", tree=s, lo=lo, hi=hi)
    ctx.eq([w for w in sorted(got) if not L.accepts(w)], [], "extensive-tree:extra", tree=s, lo=lo, hi=hi)
    ctx.eq(sorted(got - exp), [], "extensive-tree:outside-the-length-bounds", tree=s, lo=lo, hi=hi)
    log = ctx.call("extensive play-out (tree)", po.apply, tree, variant=po.Variants.EXTENSIVE, parameters=dict(P))
    ctx.eq(sorted(words(log)), sorted(got), "extensive-tree:log", tree=s)
    ctx.eq(gen.tree_str(gen.from_pt(tree)), s, "extensive-tree:model-modified")
    # default bounds: the shortest traces of the model
    from pm4py.objects.process_tree.utils import bottomup
    if "*" not in gen.tree_ops(t):
        m = min(map(len, Net.lang(model_net(t), 8, 300)), default=None)
        if m:
            d = set(po.apply(tree, variant=po.Variants.EXTENSIVE, parameters={"return_set_strings": True}))
            ctx.eq(d, {w for w in Net.lang(model_net(t), m, 300) if len(w) <= m and w}, "extensive-tree:default-bounds", tree=s)


def diverges(N):
    """a reachable marking from which silent steps alone can go on forever, or a reachable marking with infinitely many..."""
    ms, edges = N.reach(300)
    g = {}
    for a, i, b in edges:
        if N.trans[i][1] is None:
            g.setdefault(a, set()).add(b)
    # cycle of silent steps that cannot be left
    reach_fm = {N.fm}
    back = {}
    for a, i, b in edges:
        back.setdefault(b, set()).add(a)
    vis = {a for a, i, b in edges if N.trans[i][1] is not None}
    dead = ms - {a for a, _, _ in edges}
    ok = set(vis) | dead | reach_fm
    st = list(ok)
    while st:
        m = st.pop()
        for x in back.get(m, ()):
            if x not in ok:
                ok.add(x)
                st.append(x)
    return bool(ms - ok)


def rand_net(r):
    c = r.random()
    labs = gen.labels(r, r.randint(1, 5))
    if c < .4:
        return gen.rand_wfnet(r, labs=labs, depth=r.choice([1, 2, 3]), dup=r.choice([0, .4]), extra=r.choice([0, .6]), maxleaf=5)[:3]
    if c < .6:
        return lean(r, labs)
    places, trans = gen.rand_free_net(r, labs=labs)
    net, po = gen.build_net(places, trans)
    im = Marking({po[q]: r.choice([1, 1, 2]) for q in places if r.random() < .6})
    N = Net(net, im, Marking())
    try:
        ms = sorted(N.reach(200)[0])
    except ref.TooBig:
        return None
    m = r.choice(ms) if r.random() < .8 else tuple(sorted((N.pix[id(p)], 1) for p in r.sample(N.places, 1)))
    return net, im, Marking({N.places[p]: n for p, n in m})


def add_arcs(r, net, im, fm):
    from pm4py.objects.petri_net.obj import ResetInhibitorNet, ResetNet, InhibitorNet
    from pm4py.objects.petri_net.utils import petri_utils as pu
    kind = r.choice([ResetInhibitorNet, ResetNet, InhibitorNet])
    n2, m = kind("x"), {}
    for p in sorted(net.places, key=lambda p: p.name):
        m[p] = PetriNet.Place(p.name)
        n2.places.add(m[p])
    for t in sorted(net.transitions, key=lambda t: t.name):
        m[t] = PetriNet.Transition(t.name, t.label)
        n2.transitions.add(m[t])
    for a in sorted(net.arcs, key=lambda a: (str(a.source.name), str(a.target.name))):
        pu.add_arc_from_to(m[a.source], m[a.target], n2, weight=a.weight)
    types = {ResetInhibitorNet: ["reset", "inhibitor"], ResetNet: ["reset"], InhibitorNet: ["inhibitor"]}[kind]
    ps, ts = sorted(n2.places, key=lambda p: p.name), sorted(n2.transitions, key=lambda t: t.name)
    for _ in range(r.choice([1, 2])):
        pu.add_arc_from_to(r.choice(ps), r.choice(ts), n2, type=r.choice(types))
    return n2, Marking({m[p]: c for p, c in im.items()}), Marking({m[p]: c for p, c in fm.items()})


def spec(N):
    return [(t[1], {N.places[p].name: w for p, w in t[2].items()}, {N.places[p].name: w for p, w in t[3].items()}, [N.places[p].name for p in t[4]], [N.places[p].name for p in t[5]]) for t in N.trans]


@guarded
def fam_net(ctx):
    from pm4py.algo.simulation.playout.petri_net import algorithm as po
    from pm4py.objects.petri_net.inhibitor_reset.semantics import InhibitorResetSemantics
    from pm4py.objects.petri_net.semantics import ClassicSemantics
    r = ctx.rng
    x = rand_net(r)
    if x is None:
        return ctx.ev("unbounded or too large")
    net, im, fm = x
    ri = r.random() < .25
    if ri:
        net, im, fm = add_arcs(r, net, im, fm)
    N = Net(net, im, fm)
    try:
        if diverges(N):
            return ctx.ev("divergent net")
        N.reach(300)
    except ref.TooBig:
        return ctx.ev("unbounded or too large")
    desc = spec(N)
    ctx.nontrivial(repr(desc))
    ctx.sample(repr(desc))
    L = Lang(N)
    dead = {m for m in N.reach(300)[0] if not any(True for _ in N.succ(m))}
    seed(ctx)
    n, mx = r.choice([1, 5, 25]), r.choice([1, 3, 8, 100])
    sem = InhibitorResetSemantics() if ri else ClassicSemantics()

    def judge(key, w, dets=True):
        ctx.ev("traces judged")
        st = L.states(w)
        if len(w) >= mx:
            ctx.check(len(w) == mx, f"{key}:too-long", f"{len(w)} > {mx}")
            return ctx.check(bool(st), f"{key}:not-a-firing-sequence", lambda: f"{w}", model=desc)
        # ends at the final marking, or no transition is enabled
        ctx.check(bool(st & ({N.fm} | dead)), f"{key}:not-in-language", lambda: f"{w} neither ends at the final marking nor in a deadlock", model=desc)
    from pm4py.algo.simulation.playout.petri_net.variants.basic_playout import Parameters as k
    log = ctx.call("play_out(net)", pm4py.play_out, net, im, fm, parameters={k.NO_TRACES: n, k.MAX_TRACE_LENGTH: mx})
    ctx.eq(len(log), n, "net:number-of-traces")
    for w in words(log):
        judge("net", w)
    order(ctx, "net", log)
    # runs
    runs = ctx.call("play-out of runs", po.apply, net, im, fm, variant=po.Variants.BASIC_PLAYOUT, parameters={k.NO_TRACES: n, k.MAX_TRACE_LENGTH: mx, k.PETRI_SEMANTICS: sem, k.RETURN_VISITED_ELEMENTS: True})
    for run in runs[:10]:
        m = N.im
        good = True
        for e in run:
            if isinstance(e, PetriNet.Transition):
                t = [N.trans[i] for i, o in enumerate(N.obj) if o is e][0]
                good = good and N.enabled(m, t)
                m = N.fire(m, t)
            else:
                good = good and N.mk(e) == m
        ctx.check(good, "net:run", "a played-out run is not a run of the net", model=desc)
    # only complete traces
    log = ctx.call("play_out(net), complete", po.apply, net, im, fm, variant=po.Variants.BASIC_PLAYOUT,
                   parameters={k.NO_TRACES: n, k.MAX_TRACE_LENGTH: mx, k.PETRI_SEMANTICS: sem, k.ADD_ONLY_IF_FM_IS_REACHED: True, k.CASE_ID_KEY: "id", k.ACTIVITY_KEY: "act", k.TIMESTAMP_KEY: "ts", k.INITIAL_CASE_ID: 7})
    ctx.check(len(log) <= n, "net-complete:number", "")
    for i, t in enumerate(log):
        w = tuple(e["act"] for e in t)
        ctx.ev("traces judged")
        ctx.check(L.accepts(w), "net-complete:not-in-language", lambda: f"{w}", model=desc)
        ctx.eq(t.attributes.get("id"), str(i + 7), "net-complete:case-id")
        ctx.check(all("ts" in e for e in t), "net-complete:timestamps", "")
    # exhaustive
    hi = r.choice([0, 1, 2, 3, 4, 5])
    try:
        exp = N.lang(hi, 200)
    except ref.TooBig:
        exp = None
    if exp is not None and len(exp) < 300:
        log = ctx.call("extensive play-out (net)", po.apply, net, im, fm, variant=po.Variants.EXTENSIVE, parameters={"maxTraceLength": hi, "petri_semantics": sem})
        got = words(log)
        ctx.ev("traces judged", len(exp))
        ctx.eq(sorted(set(got) - exp), [], "extensive-net:extra", model=desc, hi=hi)
        ctx.eq(sorted(exp - set(got)), [], "extensive-net:missing", model=desc, hi=hi)
        ctx.eq(len(got), len(set(got)), "extensive-net:repeated", model=desc)
        order(ctx, "extensive-net", log)
    ctx.eq(spec(Net(net, im, fm)), desc, "net:model-modified")
    # stochastic
    if True:
        from pm4py.objects.random_variables.random_variable import RandomVariable
        zero = set()
        smap = {}
        for t in net.transitions:
            rv = RandomVariable()
            rv.read_from_string(r.choice(["EXPONENTIAL", "IMMEDIATE"]), "1.0")
            rv.set_weight(r.choice([.2, 1, 3]))
            smap[t] = rv
        mx2 = r.choice([3, 8])
        log = ctx.call("play_out(net, stochastic map)", pm4py.play_out, net, im, fm, parameters={k.NO_TRACES: n, k.MAX_TRACE_LENGTH: mx, "smap": smap})
        ctx.eq(len(log), n, "stochastic:number-of-traces")
        for w in words(log):
            judge("stochastic", w)
        # a transition of weight 0 is never chosen against another with a positive one
        vis = sorted({t.label for t in net.transitions if t.label is not None})
        if vis:
            ban = r.choice(vis)
            zero = {o for o in net.transitions if o.label == ban}
            for t in zero:
                smap[t].set_weight(0.0)
            M2 = Net(net, im, fm)
            alone = any(all(M2.obj[M2.trans.index(t)] in zero for t, _ in M2.succ(m)) and any(True for _ in M2.succ(m)) for m in M2.reach(300)[0])
            if not alone:
                log = ctx.call("play_out(net, stochastic map)", pm4py.play_out, net, im, fm, parameters={k.NO_TRACES: n, k.MAX_TRACE_LENGTH: mx, "smap": smap})
                ctx.check(not any(ban in w for w in words(log)), "stochastic:zero-weight-fired", lambda: f"{ban}", model=desc)
                ctx.ev("zero-weight play-outs")


@guarded
def fam_stoch_log(ctx):
    """weights estimated from a log that the net can replay"""
    r = ctx.rng
    labs = gen.labels(r, r.randint(1, 5), hostile=False)
    t = gen.rand_tree(r, labs, depth=2, maxleaf=5, tau=.15)
    net, im, fm = pm4py.convert_to_petri_net(gen.to_pt(t))
    al = gen.rand_alog(r, traces=[list(gen.play_tree(r, t)) for _ in range(r.randint(2, 8))], empty=True)
    log = al.to_log()
    if not len(log) or not any(len(x) for x in log):
        return
    L = Lang(Net(net, im, fm))
    seed(ctx)
    s = gen.tree_str(t)
    ctx.nontrivial(s)
    ctx.sample(s)
    out = ctx.call("play_out(net, log)", pm4py.play_out, net, im, fm, parameters={"log": log, "noTraces": 20})
    ctx.eq(len(out), 20, "stochastic-log:number-of-traces")
    for w in words(out):
        ctx.ev("traces judged")
        ctx.check(L.accepts(w) if len(w) < 1000 else L.prefix(w), "stochastic-log:not-in-language", lambda: f"{w} is not a trace of {s}")
    seen = {a for x in log for a in [e["concept:name"] for e in x]}
    if ctx.index % 6 == 0:
        from pm4py.algo.simulation.montecarlo import algorithm as mc
        k = 6
        sim, res = ctx.call("Monte Carlo simulation", mc.apply, log, net, im, fm, parameters={"num_simulations": k, "enable_diagnostics": False, "max_thread_exec_time": 20, "case_arrival_ratio": 50, "default_num_resources_per_places": r.choice([1, 2, 10])}) \
            if not any(len(x) == 0 for x in log) and not L.accepts(()) and not (gen.tree_ops(t) & {"*"}) else (None, None)
        if sim is not None:
            ctx.ev("simulations")
            ctx.check(len(sim) <= k, "simulation:number", f"{len(sim)}")
            for w in words(sim):
                ctx.ev("traces judged")
                ctx.check(L.accepts(w), "simulation:not-in-language", lambda: f"{w} is not a trace of {s}")


def fam_dfg(ctx):
    from pm4py.algo.simulation.playout.dfg import algorithm as po
    from pm4py.algo.simulation.playout.dfg.variants import classic
    r = ctx.rng
    labs = gen.labels(r, r.randint(1, 5))
    traces = [w for w in gen.rand_traces(r, labs=labs, maxlen=5) if w][:6]
    if not traces:
        return
    dfg, sa, ea = {}, {}, {}
    for w in traces:
        k = r.choice([1, 2, 5])
        sa[w[0]] = sa.get(w[0], 0) + k
        ea[w[-1]] = ea.get(w[-1], 0) + k
        for x, y in zip(w, w[1:]):
            dfg[x, y] = dfg.get((x, y), 0) + k
    occ = r.choice([1, 2, 2, 3])
    # all the traces with at most occ occurrences of an activity, with probabilities
    outs = {}
    for (x, y), c in dfg.items():
        outs.setdefault(x, {})[y] = c
    for x, c in ea.items():
        outs.setdefault(x, {})[None] = c
    exp = {}
    st = [((a,), c / sum(sa.values())) for a, c in sa.items()]
    steps = 0
    while st:
        w, p = st.pop()
        steps += 1
        if steps > 3000:
            return ctx.ev("beyond the reference bound")
        tot = sum(outs[w[-1]].values())
        for y, c in outs[w[-1]].items():
            if y is None:
                exp[w] = p * c / tot
            elif w.count(y) < occ:
                st.append((w + (y,), p * c / tot))
    n = r.choice([1, 3, 10, 3000, 3000])
    ctx.nontrivial(repr(sorted(dfg.items())), occ, n)
    ctx.sample(repr(traces))
    d0 = (dict(dfg), dict(sa), dict(ea))
    K = classic.Parameters
    log = ctx.call("play_out(dfg)", pm4py.play_out, dfg, sa, ea, parameters={K.MAX_NO_VARIANTS: n, K.MAX_NO_OCC_PER_ACTIVITY: occ})
    got = words(log)
    ctx.ev("traces judged", len(got))
    ctx.eq((dfg, sa, ea), d0, "dfg:model-modified")
    ctx.eq(len(set(got)), len(got), "dfg:repeated")
    order(ctx, "dfg", log)
    ctx.eq(len(got), min(n, len(exp)), "dfg:number-of-traces", traces=traces)
    for t, w in zip(log, got):
        if ctx.check(w in exp, "dfg:not-in-language", lambda: f"{w}", traces=traces):
            ctx.check(abs(t.attributes["probability"] - exp[w]) < 1e-9, "dfg:probability", lambda: f"{w}: {t.attributes['probability']} instead of {exp[w]}")
        ctx.check(abs(classic.get_trace_probability(t, dfg, sa, ea) - exp.get(w, 0)) < 1e-9, "dfg:get_trace_probability", f"{w}")
    best = sorted(exp.values(), reverse=True)[:len(got)]
    ctx.check(all(abs(a - b) < 1e-9 for a, b in zip(best, [exp.get(w, -1) for w in got])), "dfg:not-the-most-probable", lambda: f"{[exp.get(w) for w in got][:5]} instead of {best[:5]}", traces=traces)
    other = tuple(r.choice(labs) for _ in range(r.randint(1, 4)))
    p = (sa.get(other[0], 0) / sum(sa.values()))
    for x, y in zip(other, other[1:] + (None,)):
        p *= outs.get(x, {}).get(y, 0) / (sum(outs[x].values()) if x in outs else 1)
    tr = gen.rand_alog(r, traces=[list(other)]).to_log()[0]
    ctx.check(abs(classic.get_trace_probability(tr, dfg, sa, ea) - p) < 1e-9, "dfg:get_trace_probability", lambda: f"{other}: {classic.get_trace_probability(tr, dfg, sa, ea)} instead of {p}")
    v = ctx.call("play_out(dfg) variants", po.apply, dfg, sa, ea, variant=po.Variants.CLASSIC, parameters={K.MAX_NO_VARIANTS: n, K.MAX_NO_OCC_PER_ACTIVITY: occ, K.RETURN_VARIANTS: True})
    ctx.eq(set(v), set(got), "dfg:variants")
    ctx.check(all(abs(c - exp[w] * n) <= 1 + 1e-6 and c >= exp[w] * n - 1e-6 for w, c in v.items() if w in exp), "dfg:variant-occurrences", repr(v)[:200])
    # simulation with performance
    k = r.choice([1, 5, 20])
    seed(ctx)
    perf = {e: r.choice([0, 5, {"mean": 30.0}, 1000.5]) for e in dfg}
    log = ctx.call("play_out(dfg, performance)", po.apply, dfg, sa, ea, variant=po.Variants.PERFORMANCE, parameters={"num_traces": k, "performance_dfg": perf})
    ctx.eq(len(log), k, "dfg-performance:number")
    for t in log:
        w = tuple(e["concept:name"] for e in t)
        ctx.ev("traces judged")
        ctx.check(w and w[0] in sa and w[-1] in ea and all((x, y) in dfg for x, y in zip(w, w[1:])), "dfg-performance:not-in-language", lambda: f"{w}")
        ts = [e["time:timestamp"] for e in t]
        ctx.check(all((a == b) if (perf[x, y] == 0) else a <= b for a, b, x, y in zip(ts, ts[1:], w, w[1:])), "dfg-performance:timestamps", "")
    ctx.eq((dfg, sa, ea), d0, "dfg:model-modified")


def leaves(p):
    return [p] if not p.children else [x for c in p.children for x in leaves(c)]


def inner(p):
    return [] if not p.children else [p] + [x for c in p.children for x in inner(c)]


def fam_generator(ctx):
    r = ctx.rng
    seed(ctx)
    lo = r.choice([1, 2, 3, 5, 10])
    hi = lo + r.choice([0, 1, 5, 10])
    mode = r.randint(lo, hi)
    names = {"sequence": "->", "choice": "X", "parallel": "+", "loop": "*", "or": "O"}
    w = {o: r.choice([0, 0, .25, 1, .5]) for o in names}
    if not sum(w.values()):
        w["sequence"] = 1
    k = r.choice([1, 1, 3])
    P = dict(w, min=lo, max=hi, mode=mode, silent=r.choice([0, .2, .9]), duplicate=r.choice([0, 0, .1, .4]), no_models=k)
    p0 = dict(P)
    ctx.nontrivial(repr(P))
    ctx.sample(P)
    res = ctx.call("generate_process_tree", pm4py.generate_process_tree, parameters=P)
    ctx.eq(P, p0, "generator:parameters-modified")
    res = res if isinstance(res, list) else [res]
    ctx.eq(len(res), k, "generator:number-of-models")
    allowed = {OP[names[o]] for o, v in w.items() if v > 0}
    for t in res:
        ctx.ev("trees generated")
        ls = leaves(t)
        vis = [x.label for x in ls if x.label is not None]
        ctx.check(lo <= len(vis) <= hi, "generator:number-of-activities", f"{len(vis)} not in [{lo},{hi}]: {t}")
        ctx.check({x.operator for x in inner(t)} <= allowed, "generator:operators", f"{t}", parameters=P)
        ctx.check(all(len(x.children) == 2 for x in inner(t)), "generator:arity", f"{t}")
        st = [(t, None)]
        while st:
            x, p = st.pop()
            ctx.check(x.parent is p, "generator:parent", f"{t}")
            st.extend((c, x) for c in x.children)
        if P["silent"] == 0 and len(vis) > 1:
            ctx.check(len(vis) == len(ls), "generator:silent", f"{t}")
        if P["duplicate"] == 0:
            ctx.check(len(set(vis)) == len(vis), "generator:duplicates", f"{t}")
    from pm4py.algo.simulation.tree_generator import algorithm as tg
    mn = r.choice([0, 1, 2])
    mx = mn + r.choice([0, 1, 2])
    t = ctx.call("basic tree generator", tg.apply, variant=tg.Variants.BASIC, parameters={"min_rec_depth": mn, "max_rec_depth": mx, "prob_leaf": r.choice([0, .25, 1])})

    def depths(x, d=0):
        if not x.children:
            return [] if x.label is None else [d]
        return [y for c in x.children for y in depths(c, d + 1)]
    d = depths(t)
    ctx.check(max(d) <= mx + 1, "basic-generator:max-depth", f"{t}")
    labs = [x.label for x in leaves(t) if x.label is not None]
    st = [(t, None)]
    while st:
        x, p = st.pop()
        ctx.check(x.parent is p, "basic-generator:parent", f"{t}")
        ctx.check((x.operator is None) == (not x.children), "basic-generator:operator", f"{t}")
        st.extend((c, x) for c in x.children)


FAMILIES = {"tree": (120, 4000, fam_tree), "tree extensive": (150, 5000, fam_tree_all), "net": (150, 5000, fam_net), "stochastic from log": (30, 600, fam_stoch_log), "dfg": (100, 3000, fam_dfg), "generator": (80, 2500, fam_generator)}
