"""C27: marking equation / extended marking equation are lower bounds; synchronous products pair the trace with the runs of the net"""
import heapq
import math
import numpy as np
import pm4py
from pm4py.objects.petri_net.obj import Marking, PetriNet
from rv import gen, ref
from rv.ref import Net
from rv.checks.c13 import lean

RULE = ("the value of the marking equation lies between the own linear-programming optimum (rounded down) and the cheapest firing sequence found by an own state-space search, it exists whenever the target is "
        "reachable; the extended marking equation lies between 0 / the marking equation of the synchronous product and the optimal alignment cost; the synchronous product is bisimilar to the pairs "
        "(position in the trace, marking of the net) with synchronous, log and model moves; incidence and consumption matrices match the arcs")
ASSUMPTIONS = ["costs are non-negative", "the value is an integer: it is judged against the real optimum rounded down", "reference searches up to 3000 states"]
MINIMUM = {"oracle_checks": 1500, "bounds compared": 300}


def lp(N, target, cost):
    from scipy.optimize import linprog
    P, T = len(N.places), len(N.trans)
    A = np.zeros((P, T))
    for j, t in enumerate(N.trans):
        for p, w in t[2].items():
            A[p][j] -= w
        for p, w in t[3].items():
            A[p][j] += w
    b = np.zeros(P)
    for p, n in target:
        b[p] += n
    for p, n in N.im:
        b[p] -= n
    if T == 0:
        return 0.0 if not b.any() else None
    r = linprog(cost, A_eq=A if P else None, b_eq=b if P else None, bounds=[(0, None)] * T, method="highs")
    return r.fun if r.status == 0 else (None if r.status == 2 else float("nan"))


def cheapest(N, target, cost, cap=3000):
    best, heap, done = {N.im: 0}, [(0, N.im)], set()
    while heap:
        c, m = heapq.heappop(heap)
        if m in done:
            continue
        done.add(m)
        if m == target:
            return c
        if len(done) > cap:
            raise ref.TooBig()
        for j, t in enumerate(N.trans):
            if N.enabled(m, t):
                n = N.fire(m, t)
                if c + cost[j] < best.get(n, float("inf")):
                    best[n] = c + cost[j]
                    heapq.heappush(heap, (best[n], n))
    return None


def desc(N):
    return [(t[1], {N.places[p].name: w for p, w in t[2].items()}, {N.places[p].name: w for p, w in t[3].items()}) for t in N.trans]


def guarded(f):
    def g(ctx):
        try:
            f(ctx)
        except ref.TooBig:
            ctx.ev("beyond the reference bound")
    return g


@guarded
def fam_equation(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 5))
    c = r.random()
    if c < .35:
        net, im, fm = gen.rand_wfnet(r, labs=labs, depth=r.choice([1, 2, 3]), extra=r.choice([0, .5]), maxleaf=6)[:3]
    elif c < .55:
        net, im, fm = lean(r, labs)
    else:
        places, trans = gen.rand_free_net(r, labs=labs)
        net, po = gen.build_net(places, trans)
        im = Marking({po[q]: r.choice([1, 1, 2, 3]) for q in places if r.random() < .6})
        fm = Marking({po[q]: r.choice([1, 1, 2]) for q in places if r.random() < .4})
    N = Net(net, im, fm)
    # a reachable target (random walk) or an arbitrary one
    target = N.fm
    if r.random() < .6:
        m = N.im
        for _ in range(r.randint(0, 7)):
            ts = list(N.succ(m))
            if not ts:
                break
            m = r.choice(ts)[1]
        target = m
    tm = Marking({N.places[p]: n for p, n in target})
    unit = r.random() < .4
    cost = [1 if unit else r.choice([0, 1, 1, 2, 5, 10000]) for _ in N.trans]
    if not unit and r.random() < .3:
        cost = [x + r.choice([0, .25, .5]) for x in cost]
    d = {"model": desc(N), "from": [(N.places[p].name, n) for p, n in N.im], "to": [(N.places[p].name, n) for p, n in target], "cost": cost}
    ctx.nontrivial(repr(d))
    ctx.sample(repr(d))
    try:
        best = cheapest(N, target, cost)
    except ref.TooBig:
        best = "unknown"
    low = lp(N, target, cost)
    if low is not None and math.isnan(low):
        return ctx.ev("LP undecided")
    if len(N.trans) == 0 or len(N.places) == 0:
        return
    h = ctx.call("solve_marking_equation", pm4py.solve_marking_equation, net, im, tm, **({} if unit else {"cost_function": {o: c for o, c in zip(N.obj, cost)}}))
    ctx.ev("bounds compared")
    if best is not None and best != "unknown":
        ctx.ev("reachable targets")
        if not ctx.check(h is not None, "marking-equation:infeasible", "no solution although the marking is reachable", **d):
            return
        ctx.check(h <= best + 1e-6, "marking-equation:overestimates", lambda: f"{h} for a distance of {best}", **d)
    ctx.eq(h is None, low is None, "marking-equation:feasibility", **d)
    if h is not None and low is not None:
        ctx.check(h >= math.floor(low + 1e-4) - 1e-6 or h >= low - 1 - 1e-4, "marking-equation:below-the-optimum", lambda: f"{h}, linear optimum {low}", **d)
        ctx.check(h >= 0, "marking-equation:negative", f"{h}", **d)
    from pm4py.algo.analysis.marking_equation import algorithm as me
    s = me.build(net, im, tm, parameters={"costs": {o: c for o, c in zip(N.obj, cost)}})
    h2, x = s.solve()
    ctx.eq(h2 is None, h is None, "marking-equation:solve")
    if x is not None:
        ctx.check(len(x) == len(N.trans) and all(isinstance(v, int) and v >= 0 for v in x), "marking-equation:vector", f"{x}", **d)
    # another initial marking on the same solver
    other = r.choice(sorted({N.im} | {n for _, n in N.succ(N.im)}))
    try:
        N2 = Net(net, Marking({N.places[p]: n for p, n in other}), tm)
        b2 = cheapest(N2, target, cost)
        s.change_ini_vec(Marking({N.places[p]: n for p, n in other}))
        h3, _ = s.solve()
        l3 = lp(N2, target, cost)
        ctx.eq(h3 is None, l3 is None, "marking-equation:changed-marking:feasibility", other=[(N.places[p].name, n) for p, n in other], **d)
        if b2 is not None:
            ctx.check(h3 is not None and h3 <= b2 + 1e-6, "marking-equation:changed-marking:overestimates", lambda: f"{h3} for a distance of {b2}", **d)
        if h3 is not None and l3 is not None:
            ctx.check(h3 >= l3 - 1 - 1e-4, "marking-equation:changed-marking:below-the-optimum", lambda: f"{h3}, linear optimum {l3}", **d)
        ctx.ev("bounds compared")
    except ref.TooBig:
        pass
    # matrices
    from pm4py.objects.petri_net.utils.incidence_matrix import construct
    from pm4py.objects.petri_net.utils.consumption_matrix import construct as cons
    M, C = ctx.call("incidence matrix", construct, net), ctx.call("consumption matrix", cons, net)
    for name, X, f in (("incidence", M.a_matrix, lambda t, p: t[3].get(p, 0) - t[2].get(p, 0)), ("consumption", C.c_matrix, lambda t, p: -t[2].get(p, 0))):
        Y = M if name == "incidence" else C
        bad = [(N.places[p].name, t[0]) for j, t in enumerate(N.trans) for p in range(len(N.places)) if X[Y.places[N.places[p]]][Y.transitions[N.obj[j]]] != f(t, p)]
        ctx.check(not bad, f"{name}-matrix", lambda: f"{bad[:3]}", **d)
    e = M.encode_marking(im)
    ctx.eq({p.name: e[M.places[p]] for p in net.places if e[M.places[p]]}, {N.places[p].name: n for p, n in N.im}, "encode_marking", **d)


SKIP = ">>"


@guarded
def fam_product(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 5))
    if r.random() < .6:
        net, im, fm = gen.rand_wfnet(r, labs=labs, depth=r.choice([1, 2]), dup=r.choice([0, .4]), extra=r.choice([0, .5]), maxleaf=5)[:3]
    else:
        places, trans = gen.rand_free_net(r, labs=labs)
        net, po = gen.build_net(places, trans)
        im = Marking({po[q]: r.choice([1, 1, 2]) for q in places if r.random() < .6})
        fm = Marking({po[q]: 1 for q in places if r.random() < .3})
        try:
            ms = sorted(Net(net, im, fm).reach(200)[0])
            m = r.choice(ms)
            fm = Marking({Net(net, im, fm).places[p]: n for p, n in m})
        except ref.TooBig:
            pass
    N = Net(net, im, fm)
    w, m = [], N.im
    for _ in range(8):
        ts = list(N.succ(m))
        if not ts or len(w) > 5:
            break
        t, m = r.choice(ts)
        if t[1] is not None:
            w.append(t[1])
    if r.random() < .5:
        w.insert(r.randint(0, len(w)), r.choice(labs + ["other"]))
    if r.random() < .3 and w:
        del w[r.randrange(len(w))]
    d = {"model": desc(N), "trace": w}
    ctx.nontrivial(repr(d))
    ctx.sample(repr(d))
    from pm4py.objects.log.obj import Trace, Event
    trace = Trace([Event({"concept:name": a}) for a in w])
    sn, si, sf = ctx.call("construct_synchronous_product_net", pm4py.construct_synchronous_product_net, trace, net, im, fm)
    S = Net(sn, si, sf)
    ctx.check(all(isinstance(t[1], tuple) and len(t[1]) == 2 for t in S.trans), "product:labels", "")
    # bisimulation: product marking <-> (position, marking of the net)
    start = (S.im, 0, N.im)
    seen, todo = {start}, [start]
    by = {}
    for j, t in enumerate(N.trans):
        by.setdefault(t[0], []).append(t)
    pair = {}
    while todo:
        s, i, m = todo.pop()
        if len(seen) > 3000:
            ctx.ev("products partly explored")
            break
        if (i, m) in pair:
            ctx.check(pair[i, m] == s, "product:state", "two product markings for the same pair", **d)
        pair[i, m] = s
        # final
        ctx.check((s == S.fm) == (i == len(w) and m == N.fm), "product:final-marking", lambda: f"position {i}", **d)
        exp = []
        for t in N.trans:
            if N.enabled(m, t):
                exp.append(((SKIP, t[1]), t[0]))
                if i < len(w) and t[1] == w[i]:
                    exp.append(((w[i], t[1]), t[0]))
        if i < len(w):
            exp.append(((w[i], SKIP), SKIP))
        got = [(t[1], t[0][1] if isinstance(t[0], tuple) else t[0]) for t in S.trans if S.enabled(s, t)]
        if not ctx.check(sorted(map(repr, got)) == sorted(map(repr, exp)), "product:moves", lambda: f"enabled {sorted(map(repr, got))} instead of {sorted(map(repr, exp))} at position {i}", **d):
            return
        ctx.ev("product states")
        for t in S.trans:
            if S.enabled(s, t):
                a, b = t[1]
                j = i + (a != SKIP)
                ms = [m] if t[0][1] == SKIP else [N.fire(m, x) for x in by[t[0][1]]]
                for n in ms[:1]:
                    k = (S.fire(s, t), j, n)
                    if k not in seen:
                        seen.add(k)
                        todo.append(k)
    # extended marking equation
    if not w or N.fm not in [m for (i, m) in pair]:
        return
    cost = [10000 if SKIP in t[1] and not (t[1][0] == SKIP and t[1][1] is None) else (1 if t[1][0] == SKIP else 0) for t in S.trans]
    try:
        opt = cheapest(S, S.fm, cost, 4000)
    except ref.TooBig:
        return
    if opt is None:
        return
    low = lp(S, S.fm, cost)
    split = None
    if r.random() < .4 and len(w) > 2:
        split = sorted(r.sample(range(1, len(w)), r.randint(1, len(w) - 1)))
    if len(S.trans) > 45:
        return
    h = ctx.call("solve_extended_marking_equation", pm4py.solve_extended_marking_equation, trace, sn, si, sf, **({"split_points": split} if split else {}))
    ctx.ev("bounds compared")
    ctx.ev("extended marking equations")
    if ctx.check(h is not None, "extended:infeasible", f"no solution for an alignment of cost {opt}", split=split, **d):
        ctx.check(0 <= h <= opt, "extended:overestimates", lambda: f"{h} for an optimal cost of {opt}", split=split, **d)
        ctx.check(low is None or h >= low - 1 - 1e-3, "extended:below-the-marking-equation", lambda: f"{h}, marking equation {low}", split=split, **d)
    h1 = ctx.call("solve_marking_equation", pm4py.solve_marking_equation, sn, si, sf, cost_function=dict(zip(S.obj, cost)))
    ctx.check(h1 is not None and 0 <= h1 <= opt, "marking-equation:product:overestimates", lambda: f"{h1} for an optimal cost of {opt}", **d)


FAMILIES = {"equation": (250, 8000, fam_equation), "product": (120, 3000, fam_product)}
