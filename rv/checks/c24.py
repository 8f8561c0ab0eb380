"""C24 alignments on other model types agree with the reference cost"""
import signal
from rv import gen, ref, h
from rv.checks import c23
from rv.worker import CaseTimeout

RULE = "a case is non-trivial when the model has at least two activities and a non-empty trace is aligned; distinct by (model, traces)"
ASSUMPTIONS = ["edit-distance alignments are judged against their documented scheme: closest trace by Levenshtein distance, insertions/deletions only",
               "recomposing (decomposed) alignments are only judged on a fixed battery of small workflow nets"]
D = 10000


def mut(r, t, labs):
    t = list(t)
    for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
        j = r.random()
        if j < 0.35 and t:
            t.pop(r.randrange(len(t)))
        elif j < 0.6:
            t.insert(r.randint(0, len(t)), r.choice(labs + ["zz"]))
        elif j < 0.8 and len(t) > 1:
            i, q = r.sample(range(len(t)), 2)
            t[i], t[q] = t[q], t[i]
        elif t:
            i = r.randrange(len(t))
            t.insert(i, t[i])
    return tuple(t)


def lab(x):
    return x if isinstance(x, str) or x is None else x.label


def tree_judge(ctx, tree, tr, ali, opt, who):
    if ali is None:
        return ctx.fail(f"{who}:none", f"{tr}")
    logp, modp, cost = [], [], 0
    for a, b in ali["alignment"]:
        bl = lab(b)
        if a != ">>":
            logp.append(a)
        if bl != ">>" and bl is not None:
            modp.append(bl)
        if (a == ">>" and bl is not None) or (bl == ">>"):
            cost += 1
        if a == ">>" and bl == ">>":
            return ctx.fail(f"{who}:double-skip", f"{ali['alignment']}")
        if a != ">>" and bl != ">>" and a != bl:
            return ctx.fail(f"{who}:bad-sync", f"{[(a, lab(b)) for a, b in ali['alignment']]} for {tr}", tree=gen.tree_str(tree))
    show = [(a, lab(b)) for a, b in ali["alignment"]]
    if tuple(logp) != tuple(tr):
        return ctx.fail(f"{who}:log-projection", f"{logp} vs {tr}: {show}", tree=gen.tree_str(tree))
    if not ref.tree_accepts(tree, tuple(modp)):
        return ctx.fail(f"{who}:model-projection", f"{modp} is not in the language: {show}", tree=gen.tree_str(tree))
    if cost != ali["cost"]:
        return ctx.fail(f"{who}:cost-sum", f"cost {ali['cost']}, moves {show}", tree=gen.tree_str(tree))
    if ali["cost"] != opt:
        return ctx.fail(f"{who}:not-optimal", f"cost {ali['cost']} for {tr}, optimum {opt}: {show}", tree=gen.tree_str(tree))
    ctx.ev("tree alignments judged")


def mk_tree(r, **kw):
    labs = gen.labels(r, r.randint(2, 6), hostile=r.random() < 0.3)
    for _ in range(20):
        t = gen.rand_tree(r, labs, depth=r.choice([1, 2, 2, 3]), dup=kw.get("dup", r.choice([0, 0, 0.3])), tau=r.choice([0.05, 0.25]), maxleaf=7)
        if gen.tree_labels(t):
            return t, labs
    return ('->', [labs[0], labs[1]]), labs


def trees(ctx):
    import pm4py
    from pm4py.algo.conformance.alignments.process_tree.variants import search_graph_pt as S
    r = ctx.rng
    t, labs = mk_tree(r)
    pt = gen.to_pt(t)
    R = ref.Net(*netof(t))
    base = [gen.play_tree(r, t) for _ in range(3)]
    traces = [mut(r, r.choice(base), labs)[:9] for _ in range(r.randint(2, 5))]
    bwc = R.align_cost(())
    mode = r.random()
    from pm4py.algo.conformance.alignments.process_tree import algorithm as PA
    if mode < 0.3:
        for tr in traces:
            ali = ctx.call("tree:trace", PA.apply, c23.to_trace(tr), pt)
            tree_judge(ctx, t, tr, ali, R.align_cost(tr), "tree:trace")
    elif mode < 0.45:
        for tr in traces:
            tree_judge(ctx, t, tr, ctx.call("tree:variant", S.apply_variant, tr, pt), R.align_cost(tr), "tree:variant")
        res = ctx.call("tree:variants", S.apply_from_variants_list, list(traces), pt)
        for tr, ali in zip(traces, res):
            tree_judge(ctx, t, tr, ali, R.align_cost(tr), "tree:variants")
            exp = 1 - R.align_cost(tr) / (len(tr) + bwc) if len(tr) + bwc else 1
            ctx.check(h.close(ali["fitness"], exp), "tree:variants:fitness", f"{ali['fitness']} vs {exp} for {tr}")
    else:
        seqs = [x for x in traces if x] or [(labs[0],)]
        seqs = [r.choice(seqs) for _ in range(r.randint(1, 8))]
        alog = gen.rand_alog(r, traces=seqs)
        mp = r.random() < 0.25
        for kind, obj, kw in h.both(r, alog):
            order = sorted(range(len(alog.cases)), key=lambda i: str(alog.cases[i][0])) if kind == "df" else range(len(alog.cases))
            res = ctx.call(f"tree:{kind}", pm4py.conformance_diagnostics_alignments, obj, pt, multi_processing=mp, **kw)
            ctx.check(len(res) == len(alog.cases), f"tree:{kind}:length", f"{len(res)}")
            for i, ali in zip(order, res):
                tr = tuple(e["concept:name"] for e in alog.cases[i][2])
                opt = R.align_cost(tr)
                tree_judge(ctx, t, tr, ali, opt, f"tree:{kind}{':mp' if mp else ''}")
                exp = 1 - opt / (len(tr) + bwc) if len(tr) + bwc else 1
                ctx.check(h.close(ali["fitness"], exp), f"tree:{kind}{':mp' if mp else ''}:fitness", f"{ali['fitness']} vs {exp} for {tr}", tree=gen.tree_str(t))
            ctx.ev("tree logs" + (" with multiprocessing" if mp else ""))
    if len(set(gen.tree_labels(t))) > 1 and any(traces):
        ctx.nontrivial(gen.tree_str(t), traces)
    ctx.sample(dict(tree=gen.tree_str(t), traces=traces))


def netof(t):
    from pm4py.objects.petri_net.obj import Marking
    places, trans = gen.tree_to_net(t)
    net, po = gen.build_net(places, trans)
    return net, Marking({po["source"]: 1}), Marking({po["sink"]: 1})


def rand_dfg(r, labs):
    """(dfg, start, end): every activity on a path, cycles, self loops; also activities leading nowhere"""
    n = len(labs)
    dfg = {}
    order = labs[:]
    r.shuffle(order)
    for a, b in zip(order, order[1:]):
        if r.random() < 0.75:
            dfg[(a, b)] = r.randint(1, 5)
    for _ in range(r.randint(0, 2 * n)):
        dfg[(r.choice(labs), r.choice(labs))] = r.randint(1, 5)
    sa = {a: r.randint(1, 4) for a in {order[0]} | set(r.sample(labs, r.randint(0, min(2, n))))}
    ea = {a: r.randint(1, 4) for a in {order[-1]} | set(r.sample(labs, r.randint(0, min(2, n))))}
    return dfg, sa, ea


def dfg_net(dfg, sa, ea):
    """own reading of a DFG: one state per activity; ref.Net"""
    from pm4py.objects.petri_net.obj import Marking
    acts = sorted({x for p in dfg for x in p} | set(sa) | set(ea))
    pl = ["source", "sink"] + [f"p{i}" for i in range(len(acts))]
    ix = {a: f"p{i}" for i, a in enumerate(acts)}
    tr = [(f"s{i}", a, {"source": 1}, {ix[a]: 1}) for i, a in enumerate(sa)]
    tr += [(f"d{i}", b, {ix[a]: 1}, {ix[b]: 1}) for i, (a, b) in enumerate(dfg)]
    tr += [(f"e{i}", None, {ix[a]: 1}, {"sink": 1}) for i, a in enumerate(ea)]
    net, po = gen.build_net(pl, tr)
    return ref.Net(net, Marking({po["source"]: 1}), Marking({po["sink"]: 1}))


def dfg_judge(ctx, dfg, sa, ea, tr, ali, opt, who, lc=None, mc=None, sc=None):
    if ali is None:
        return ctx.fail(f"{who}:none", f"{tr} {dfg} {sa} {ea}")
    lc, mc, sc = lc or (lambda a: D), mc or (lambda a: D), sc or (lambda a: 0)
    moves = ali["alignment"]
    logp = tuple(a for a, b in moves if a != ">>")
    modp = tuple(b for a, b in moves if b != ">>")
    info = dict(dfg=[[a, b] for a, b in dfg], sa=sorted(sa), ea=sorted(ea))
    if any(a == ">>" and b == ">>" or (a != ">>" and b != ">>" and a != b) for a, b in moves):
        return ctx.fail(f"{who}:bad-move", f"{moves} for {tr}", **info)
    if logp != tuple(tr):
        return ctx.fail(f"{who}:log-projection", f"{moves} for {tr}", **info)
    if not modp or modp[0] not in sa or modp[-1] not in ea or any((a, b) not in dfg for a, b in zip(modp, modp[1:])):
        return ctx.fail(f"{who}:model-projection", f"{moves} for {tr}", **info)
    c = sum(lc(a) if b == ">>" else mc(b) if a == ">>" else sc(a) for a, b in moves)
    if not h.close(c, ali["cost"]):
        return ctx.fail(f"{who}:cost-sum", f"cost {ali['cost']} vs {c}: {moves}", **info)
    if not h.close(opt, ali["cost"]):
        return ctx.fail(f"{who}:not-optimal", f"cost {ali['cost']} for {tr}, optimum {opt}: {moves}", **info)
    ctx.ev("DFG alignments judged")


def dfgs(ctx):
    import pm4py
    from pm4py.algo.conformance.alignments.dfg import algorithm as A
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6))
    for _ in range(30):
        dfg, sa, ea = rand_dfg(r, labs)
        R = dfg_net(dfg, sa, ea)
        if R.fm in R.reach(2000)[0]:
            break
    else:
        return
    std = dict(log_cost=lambda i, a: D, model_cost=lambda j, t: D if t[1] is not None else 0)
    base = []
    for _ in range(4):          # random walks
        w = [r.choice(sorted(sa))]
        while len(w) < 8 and not (w[-1] in ea and r.random() < 0.4):
            nx = sorted(b for a, b in dfg if a == w[-1])
            if not nx:
                break
            w.append(r.choice(nx))
        base.append(tuple(w))
    traces = [mut(r, r.choice(base), labs)[:9] for _ in range(r.randint(2, 6))]
    mode = r.random()
    bwc = R.align_cost((), **std)
    if mode < 0.35:
        for tr in traces:
            ali = ctx.call("dfg:trace", A.apply, c23.to_trace(tr), dfg, sa, ea)
            dfg_judge(ctx, dfg, sa, ea, tr, ali, R.align_cost(tr, **std), "dfg:trace")
    elif mode < 0.55:
        from pm4py.algo.conformance.alignments.dfg.variants import classic as C
        acts = {x for p in dfg for x in p} | set(sa) | set(ea)
        mc = {a: r.randint(1, 5) for a in acts}
        low = min(mc.values())
        lc = {a: r.randint(1, 5) for a in acts | set(labs) | {"zz"}}
        for tr in traces:
            p = {C.Parameters.MODEL_MOVE_COST_FUNCTION: mc, C.Parameters.LOG_MOVE_COST_FUNCTION: lc, C.Parameters.SYNC_COST_FUNCTION: {a: 0 for a in acts}}
            opt = R.align_cost(tr, log_cost=lambda i, a: lc[a], model_cost=lambda j, t: mc[t[1]] if t[1] is not None else 0)
            ali = ctx.call("dfg:costs", A.apply, c23.to_trace(tr), dfg, sa, ea, parameters=p)
            dfg_judge(ctx, dfg, sa, ea, tr, ali, opt, "dfg:costs", lambda a: lc[a], lambda a: mc[a])
    else:
        seqs = [x for x in traces if x] or [(labs[0],)]
        alog = gen.rand_alog(r, traces=[r.choice(seqs) for _ in range(r.randint(1, 8))])
        for kind, obj, kw in h.both(r, alog):
            order = sorted(range(len(alog.cases)), key=lambda i: str(alog.cases[i][0])) if kind == "df" else range(len(alog.cases))
            res = ctx.call(f"dfg:{kind}", pm4py.conformance_diagnostics_alignments, obj, dfg, sa, ea, **kw)
            ctx.check(len(res) == len(alog.cases), f"dfg:{kind}:length", f"{len(res)}")
            for i, ali in zip(order, res):
                tr = tuple(e["concept:name"] for e in alog.cases[i][2])
                opt = R.align_cost(tr, **std)
                dfg_judge(ctx, dfg, sa, ea, tr, ali, opt, f"dfg:{kind}")
                exp = 1 - opt / (len(tr) * D + bwc)
                ctx.check(h.close(ali["fitness"], exp), f"dfg:{kind}:fitness", f"{ali['fitness']} vs {exp} for {tr}")
    ctx.nontrivial(sorted(map(str, dfg)), sorted(sa), sorted(ea), traces)


def edit(ctx):
    import pm4py
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6))
    T2 = gen.rand_traces(r, labs, n=r.randint(1, 6), maxlen=7)
    T1 = [mut(r, r.choice(T2), labs) if r.random() < 0.7 else tuple(r.choice(labs) for _ in range(r.randint(1, 7))) for _ in range(r.randint(1, 6))]
    T1 = [tuple(t) or (labs[0],) for t in T1]
    T2 = [tuple(t) for t in T2 if t] or [(labs[0],)]
    a1, a2 = gen.rand_alog(r, traces=T1), gen.rand_alog(r, traces=T2)
    alt = r.random() < 0.3
    S2 = set(tuple(e["concept:name"] for e in c[2]) for c in a2.cases)
    best = min(len(t) for t in S2)
    for (k1, o1, kw), (k2, o2, _) in zip(h.both(r, a1, alt=alt), r.sample(h.both(r, a2, alt=alt), 2)):
        if alt and k1 == "log":
            kw = dict(kw, case_id_key="Cid") if k2 == "df" else kw
        try:
            res = ctx.call(f"edit:{k1}-{k2}", pm4py.conformance_diagnostics_alignments, o1, o2, **kw)
        finally:
            pass
        if k1 == "df":
            # dataframes are converted to an event log: cases in the order of the conversion
            conv = pm4py.convert_to_event_log(o1, case_id_key=kw.get("case_id_key", "case:concept:name"))
            seq = [tuple(e["Act" if alt else "concept:name"] for e in t) for t in conv]
        else:
            seq = [tuple(e["concept:name"] for e in c[2]) for c in a1.cases]
        if not ctx.check(len(res) == len(seq), f"edit:{k1}:length", f"{len(res)} vs {len(seq)}"):
            return
        for tr, ali in zip(seq, res):
            moves = ali["alignment"]
            logp = tuple(a for a, b in moves if a != ">>")
            modp = tuple(b for a, b in moves if b != ">>")
            c = sum(a == ">>" or b == ">>" for a, b in moves)
            if not ctx.check(logp == tr and not any(a != b and ">>" not in (a, b) for a, b in moves), f"edit:{k1}:log-projection", f"{moves} for {tr}"):
                continue
            if not ctx.check(modp in S2, f"edit:{k1}:model-projection", f"{modp} is not a trace of the other log"):
                continue
            ctx.check(ali["cost"] == c * D, f"edit:{k1}:cost-sum", f"{ali['cost']} vs {moves}")
            m = min(ref.lev(tr, x) for x in S2)
            ctx.check(ref.lev(tr, modp) == m, f"edit:{k1}:closest", f"{tr} aligned to {modp} at distance {ref.lev(tr, modp)}, minimum {m}")
            ctx.check(c >= ref.indel(tr, modp) and (c == 0) == (tr in S2), f"edit:{k1}:cost", f"{c} for {tr} vs {modp}")
            exp = 1 - c / (len(tr) + best)
            ctx.check(h.close(ali["fitness"], exp), f"edit:{k1}:fitness", f"{ali['fitness']} vs {exp}")
            ctx.ev("edit-distance alignments judged")
    ctx.nontrivial(T1, T2)


def fitting(ctx):
    """check_is_fitting on trees, nets and BPMN"""
    import pm4py
    from pm4py.objects.log.obj import Trace
    r = ctx.rng
    t, labs = mk_tree(r)
    base = [gen.play_tree(r, t) for _ in range(3)]
    traces = [mut(r, r.choice(base), labs)[:8] for _ in range(3)] + [r.choice(base)[:8]]
    if r.random() < 0.5:
        model = (gen.to_pt(t),)
        acc = lambda x: ref.tree_accepts(t, x)
        sig = gen.tree_str(t)
    else:
        net, im, fm, R = c23.mk_net(r)
        model = (net, im, fm)
        traces = c23.mk_traces(r, R, 4)
        acc = R.accepts
        sig = str(c23.R_desc(R))
    key = "Act" if r.random() < 0.2 else None
    for tr in traces:
        how = r.choice(["trace", "tuple"])
        x = c23.to_trace(tr, key or "concept:name") if how == "trace" else tuple(tr)
        kw = dict(activity_key=key) if key else {}
        got = ctx.call("fitting", pm4py.check_is_fitting, x, *model, **kw)
        ctx.check(got == acc(tuple(tr)), f"fitting:{'tree' if len(model) == 1 else 'net'}:{how}{':key' if key else ''}", f"check_is_fitting says {got} for {tr}", model=sig)
        ctx.ev("fitting verdicts true" if acc(tuple(tr)) else "fitting verdicts false")
    ctx.nontrivial(sig, traces)


# recomposing alignments: a fixed battery (the implementation is known not to hold in general, see DESIGN.md)
A, B, C, E_ = ("a", "a"), ("a", "b"), ("a", "c"), ("a", "e")
BATTERY = [
    ("seq-fit", ("->", [A, B, C]), ("a", "b", "c")),
    ("seq-missing-middle", ("->", [A, B, C]), ("a", "c")),
    ("seq-swap", ("->", [A, B, C]), ("a", "c", "b")),
    ("seq-extra-known", ("->", [A, B, C]), ("a", "b", "b", "c")),
    ("seq-unknown-event", ("->", [A, B, C]), ("a", "zz", "b", "c")),
    ("xor-fit", ("->", [A, ("X", [B, C]), E_]), ("a", "b", "e")),
    ("xor-both", ("->", [A, ("X", [B, C]), E_]), ("a", "b", "c", "e")),
    ("and-fit", ("->", [A, ("+", [B, C]), E_]), ("a", "c", "b", "e")),
    ("loop-fit", ("->", [A, ("*", [B, C]), E_]), ("a", "b", "c", "b", "e")),
]


def decomposed(ctx):
    from pm4py.algo.conformance.alignments.decomposed import algorithm as DA
    from pm4py.objects.log.obj import EventLog
    name, t, tr = BATTERY[ctx.index % len(BATTERY)]
    net, im, fm = netof(t)
    R = ref.Net(net, im, fm)
    signal.setitimer(signal.ITIMER_VIRTUAL, 15, 5)
    try:
        res = DA.apply(EventLog([c23.to_trace(tr), c23.to_trace(tr)]), net, im, fm, parameters={})
    except CaseTimeout:
        return ctx.fail(f"decomposed:{name}", f"no result within 15 CPU seconds for {tr}", tree=gen.tree_str(t))
    except Exception as e:
        return ctx.fail(f"decomposed:{name}", f"{type(e).__name__}: {e} for {tr}", tree=gen.tree_str(t))
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    ctx.check(len(res) == 2, "decomposed:length", "")
    opt = R.align_cost(tr)
    for ali in res:
        if ali is None:
            return ctx.fail(f"decomposed:{name}", f"no alignment for {tr}")
        moves = [m[1] if isinstance(m[0], tuple) else m for m in ali["alignment"]]
        ok = ali["cost"] // D == opt and tuple(a for a, b in moves if a != ">>") == tr and c23.path_ok(R, [(b, None) for a, b in moves if b != ">>"], False)
        ctx.check(ok, f"decomposed:{name}", f"cost {ali['cost']} for {tr}, optimum {opt}: {moves}", tree=gen.tree_str(t))
        ctx.ev("decomposed alignments judged")
    ctx.nontrivial(name)


FAMILIES = {"trees": (200, 4000, trees), "dfgs": (150, 3000, dfgs), "edit": (60, 1000, edit), "fitting": (60, 1000, fitting), "decomposed": (len(BATTERY), len(BATTERY), decomposed)}
