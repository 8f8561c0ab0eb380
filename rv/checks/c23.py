"""C23 Petri-net alignments are valid and optimal"""
from rv import gen, ref, h

RULE = "a case is non-trivial when the net has a visible transition and at least one aligned trace is not empty; distinct by (net structure, traces, cost functions)"
ASSUMPTIONS = ["nets are easy sound (final marking reachable) with at most 400 reachable markings", "reset, inhibitor and stochastic nets are not aligned",
               "dijkstra_less_memory and discounted A* treat the cost of invisible moves freely: only the visible part of the cost is compared there",
               "custom cost functions are passed as a full (trace, model, sync) triple"]
D = 10000


def variants():
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    V = A.Variants
    return {"astar": V.VERSION_STATE_EQUATION_A_STAR, "tweaked": V.VERSION_TWEAKED_STATE_EQUATION_A_STAR,
            "dijkstra": V.VERSION_DIJKSTRA_NO_HEURISTICS, "less_memory": V.VERSION_DIJKSTRA_LESS_MEMORY}


def mk_net(r):
    """(net, im, fm, reference) of a random easy-sound net"""
    for _ in range(40):
        k = r.random()
        labs = gen.labels(r, r.randint(1, 5))
        if k < 0.45:
            net, im, fm, info = gen.rand_wfnet(r, labs=labs, depth=r.choice([1, 2, 2, 3]), dup=r.choice([0, 0.3]), maxleaf=6, tau=r.choice([0.05, 0.3]))
        elif k < 0.53:
            net, im, fm = tokens(r, labs)
        elif k < 0.78:
            places, trans = gen.rand_free_net(r, labs=labs, weights=r.random() < 0.4)
            net, im, fm = free(r, places, trans)
            if net is None:
                continue
        else:
            net, im, fm = pattern(r, labs)
        R = ref.Net(net, im, fm)
        try:
            S = R.reach(400)[0]
        except ref.TooBig:
            continue
        if R.fm not in S or len(net.transitions) > 14:
            continue
        return net, im, fm, R
    raise RuntimeError("no net")


def tokens(r, labs):
    """several tokens of the same place travelling through a short net, with weighted arcs now and then"""
    from pm4py.objects.petri_net.obj import Marking
    k, n = r.randint(2, 3), r.randint(3, 5)
    places = [f"p{i}" for i in range(k)]
    trans = []
    for i in range(k - 1):
        for j in range(r.randint(1, 2)):
            w = r.choice([1, 1, 1, 2])
            trans.append((f"t{i}_{j}", r.choice(labs + [None]), {f"p{i}": w}, {f"p{i + 1}": w}))
    if r.random() < 0.3:
        trans.append(("back", r.choice(labs), {f"p{k - 1}": 1}, {"p0": 1}))
    net, byname = gen.build_net(places, trans)
    return net, Marking({byname["p0"]: n}), Marking({byname[f"p{k - 1}"]: n})


def free(r, places, trans):
    from pm4py.objects.petri_net.obj import Marking
    net, byname = gen.build_net(places, trans)
    im = Marking()
    for p in r.sample(places, r.randint(1, min(2, len(places)))):
        im[byname[p]] = r.choice([1, 1, 2, 3, 4])
    R = ref.Net(net, im, im)
    try:
        S = sorted(R.reach(400)[0], key=str)
    except ref.TooBig:
        return None, None, None
    # final marking: a reachable one, sometimes the initial one or a non-dead one
    target = r.choice(S)
    fm = Marking()
    for p, n in target:
        fm[R.places[p]] = n
    return net, im, fm


def pattern(r, labs):
    """small nets in which cheap looking choices mislead a greedy search: the same label behind a silent move, racing branches, shortcuts"""
    a, b = r.choice(labs), r.choice(labs)
    n = r.randint(2, 5)
    places = ["source"] + [f"p{i}" for i in range(n)] + ["sink"]
    trans = []
    for i in range(r.randint(n, 2 * n + 2)):
        s = r.choice(places[:-1])
        d = r.choice(places[1:])
        if s != d or r.random() < 0.2:
            trans.append((f"t{i}", r.choice([None, a, b, r.choice(labs)]), {s: 1}, {d: 1}))
    for i in range(r.randint(0, 2)):
        s = r.sample(places[:-1], 2)
        d = r.sample(places[1:], 2)
        trans.append((f"u{i}", r.choice([None, a, b]), {x: 1 for x in s}, {x: 1 for x in d}))
    trans.append(("last", r.choice([None, b]), {r.choice(places[:-1]): 1}, {"sink": 1}))
    from pm4py.objects.petri_net.obj import Marking
    net, po = gen.build_net(places, trans)
    return net, Marking({po["source"]: 1}), Marking({po["sink"]: 1})


def mk_traces(r, R, n, maxlen=7):
    """language traces, mutated language traces and random ones"""
    labs = sorted({t[1] for t in R.trans if t[1] is not None}) or ["a"]
    try:
        L = sorted(R.lang(5, cap=4000))
    except ref.TooBig:
        L = []
    out = []
    for _ in range(n):
        k = r.random()
        if L and k < 0.75:
            t = list(r.choice(L))
            for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
                j = r.random()
                if j < 0.35 and t:
                    t.pop(r.randrange(len(t)))
                elif j < 0.6:
                    t.insert(r.randint(0, len(t)), r.choice(labs + ["zz"]))
                elif j < 0.8 and len(t) > 1:
                    i, q = r.sample(range(len(t)), 2)
                    t[i], t[q] = t[q], t[i]
                elif t:
                    i = r.randrange(len(t))
                    t.insert(i, t[i])
        else:
            t = [r.choice(labs + ["zz"]) for _ in range(r.randint(0, maxlen))]
        out.append(tuple(t[:maxlen + 2]))
    return out


def to_trace(t, key="concept:name"):
    from pm4py.objects.log.obj import Trace, Event
    return Trace([Event({key: a}) for a in t])


def path_ok(R, moves, names):
    """can the model moves (labels, or exact transition names) fire from im to fm? set simulation"""
    byname = {}
    for t in R.trans:
        byname.setdefault(t[0], []).append(t)
    cur = {R.im}
    for lab, nm in moves:
        nxt = set()
        cand = [t for t in (byname.get(nm, []) if names else R.trans) if t[1] == lab]
        for m in cur:
            for t in cand:
                if R.enabled(m, t):
                    nxt.add(R.fire(m, t))
        if not nxt:
            return False
        cur = nxt
    return R.fm in cur


def judge(ctx, R, trace, ali, who, named=False, log_cost=None, model_cost=None, sync_cost=None, exact=True, opt=None, tag=""):
    """structural validity and cost of one alignment"""
    if ali is None:
        ctx.fail(f"{who}:none{tag}", f"no alignment returned for {trace}")
        return
    moves = ali["alignment"]
    logp, modp = [], []
    for mv in moves:
        if named:
            (tn, mn), (tl, ml) = mv
        else:
            (tl, ml), tn, mn = mv, None, None
        if tl == ">>" and ml == ">>":
            return ctx.fail(f"{who}:double-skip{tag}", f"{moves}")
        if tl != ">>":
            logp.append(tl)
        if ml != ">>":
            modp.append((ml, mn))
            if tl != ">>" and tl != ml:
                return ctx.fail(f"{who}:bad-sync{tag}", f"{mv} in {moves}")
        if named and (mn == ">>") != (ml == ">>"):
            return ctx.fail(f"{who}:name-skip{tag}", f"{mv} in {moves}")
    if tuple(logp) != tuple(trace):
        return ctx.fail(f"{who}:log-projection{tag}", f"{logp} is not the trace {trace}: {moves}")
    if not path_ok(R, modp, named):
        return ctx.fail(f"{who}:model-projection{tag}", f"{modp} is not a run of the net: {moves}", net=R_desc(R))
    if log_cost is None:
        vis = sum(1 for mv in moves for (tl, ml) in [mv[1] if named else mv] if (tl == ">>") != (ml == ">>") and not (tl == ">>" and ml is None))
        tau = sum(1 for mv in moves for (tl, ml) in [mv[1] if named else mv] if tl == ">>" and ml is None)
        if ali["cost"] // D != vis or (exact and ali["cost"] != vis * D + tau):
            return ctx.fail(f"{who}:cost-sum{tag}", f"cost {ali['cost']}, moves have {vis} deviations and {tau} silent moves: {moves}")
    elif named:
        c, i = 0, 0
        idx = {t[0]: (j, t) for j, t in enumerate(R.trans)}
        for (tn, mn), (tl, ml) in moves:
            if tl == ">>":
                c += model_cost(*idx[mn])
            elif ml == ">>":
                c += log_cost(i, tl)
            else:
                c += sync_cost(i, *idx[mn])
            i += tl != ">>"
        if not h.close(c, ali["cost"]):
            return ctx.fail(f"{who}:cost-sum{tag}", f"cost {ali['cost']}, sum of moves {c}: {moves}")
    if opt is not None:
        ctx.ev("optimality compared")
        got, exp = (ali["cost"], opt) if exact else (ali["cost"] // D, opt // D)
        if not h.close(got, exp):
            return ctx.fail(f"{who}:not-optimal{tag}", f"cost {ali['cost']} for {trace}, optimum {opt}: {moves}", net=R_desc(R))
    ctx.ev("alignments judged")


def R_desc(R):
    n = lambda m: {R.places[p].name: w for p, w in dict(m).items()}
    return dict(trans=[[t[0], t[1], n(t[2]), n(t[3])] for t in R.trans], im=n(R.im), fm=n(R.fm))


STD = dict(log_cost=lambda i, a: D, model_cost=lambda j, t: D if t[1] is not None else 1)


def single(ctx):
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    r = ctx.rng
    net, im, fm, R = mk_net(r)
    traces = mk_traces(r, R, r.randint(2, 5))
    vis = [t for t in R.trans if t[1] is not None]
    key = "Act" if r.random() < 0.3 else "concept:name"
    bwc = R.align_cost((), **STD)
    for tr in traces:
        opt = R.align_cost(tr, **STD)
        acc = R.accepts(tr)
        for nm, v in variants().items():
            named = r.random() < 0.5
            p = {A.Parameters.ACTIVITY_KEY: key, A.Parameters.PARAM_ALIGNMENT_RESULT_IS_SYNC_PROD_AWARE: named}
            ali = ctx.call(f"align:{nm}", A.apply, to_trace(tr, key), net, im, fm, parameters=p, variant=v)
            judge(ctx, R, tr, ali, nm, named, exact=nm != "less_memory", opt=opt)
            if ali is not None:
                den = len(tr) + bwc // D
                exp = 1 - (opt // D) / den if den else 1
                if not h.close(ali.get("fitness"), exp):
                    ctx.fail(f"{nm}:fitness", f"fitness {ali.get('fitness')} for {tr}, expected {exp}", net=R_desc(R))
                ctx.check((ali["fitness"] == 1) == acc, f"{nm}:fitness-one", f"fitness {ali['fitness']} although in-language is {acc}: {tr}")
        ctx.ev("in language" if acc else "deviating")
    if vis and any(traces):
        ctx.nontrivial(str(R_desc(R)), traces)
    ctx.sample(dict(net=R_desc(R), traces=traces))


def costs(ctx):
    """user supplied cost functions, repeated labels and names, zero and float costs"""
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    r = ctx.rng
    net, im, fm, R = mk_net(r)
    byname = {}
    for t in net.transitions:
        byname.setdefault(t.name, []).append(t)
    if any(len(x) > 1 for x in byname.values()):
        return
    mode = r.choice(["small", "float", "weights"])
    c = {"small": lambda: r.randint(1, 5), "float": lambda: round(r.uniform(0.1, 3), 2), "weights": lambda: r.choice([1, 10, 100, 1000])}[mode]
    for tr in mk_traces(r, R, 2):
        lc = [c() for _ in tr]
        mc = {t[0]: c() for t in R.trans}
        low = min(list(mc.values()) + lc) if (mc or lc) else 1
        sc = {t[0]: (0 if r.random() < 0.6 else round(r.uniform(0, 1) * low, 3)) for t in R.trans if t[1] is not None}
        uni = {n: 0.0 for n in sc}
        mcf = {byname[n][0]: v for n, v in mc.items()}
        for nm, v in variants().items():
            s = uni if nm == "less_memory" else sc
            scf = {byname[n][0]: x for n, x in s.items()}
            kw = dict(log_cost=lambda i, a: lc[i], model_cost=lambda j, t: mc[t[0]], sync_cost=lambda i, j, t: s[t[0]])
            opt = R.align_cost(tr, **kw)
            p = {A.Parameters.PARAM_TRACE_COST_FUNCTION: list(lc), A.Parameters.PARAM_MODEL_COST_FUNCTION: dict(mcf), A.Parameters.PARAM_SYNC_COST_FUNCTION: dict(scf),
                 A.Parameters.PARAM_ALIGNMENT_RESULT_IS_SYNC_PROD_AWARE: True}
            ali = ctx.call(f"costs:{nm}", A.apply, to_trace(tr), net, im, fm, parameters=p, variant=v)
            judge(ctx, R, tr, ali, nm, True, opt=opt, tag=":costs", **kw)
    ctx.nontrivial(str(R_desc(R)), mode)


def logs(ctx):
    """whole logs through the public API: order, repeated variants, key names, multiprocessing, diagnostics"""
    import pm4py
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    r = ctx.rng
    net, im, fm, R = mk_net(r)
    base = mk_traces(r, R, r.randint(1, 5))
    base = [t for t in base if t] or [("a",)]
    traces = [r.choice(base) for _ in range(r.randint(1, 9))]
    alog = gen.rand_alog(r, traces=traces)
    bwc = R.align_cost((), **STD) // D
    bwc_full = R.align_cost((), **STD)
    opts = {t: R.align_cost(t, **STD) for t in set(traces)}
    for kind, obj, kw in h.both(r, alog):
        if kind == "df":
            order = sorted(range(len(alog.cases)), key=lambda i: str(alog.cases[i][0]))
        else:
            order = range(len(alog.cases))
        seq = [tuple(e["concept:name"] for e in alog.cases[i][2]) for i in order]
        mp = r.random() < 0.12
        nm = r.choice(sorted(variants()))
        vs = str(variants()[nm]) if r.random() < 0.7 else None
        if vs is None:
            nm = "astar"
        res = ctx.call(f"log:{kind}", pm4py.conformance_diagnostics_alignments, obj, net, im, fm, multi_processing=mp, variant_str=vs, **kw)
        if not ctx.check(len(res) == len(seq), f"log:{kind}:length", f"{len(res)} results for {len(seq)} cases"):
            return
        tag = ":mp" if mp else ""
        for tr, ali in zip(seq, res):
            judge(ctx, R, tr, ali, nm, exact=nm != "less_memory", opt=opts[tr], tag=f":{kind}{tag}")
            if ali is None:
                return
            exp = 1 - (opts[tr] // D) / (len(tr) + bwc) if len(tr) + bwc else 1
            ctx.check(h.close(ali["fitness"], exp), f"{nm}:log-fitness", f"fitness {ali['fitness']} for {tr}, expected {exp}")
        ctx.ev("logs with multiprocessing" if mp else "logs")
        # aggregate fitness
        fit = ctx.call(f"fitness:{kind}", pm4py.fitness_alignments, obj, net, im, fm, **kw)
        fits = [1 - (opts[t] // D) / (len(t) + bwc) for t in seq]
        ctx.check(h.close(fit["average_trace_fitness"], sum(fits) / len(fits)), "fitness:average", f"{fit} vs {sum(fits) / len(fits)}")
        ctx.check(h.close(fit["percentage_of_fitting_traces"], 100.0 * sum(f == 1 for f in fits) / len(fits)), "fitness:percentage", f"{fit} vs {fits}")
        den = sum(len(t) + bwc for t in seq)
        if "log_fitness" in fit:
            ctx.check(h.close(fit["log_fitness"], 1 - sum(opts[t] // D for t in seq) / den, ab=2e-3), "fitness:log", f"{fit} vs {1 - sum(opts[t] // D for t in seq) / den}")
        dg = ctx.call(f"diag:{kind}", pm4py.conformance_diagnostics_alignments, obj, net, im, fm, return_diagnostics_dataframe=True, **kw)
        cid = [str(alog.cases[i][0]) for i in order]
        got = {str(x["case_id"]): x for x in dg.to_dict("records")}
        ctx.check(sorted(got) == sorted(cid) and len(dg) == len(cid), f"diag:{kind}:cases", f"{sorted(got)} vs {sorted(cid)}")
        for c, tr in zip(cid, seq):
            if c in got:
                x = got[c]
                ctx.check(x["cost"] // D == opts[tr] // D and bool(x["is_fit"]) == (opts[tr] // D == 0), f"diag:{kind}:values", f"case {c} {tr}: {x}, optimum {opts[tr]}")
    ctx.nontrivial(str(R_desc(R)), traces)


def session(ctx):
    """the same parameters dictionary and net reused for several logs and nets gives what a fresh one gives"""
    from pm4py.algo.conformance.alignments.petri_net import algorithm as A
    r = ctx.rng
    nets = [mk_net(r) for _ in range(2)]
    p = {}
    nm = r.choice(sorted(variants()))
    from pm4py.objects.log.obj import EventLog
    for _ in range(3):
        net, im, fm, R = r.choice(nets)
        trs = mk_traces(r, R, 2)
        bwc = R.align_cost((), **STD) // D
        if r.random() < 0.5:
            res = ctx.call("session:log", A.apply, EventLog([to_trace(t) for t in trs]), net, im, fm, parameters=p, variant=variants()[nm])
        else:
            res = [ctx.call("session:trace", A.apply, to_trace(t), net, im, fm, parameters=p, variant=variants()[nm]) for t in trs]
        for t, a in zip(trs, res):
            opt = R.align_cost(t, **STD)
            judge(ctx, R, t, a, nm, exact=nm != "less_memory", opt=opt, tag=":session")
            if a:
                den = len(t) + bwc
                exp = 1 - (opt // D) / den if den else 1
                ctx.check(h.close(a["fitness"], exp), f"{nm}:session-fitness", f"{a['fitness']} vs {exp}; trace {t}")
    ctx.nontrivial(str(R_desc(nets[0][3])), str(R_desc(nets[1][3])))


FAMILIES = {"single": (160, 3000, single), "costs": (80, 1500, costs), "logs": (40, 700, logs), "session": (40, 700, session)}
