"""C20 DECLARE: support/confidence per template, selection, deviations per case"""
from collections import Counter
from itertools import permutations
import pm4py
from rv import gen, h
from rv.checks import c16

RULE = "own evaluator of every template on every trace (activated, satisfied)"
ASSUMPTIONS = ["templates as documented by the library: 'alternate' = response/precedence and the two activities alternate without repetitions; 'chain' = every A directly followed (every B directly preceded); negative relations are activated by either activity",
               "never activated / never satisfied constraints are not reported; thresholds inclusive (values within 1e-9 of a threshold are not judged unless exactly representable)"]
MINIMUM = {"constraints evaluated": 20000, "cases checked": 1500}

UN = ["existence", "absence", "exactly_one", "init"]
BI = ["responded_existence", "coexistence", "response", "precedence", "succession", "altresponse", "altprecedence", "altsuccession",
      "chainresponse", "chainprecedence", "chainsuccession", "noncoexistence", "nonsuccession", "nonchainsuccession"]
DEFAULT = ["existence", "exactly_one", "init", "responded_existence", "response", "precedence", "succession", "altresponse", "altprecedence",
           "altsuccession", "chainresponse", "chainprecedence", "chainsuccession", "absence", "coexistence"]


def unary(tpl, t, a):
    return {"existence": a in t, "absence": a not in t, "exactly_one": t.count(a) == 1, "init": bool(t) and t[0] == a}[tpl]


def binary(tpl, t, a, b):
    """(activated, satisfied)"""
    A, B = a in t, b in t
    w = [x for x in t if x in (a, b)]
    alt = all(w[i] != w[i + 1] for i in range(len(w) - 1))
    n = len(t)
    if tpl == "responded_existence":
        return A, (not A) or B
    if tpl == "coexistence":
        return A or B, A == B
    if tpl == "noncoexistence":
        return A or B, not (A and B)
    resp = all(any(t[j] == b for j in range(i + 1, n)) for i in range(n) if t[i] == a)
    prec = all(any(t[j] == a for j in range(i)) for i in range(n) if t[i] == b)
    cresp = all(i + 1 < n and t[i + 1] == b for i in range(n) if t[i] == a)
    cprec = all(i > 0 and t[i - 1] == a for i in range(n) if t[i] == b)
    if tpl == "response":
        return A, resp
    if tpl == "precedence":
        return B, prec
    if tpl == "succession":
        return A or B, resp and prec
    if tpl == "altresponse":
        return A, (not A) or (resp and alt)
    if tpl == "altprecedence":
        return B, (not B) or (prec and alt)
    if tpl == "altsuccession":
        return A or B, resp and prec and alt
    if tpl == "chainresponse":
        return A, cresp
    if tpl == "chainprecedence":
        return B, cprec
    if tpl == "chainsuccession":
        return A or B, cresp and cprec
    if tpl == "nonsuccession":
        return A or B, not any(t[i] == a and b in t[i + 1:] for i in range(n))
    if tpl == "nonchainsuccession":
        return A or B, not any(t[i] == a and t[i + 1] == b for i in range(n - 1))
    raise ValueError(tpl)


def table(traces, acts, tpls, ctx=None):
    """{(tpl, key): (support, confidence)}"""
    proj = Counter(tuple(x for x in t if x in acts) for t in traces)
    out = {}
    for tpl in tpls:
        if tpl in UN:
            for a in acts:
                out[tpl, a] = (len(traces), sum(n for t, n in proj.items() if unary(tpl, t, a)))
        else:
            for a, b in permutations(sorted(acts), 2):
                s = c = 0
                for t, n in proj.items():
                    act, sat = binary(tpl, t, a, b)
                    if act:
                        s += n
                        c += n if sat else 0
                out[tpl, (a, b)] = (s, c)
    if ctx:
        ctx.ev("constraints evaluated", len(out))
    return out


def flat(model):
    return {(tpl, k): (int(v["support"]), int(v["confidence"])) for tpl, d in model.items() for k, v in d.items()}


def mk_log(r):
    traces = c16.mk_traces(r)
    labs = sorted({x for t in traces for x in t}) or ["a"]
    if len(labs) > 6:
        keep = set(r.sample(labs, 6))
        traces = [[x for x in t if x in keep] for t in traces]
    if r.random() < 0.4:                     # short, very repetitive traces: the corner cases of the templates
        u = r.sample(labs, min(len(labs), r.randint(2, 3)))
        traces = [[r.choice(u) for _ in range(r.randint(0, 5))] for _ in range(r.randint(1, 8))]
    if not any(traces):
        traces.append(["a"])
    return traces


def build(ctx, traces):
    al = gen.rand_alog(ctx.rng, traces=traces, ties=0)
    how, obj, kw = ctx.rng.choice(h.both(ctx.rng, al, order=ctx.rng.choice([None, "interleave"])))
    vis = traces if how == "log" else [t for t in traces if t]
    return how, obj, kw, vis


def expect(ctx, tab, n, ms, mc, mult=None):
    must, may = {}, {}
    if ms is None or mc is None:
        best = max(((s / n * (c / s), k) for k, (s, c) in tab.items() if s), key=lambda x: (x[0]), default=None)
        if best is None:
            return {}, {}
        return None
    for k, (s, c) in tab.items():
        if not s or not c:
            continue
        ds, dc = s - n * ms, c - s * mc
        exact = (ms * 16) % 1 == 0 and (mc * 16) % 1 == 0
        if ds >= (0 if exact else 1e-9) and dc >= (0 if exact else 1e-9):
            must[k] = (s, c)
        if ds >= -1e-9 and dc >= -1e-9:
            may[k] = (s, c)
    return must, may


def discovery(ctx):
    r = ctx.rng
    traces = mk_log(r)
    how, obj, kw, vis = build(ctx, traces)
    labs = sorted({x for t in vis for x in t})
    tpls = r.choice([None, UN + BI, r.sample(UN + BI, r.randint(1, 6))])
    acts = None if r.random() < 0.6 else sorted(set(r.sample(labs, r.randint(1, len(labs)))) | ({"never"} if r.random() < 0.3 else set()))
    z = r.random()
    if z < 0.35:
        ms, mc = 0.0, 0.0
    elif z < 0.8:
        ms, mc = r.choice([0.0, 0.25, 0.5, 1.0, 0.3, r.random()]), r.choice([0.0, 0.5, 0.75, 1.0, 0.9, r.random()])
    else:
        ms, mc = r.choice([(None, None), (0.5, None), (None, 0.75)])
    model = ctx.call("discover", pm4py.discover_declare, obj, allowed_templates=r.choice([set, list])(tpls) if tpls else None, considered_activities=acts,
                     min_support_ratio=ms, min_confidence_ratio=mc, **kw)
    tab = table(vis, set(acts if acts is not None else labs), tpls or DEFAULT, ctx)
    got = flat(model)
    d = dict(traces=[list(t) for t in vis], tpls=tpls, acts=acts, ms=ms, mc=mc)
    bad = {k: (v, tab.get(k)) for k, v in got.items() if tab.get(k) != v}
    ctx.check(not bad, "values:" + (sorted(bad)[0][0] if bad else ""), f"(support, confidence) got vs. own: {dict(list(bad.items())[:3])}", **d)
    n = len(vis)
    if ms is None or mc is None:
        prods = {k: (s / n) * (c / s) for k, (s, c) in tab.items() if s}
        if not prods:
            ctx.check(not got, "auto:nothing", f"got {got}", **d)
        else:
            best = max(prods.values())
            cands = [k for k, v in prods.items() if abs(v - best) < 1e-9]
            okset = []
            for k in cands:
                s, c = tab[k]
                ms2, mc2 = (0.8 * s / n if ms is None else ms), (0.8 * c / s if mc is None else mc)
                must = {q for q, (a, b) in tab.items() if a and b and a >= n * ms2 + 1e-9 and b >= a * mc2 + 1e-9}
                may = {q for q, (a, b) in tab.items() if a and b and a >= n * ms2 - 1e-9 and b >= a * mc2 - 1e-9}
                okset.append(must <= set(got) <= may)
            ctx.check(any(okset), "auto:selection", f"got {sorted(map(str, got))[:8]}, no best candidate explains it", **d)
    else:
        must, may = expect(ctx, tab, n, ms, mc)
        miss, extra = set(must) - set(got), set(got) - set(may)
        ctx.check(not miss, "selection:missing", f"not reported although above the thresholds: {sorted(map(str, miss))[:4]}", **d)
        ctx.check(not extra, "selection:extra", f"reported although below the thresholds: {sorted(map(str, extra))[:4]}", **d)
    ctx.nontrivial("disc", how, len(got), str(ms), str(mc), len(tab))


def devs_of(model, t):
    out = Counter()
    for tpl, d in model.items():
        for k in d:
            sat = unary(tpl, t, k) if tpl in UN else (lambda x: (not x[0]) or x[1])(binary(tpl, t, *k))
            if not sat:
                out[tpl, k] += 1
    return out


def norm(devs):
    return Counter((x[0], tuple(x[1]) if isinstance(x[1], (list, tuple)) else x[1]) for x in devs)


def checking(ctx):
    r = ctx.rng
    traces = mk_log(r)
    how, obj, kw, vis = build(ctx, traces)
    labs = sorted({x for t in vis for x in t}) + (["other"] if r.random() < 0.3 else [])
    model = {}
    for _ in range(r.choice([0, 1, 3, 8, 20])):
        tpl = r.choice(UN + BI)
        if tpl in UN or len(labs) < 2:
            tpl = tpl if tpl in UN else "existence"
            model.setdefault(tpl, {})[r.choice(labs)] = {"support": 1, "confidence": 1}
        else:
            model.setdefault(tpl, {})[tuple(r.sample(labs, 2))] = {"support": 1, "confidence": 1}
    judge_conf(ctx, obj, kw, vis, model, how)


def judge_conf(ctx, obj, kw, vis, model, how, full=False):
    res = ctx.call("conformance", pm4py.conformance_declare, obj, model, return_diagnostics_dataframe=False, **kw)
    total = sum(len(v) for v in model.values())
    d = dict(traces=[list(t) for t in vis], model={k: [str(x) for x in v] for k, v in model.items()})
    ctx.check(len(res) == len(vis), "conf:cases", f"{len(res)} results for {len(vis)} cases", **d)
    if how == "log":
        pairs = list(zip(res, vis))
    else:                                # cases of a dataframe are reported in an order of their own: compare as multisets
        pairs = None
    def sig(devs):
        return (tuple(sorted((str(k), n) for k, n in devs.items())), total, sum(devs.values()))
    got = [(norm(x["deviations"]), x) for x in res]
    want = [devs_of(model, list(t)) for t in vis]
    ctx.ev("cases checked", len(res))
    if pairs is not None:
        for (g, x), w, t in zip(got, want, vis):
            bad = (g - w) or (w - g)
            ctx.check(g == w, "conf:deviations:" + (sorted(map(str, bad))[0].split("'")[1] if bad else ""), f"trace {list(t)}: too many {dict(g - w)}, missing {dict(w - g)}", **d)
    else:
        ctx.check(Counter(sig(g) for g, _ in got) == Counter(sig(w) for w in want), "conf:deviations", f"got {[dict(g) for g, _ in got]}, want {[dict(w) for w in want]}", **d)
    for g, x in got:
        nd = sum(g.values())
        ctx.check(x["no_constr_total"] == total and x["no_dev_total"] == nd and bool(x["is_fit"]) == (nd == 0), "conf:counters", f"{x}", **d)
        ctx.check(h.close(x["dev_fitness"], 1 - nd / total if total else 1.0), "conf:fitness", f"{x['dev_fitness']} with {nd} of {total}", **d)
        if full:
            ctx.check(nd == 0, "conf:self", f"deviations {dict(g)} with constraints of confidence 1", **d)
    df = ctx.call("diagnostics", pm4py.conformance_declare, obj, model, return_diagnostics_dataframe=True, **kw)
    ctx.check(len(df) == len(vis) and sorted(df["no_dev_total"]) == sorted(sum(w.values()) for w in want), "conf:diagnostics", f"{df.to_dict('records')[:4]}", **d)
    ctx.nontrivial("conf", how, total, tuple(sorted(sum(w.values()) for w in want)))


def self_conf(ctx):
    r = ctx.rng
    traces = mk_log(r)
    how, obj, kw, vis = build(ctx, traces)
    model = ctx.call("discover", pm4py.discover_declare, obj, allowed_templates=set(r.choice([UN + BI, DEFAULT])), min_support_ratio=r.choice([0.0, 0.3, 1.0]), min_confidence_ratio=1.0, **kw)
    judge_conf(ctx, obj, kw, vis, model, how, full=True)


FAMILIES = {"discovery": (500, 6000, discovery), "checking": (400, 3000, checking), "self": (200, 1000, self_conf)}
