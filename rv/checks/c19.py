"""C19 footprints: exact relations of logs, trees and nets; conformance = set difference; ranges"""
from collections import Counter
import pm4py
from rv import gen, ref, h
from rv.checks import c16

RULE = "own directly-follows counts for logs; compositional exact footprints for trees; own state space of nets; own set differences and fitness formula"
ASSUMPTIONS = ["net footprints are the pairs of firing sequences from the initial marking (for sound nets: of the language)", "two-child loops"]
MINIMUM = {"log footprints": 300, "tree footprints": 300, "net footprints": 120, "conformance results": 500}
CASE_CPU = 90


def split(pairs):
    pairs = set(pairs)
    return {p for p in pairs if (p[1], p[0]) not in pairs}, {p for p in pairs if (p[1], p[0]) in pairs}


def judge_log_fp(ctx, fp, traces, tag, empties=True):
    traces = traces if empties else [t for t in traces if t]
    dfg = h.dfg_of(traces)
    s, p = split(dfg)
    ctx.ev("log footprints")
    ctx.eq(set(fp["sequence"]), s, f"{tag}:sequence")
    ctx.eq(set(fp["parallel"]), p, f"{tag}:parallel")
    ctx.eq(h.ints(fp["dfg"]), dfg, f"{tag}:dfg")
    ctx.eq(set(fp["activities"]), {a for t in traces for a in t}, f"{tag}:activities")
    ctx.eq(set(fp["start_activities"]), {t[0] for t in traces if t}, f"{tag}:start")
    ctx.eq(set(fp["end_activities"]), {t[-1] for t in traces if t}, f"{tag}:end")
    ctx.eq(int(fp["min_trace_length"]), min(len(t) for t in traces), f"{tag}:min-length")


def logs(ctx):
    from pm4py.algo.discovery.footprints import algorithm
    r = ctx.rng
    traces = [t for t in c16.mk_traces(r)]
    if not any(traces):
        traces.append(["a"])
    al = gen.rand_alog(r, traces=traces, ties=r.choice([0, 0.3]))
    runs = h.both(r, al, order=r.choice([None, "interleave"]))
    for how, obj, kw in runs:
        pr = {"pm4py:param:" + k: v for k, v in kw.items()}
        if how == "log":
            judge_log_fp(ctx, ctx.call("entire_event_log", algorithm.apply, obj, variant=algorithm.Variants.ENTIRE_EVENT_LOG, parameters=pr), traces, "entire_event_log")
            tt = ctx.call("trace_by_trace", algorithm.apply, obj, parameters=pr)
            ctx.eq(len(tt), len(traces), "trace_by_trace:cases")
            for fp, t in zip(tt, traces):
                judge_log_fp(ctx, fp, [t], "trace_by_trace")
                ctx.eq(tuple(fp["trace"]), tuple(t), "trace_by_trace:trace")
        else:
            judge_log_fp(ctx, ctx.call("entire_dataframe", algorithm.apply, obj, parameters=pr), traces, "entire_dataframe", False)
    dfg = h.dfg_of(traces)
    fp = ctx.call("dfg", algorithm.apply, dict(dfg))
    s, p = split(dfg)
    ctx.eq((set(fp["sequence"]), set(fp["parallel"]), set(fp["activities"])), (s, p, {x for e in dfg for x in e}), "dfg:relations")
    ctx.nontrivial("log", len(s), len(p), len(traces))


def mk_tree(r, ops=None):
    labs = gen.labels(r, r.randint(2, 6))
    return gen.rand_tree(r, labs, ops=ops or ("->", "X", "+", "*", "O"), depth=4, dup=r.choice([0, 0, 0.4]), tau=0.2, maxleaf=8)


def judge_tree_fp(ctx, fp, t, tag):
    nullable, st, en, df, acts, always, ml = ref.tree_fp(t)
    s, p = split(df)
    d = dict(tree=gen.tree_str(t))
    ctx.ev("tree footprints")
    for key, want in (("sequence", s), ("parallel", p), ("start_activities", st), ("end_activities", en), ("activities", acts), ("activities_always_happening", always)):
        ctx.check(set(fp[key]) == set(want), f"{tag}:{key}", f"got {sorted(fp[key])}, want {sorted(want)}", **d)
    ctx.check(bool(fp["skippable"]) == nullable, f"{tag}:skippable", f"got {fp['skippable']}", **d)
    ctx.check(fp["min_trace_length"] == ml, f"{tag}:min-length", f"got {fp['min_trace_length']}, want {ml}", **d)


def trees(ctx):
    r = ctx.rng
    t = mk_tree(r)
    fp = ctx.call("tree", pm4py.discover_footprints, gen.to_pt(t))
    judge_tree_fp(ctx, fp, t, "tree")
    ctx.nontrivial("tree", gen.tree_str(t))


def net_fp(R, cap=3000):
    seen, edges = R.reach(cap)
    vis = {i for i, t in enumerate(R.trans) if t[1] is not None}
    out = {}
    for m, i, n in edges:
        out.setdefault(m, []).append((i, n))

    def ev(m):
        res, st, sn = set(), [m], {m}
        while st:
            x = st.pop()
            for i, n in out.get(x, ()):
                if i in vis:
                    res.add(R.trans[i][1])
                elif n not in sn:
                    sn.add(n)
                    st.append(n)
        return res
    pairs = set()
    memo = {}
    for m, i, n in edges:
        if i in vis:
            if n not in memo:
                memo[n] = ev(n)
            pairs |= {(R.trans[i][1], b) for b in memo[n]}
    return pairs, ev(R.im)


def nets(ctx):
    r = ctx.rng
    if r.random() < 0.6:
        net, im, fm, info = gen.rand_wfnet(r, dup=r.choice([0, 0.4]))
    else:
        from rv.checks import c24
        t = mk_tree(r, ops=("->", "X", "+", "*"))
        net, im, fm = c24.netof(t)
        nullable, st, en, df, acts, always, ml = ref.tree_fp(t)
        pairs, start = net_fp(ref.Net(net, im, fm))
        if pairs != df or start != st:
            raise AssertionError("reference state space and compositional footprints disagree")
        ctx.ev("cross-checked references")
    R = ref.Net(net, im, fm)
    R.reach(400)
    pairs, start = net_fp(R)
    s, p = split(pairs)
    fp = ctx.call("net", pm4py.discover_footprints, net, im, fm)
    ctx.ev("net footprints")
    d = dict(net=[(t[1], t[2], t[3]) for t in R.trans])
    ctx.check(set(fp["sequence"]) == s, "net:sequence", f"missing {sorted(s - set(fp['sequence']))[:4]}, extra {sorted(set(fp['sequence']) - s)[:4]}", **d)
    ctx.check(set(fp["parallel"]) == p, "net:parallel", f"missing {sorted(p - set(fp['parallel']))[:4]}, extra {sorted(set(fp['parallel']) - p)[:4]}", **d)
    ctx.eq(set(fp["start_activities"]), start, "net:start")
    ctx.eq(set(fp["activities"]), {t[1] for t in R.trans if t[1] is not None}, "net:activities")
    ctx.nontrivial("net", len(pairs), len(p), len(R.trans))


def conf(ctx):
    """log vs tree: set differences, fitting logs have none, fitness formula, precision"""
    from pm4py.algo.conformance.footprints import algorithm as fc
    from pm4py.algo.conformance.footprints.util import evaluation
    from pm4py.algo.conformance.footprints.variants import trace_extensive, log_model
    r = ctx.rng
    t = mk_tree(r)
    nullable, st, en, df, acts, always, ml = ref.tree_fp(t)
    traces = [gen.play_tree(r, t)[:20] for _ in range(r.randint(1, 6))]
    fitting = all(ref.tree_accepts(t, x) for x in traces)
    if r.random() < 0.6:
        fitting = False
        labs = sorted(acts) + ["zz"]
        if not labs:
            labs = ["zz"]
        for _ in range(r.randint(1, 4)):
            k = r.randrange(len(traces))
            x = list(traces[k])
            op = r.random()
            if op < 0.4 or not x:
                x.insert(r.randint(0, len(x)), r.choice(labs))
            elif op < 0.7:
                del x[r.randrange(len(x))]
            else:
                i, j = r.randrange(len(x)), r.randrange(len(x))
                x[i], x[j] = x[j], x[i]
            traces[k] = x
    if r.random() < 0.1:
        traces = [[r.choice(sorted(acts) + ["zz"])] for _ in range(3)]
        fitting = False
    if not any(traces):
        traces.append(["zz"])
        fitting = False
    al = gen.rand_alog(r, traces=traces)
    log, frame = al.to_log(), al.to_df()
    pt = gen.to_pt(t)
    d = dict(tree=gen.tree_str(t), traces=traces)
    # trace by trace
    res = ctx.call("trace_extensive", pm4py.conformance_diagnostics_footprints, log, pt)
    ctx.eq(len(res), len(traces), "trace_extensive:cases")
    rows = []
    for x, c in zip(traces, res):
        w = (set(zip(x, x[1:])) - df, {x[0]} - st if x else set(), {x[-1]} - en if x else set(), always - set(x), len(x) >= ml)
        g = (set(c["footprints"]), set(c["start_activities"]), set(c["end_activities"]), set(c["activities_always_happening"]), bool(c["min_length_fit"]))
        ctx.ev("conformance results")
        ctx.check(g == w, "trace_extensive:result", f"{x}: got {g}, want {w}", **d)
        fit = not (w[0] or w[1] or w[2] or w[3]) and w[4]
        ctx.check(bool(c["is_footprints_fit"]) == fit, "trace_extensive:fit", f"{x}: {c}", **d)
        if ref.tree_accepts(t, x):
            ctx.check(bool(c["is_footprints_fit"]), "trace_extensive:fitting-trace", f"{x} belongs to the model: {c}", **d)
        rows.append((w, fit))
    dd = ctx.call("trace_extensive:diagnostics", trace_extensive.get_diagnostics_dataframe, log, res)
    ctx.eq([(str(a), bool(b), int(e), int(f), int(g), int(k)) for a, b, e, f, g, k in zip(dd["case_id"], dd["is_fit"], dd["footprints_violations"], dd["start_activities_violations"], dd["end_activities_violations"], dd["act_always_happening_violations"])],
           [(str(cid), fit, len(w[0]), len(w[1]), len(w[2]), len(w[3])) for (cid, _, _), (w, fit) in zip(al.cases, rows)], "trace_extensive:diagnostics")
    # whole log
    tr = {"log": traces, "df": [x for x in traces if x]}
    from pm4py.algo.discovery.footprints import algorithm as fd
    fp_log = fd.apply(log, variant=fd.Variants.ENTIRE_EVENT_LOG)
    fp_df = pm4py.discover_footprints(frame)
    mfp = pm4py.discover_footprints(pt)
    for how, f in (("log", fp_log), ("df", fp_df)):
        xs = tr[how]
        dfg = h.dfg_of(xs)
        sa, ea = {x[0] for x in xs if x}, {x[-1] for x in xs if x}
        w = (set(dfg) - df, sa - st, ea - en, min(len(x) for x in xs) >= ml)
        c = ctx.call(f"log_extensive:{how}", pm4py.conformance_diagnostics_footprints, f, pt if r.random() < .5 else mfp)
        g = (set(c["footprints"]), set(c["start_activities"]), set(c["end_activities"]), bool(c["min_length_fit"]))
        ctx.ev("conformance results")
        ctx.check(g == w, f"log_extensive:{how}:result", f"got {g}, want {w}", **d)
        ctx.check(bool(c["is_footprints_fit"]) == (not (w[0] or w[1] or w[2]) and w[3]), f"log_extensive:{how}:fit", f"{c}", **d)
        lm = ctx.call("log_model", fc.apply, f, mfp, variant=fc.Variants.LOG_MODEL)
        ctx.check(set(lm) == w[0], "log_model:result", f"got {lm}, want {w[0]}", **d)
        s, p = split(dfg)
        ms, mp = split(df)
        lm = fc.apply(f, mfp, variant=fc.Variants.LOG_MODEL, parameters={"strict": True})
        ctx.check(set(lm) == (s - ms) | (p - mp), "log_model:strict", f"got {lm}", **d)
        n = len(dfg)
        den = n + len(sa) + len(ea)
        want = 1.0
        if den:
            want = (((1 - sum(dfg[e] for e in w[0]) / sum(dfg.values())) * n if dfg else 0) + len(sa) + len(ea) - len(w[1]) - len(w[2])) / den
        fit = ctx.call(f"fitness:{how}", pm4py.fitness_footprints, f, pt)
        prec = ctx.call(f"precision:{how}", pm4py.precision_footprints, f, pt)
        ctx.ev("metric values", 2)
        ctx.check(h.close(fit, want), f"fitness:{how}:formula", f"got {fit}, want {want}", **d)
        ctx.check(0 <= fit <= 1 + 1e-12 and 0 <= prec <= 1, f"fitness:{how}:range", f"{fit} {prec}", **d)
        ctx.check(h.close(prec, len(set(dfg) & df) / len(df) if df else 1.0), f"precision:{how}:formula", f"got {prec}", **d)
        if fitting and how == "log":
            ctx.check(h.close(fit, 1) and bool(c["is_footprints_fit"]), "fitting-log", f"{fit} {c}", **d)
    lf = ctx.call("fitness:list", pm4py.fitness_footprints, log, pt)
    ctx.check(h.close(lf["perc_fit_traces"], 100 * sum(f for _, f in rows) / len(rows)), "fitness:list:perc", f"{lf}", **d)
    ctx.check(0 <= lf["log_fitness"] <= 1 + 1e-12 and (not fitting or h.close(lf["log_fitness"], 1)), "fitness:list:range", f"{lf}", **d)
    # a model compared with itself
    ctx.check(h.close(evaluation.fp_precision(mfp, mfp), 1), "self:precision", "", **d)
    lm = fc.apply([p for p in pm4py.algo.discovery.footprints.algorithm.apply(log)], mfp, variant=fc.Variants.LOG_MODEL)
    ctx.check([set(v) for v in lm] == [w[0] for w, _ in rows], "log_model:list", f"{lm}", **d)
    dg = ctx.call("log_model:diagnostics", log_model.get_diagnostics_dataframe, log, lm)
    ctx.eq([(int(a), bool(b)) for a, b in zip(dg["num_violations"], dg["is_fit"])], [(len(w[0]), not w[0]) for w, _ in rows], "log_model:diagnostics")
    ctx.nontrivial("conf", len(df), len(traces), fitting, sum(f for _, f in rows))


FAMILIES = {
    "logs": (200, 3000, logs),
    "trees": (500, 8000, trees),
    "nets": (200, 3000, nets),
    "conf": (250, 4000, conf),
}
