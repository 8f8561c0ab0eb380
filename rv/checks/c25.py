"""C25 token-based replay: every reported counter is re-derived by replaying the *reported* transitions in an own token
game (forcing missing tokens), and verdicts are compared with language membership"""
import pm4py
from rv import gen, ref, h
from rv.checks import c23

RULE = ("own token game over the reported activated transitions: missing/remaining/produced/consumed, reached marking, problems, "
        "fitness formula and verdict recomputed; language membership by exact state-space search")
ASSUMPTIONS = ["replay of nets with silent or duplicate transitions is heuristic: only soundness of 'fit' is required there, not completeness"]
MINIMUM = {"replays judged": 500, "fit replays": 100, "unfit replays": 100}

D = 1e-9


def names(R):
    d = {}
    for i, (name, label, pre, post, inh, rst) in enumerate(R.trans):
        d.setdefault(name, []).append(i)
    return d


def vec(R, m):
    d = dict(m)
    return [d.get(i, 0) for i in range(len(R.places))]


def simulate(R, seq):
    """forced replay of a sequence of transition indexes -> counters and marking before the final tokens are taken"""
    m, FM = vec(R, R.im), vec(R, R.fm)
    miss = 0
    prod, cons = sum(m), 0
    probs = []
    for i in seq:
        name, label, pre, post, inh, rst = R.trans[i]
        short = False
        for p, w in dict(pre).items():
            if m[p] < w:
                miss += w - m[p]
                m[p] = w
                short = True
            m[p] -= w
            cons += w
        for p, w in dict(post).items():
            m[p] += w
            prod += w
        if short:
            probs.append(i)
    fmiss = sum(max(0, f - x) for f, x in zip(FM, m))
    rem = sum(max(0, x - f) for f, x in zip(FM, m))
    return m, miss, fmiss, rem, prod, cons + sum(FM), probs


def eventually(R, m):
    """visible transitions enabled after silent steps, None when too many"""
    m = tuple((i, n) for i, n in enumerate(m) if n)
    seen, todo, out = {m}, [m], set()
    while todo:
        x = todo.pop()
        for i, t in enumerate(R.trans):
            if R.enabled(x, t):
                if t[1] is not None:
                    out.add(i)
                else:
                    y = R.fire(x, t)
                    if y not in seen:
                        if len(seen) > 300 or max((n for _, n in y), default=0) > 12:
                            return None
                        seen.add(y)
                        todo.append(y)
    return out


def judge(ctx, R, nm, tr, res, tag, opts):
    ctx.ev("replays judged")
    acts = res["activated_transitions"]
    acts = [a if isinstance(a, str) else a.name for a in acts]
    if any(a not in nm for a in acts):
        return ctx.fail(f"{tag}:names", f"{acts}")
    seq = [nm[a][0] for a in acts]
    m, miss, fmiss, rem, prod, cons, probs = simulate(R, seq)
    d = dict(model=c23.R_desc(R), trace=list(tr), activated=acts, opts=str(opts), got={k: res[k] for k in ("missing_tokens", "consumed_tokens", "remaining_tokens", "produced_tokens", "trace_is_fit", "trace_fitness")},
             exp=dict(miss=miss + fmiss, cons=cons, rem=rem, prod=prod))
    full = not opts.get("stop_immediately_unfit")
    if full or not res["transitions_with_problems"]:
        ctx.check(res["produced_tokens"] + res["missing_tokens"] == res["consumed_tokens"] + res["remaining_tokens"], f"{tag}:balance", "produced + missing != consumed + remaining", **d)
        ctx.check(res["missing_tokens"] == miss + fmiss, f"{tag}:missing", f"{res['missing_tokens']} vs {miss}+{fmiss}", **d)
        ctx.check(res["consumed_tokens"] == cons, f"{tag}:consumed", f"{res['consumed_tokens']} vs {cons}", **d)
        ctx.check(res["remaining_tokens"] == rem, f"{tag}:remaining", f"{res['remaining_tokens']} vs {rem}", **d)
        ctx.check(res["produced_tokens"] == prod, f"{tag}:produced", f"{res['produced_tokens']} vs {prod}", **d)
        rm = None if "reached_marking" not in res else {(k if isinstance(k, str) else k.name): v for k, v in res["reached_marking"].items() if v}
        ctx.check(rm is None or rm == {R.places[i].name: x for i, x in enumerate(m) if x}, f"{tag}:reached", f"{rm}", **d)
        labs = {t[1] for t in R.trans if t[1] is not None}
        if not res.get("replay_interrupted"):
            ctx.check([R.trans[i][1] for i in seq if R.trans[i][1] is not None] == [a for a in tr if a in labs], f"{tag}:projection", "", **d)
        pr = [p if isinstance(p, str) else p.name for p in res["transitions_with_problems"]]
        ctx.check(pr == [R.trans[i][0] for i in probs], f"{tag}:problems", f"{pr} vs {[R.trans[i][0] for i in probs]}", **d)
        en = eventually(R, m)
        if en is not None and "enabled_transitions_in_marking" in res:
            got = {p if isinstance(p, str) else p.name for p in res["enabled_transitions_in_marking"]}
            ctx.check(got == {R.trans[i][0] for i in en}, f"{tag}:enabled", f"{sorted(got)} vs {sorted(R.trans[i][0] for i in en)}", **d)
            ctx.ev("reached markings with their enabled transitions")
    else:
        ctx.check(not res["trace_is_fit"] and len(res["transitions_with_problems"]) == 1, f"{tag}:stopped", "", **d)
    M, C, Rm, P = (res[k] for k in ("missing_tokens", "consumed_tokens", "remaining_tokens", "produced_tokens"))
    if full:
        f = 0.5 * (1 - M / C) + 0.5 * (1 - Rm / P) if C > 0 and P > 0 else 1.0
        ctx.check(abs(res["trace_fitness"] - f) < D, f"{tag}:formula", f"{res['trace_fitness']} vs {f}", **d)
        ctx.check(-D <= res["trace_fitness"] <= 1 + D, f"{tag}:range", f"{res['trace_fitness']}", **d)
    known = tuple(a for a in tr if a in {t[1] for t in R.trans})
    unknown = len(known) != len(tr)
    if full and opts.get("consider_remaining_in_fitness", True):
        exp = M == 0 and Rm == 0
        if res.get("replay_interrupted"):
            exp = False
        if opts.get("consider_activities_not_in_model_in_fitness") and unknown:
            exp = False
        ctx.check(res["trace_is_fit"] == exp, f"{tag}:verdict", f"fit={res['trace_is_fit']} with missing {M}, remaining {Rm}, unknown {unknown}", **d)
    elif full:
        exp = miss == 0 and not (opts.get("consider_activities_not_in_model_in_fitness") and unknown)
        ctx.check(res["trace_is_fit"] == exp, f"{tag}:verdict-nr", f"fit={res['trace_is_fit']} with missing {M}, unknown {unknown}", **d)
    if res["trace_is_fit"] and opts.get("consider_remaining_in_fitness", True):
        ctx.check(R.accepts(known), f"{tag}:language", "reported fit but not in the language", **d)
        ctx.ev("fit replays")
    elif not res["trace_is_fit"]:
        ctx.ev("unfit replays")
    vis = [t[1] for t in R.trans]
    if None not in vis and len(set(vis)) == len(vis) and R.accepts(known) and not (unknown and opts.get("consider_activities_not_in_model_in_fitness")):
        ctx.check(res["trace_is_fit"], f"{tag}:complete", "trace of the language (no silent or duplicate transitions) reported unfit", **d)
        ctx.ev("language members on deterministic nets")


def visible_net(r):
    """net without silent / duplicate transitions"""
    for _ in range(60):
        labs = gen.labels(r, r.randint(1, 5))
        ls = list(dict.fromkeys(labs))
        places, trans = gen.rand_free_net(r, labs=ls, weights=r.random() < 0.5, tau=0)
        seen, ts = set(), []
        for n, l, i, o in trans:
            if l not in seen:
                seen.add(l)
                ts.append((n, l, i, o))
        net, im, fm = c23.free(r, places, ts)
        if net is None:
            continue
        R = ref.Net(net, im, fm)
        try:
            if R.fm in R.reach(400)[0]:
                return net, im, fm, R
        except ref.TooBig:
            pass
    return c23.mk_net(r)


def forward(ctx):
    from pm4py.algo.conformance.tokenreplay import algorithm as TR
    from pm4py.algo.conformance.tokenreplay.variants import token_replay as T
    r = ctx.rng
    net, im, fm, R = visible_net(r) if r.random() < 0.35 else c23.mk_net(r)
    nm = names(R)
    traces = c23.mk_traces(r, R, r.randint(1, 8))
    traces += [r.choice(traces) for _ in range(r.choice([0, 2]))]
    P = T.Parameters
    opts, par = {}, {}

    def put(k, e, vals):
        if r.random() < 0.25:
            opts[k] = par[e] = r.choice(vals)
    put("consider_remaining_in_fitness", P.CONSIDER_REMAINING_IN_FITNESS, [True, False])
    put("try_to_reach_final_marking_through_hidden", P.TRY_TO_REACH_FINAL_MARKING_THROUGH_HIDDEN, [True, False])
    put("walk", P.WALK_THROUGH_HIDDEN_TRANS, [True, False])
    put("stop_immediately_unfit", P.STOP_IMMEDIATELY_UNFIT, [True, False])
    put("consider_activities_not_in_model_in_fitness", P.CONSIDER_ACTIVITIES_NOT_IN_MODEL_IN_FITNESS, [True])
    put("return_names", P.RETURN_NAMES, [True, False])
    put("disable_variants", P.DISABLE_VARIANTS, [True, False])
    from pm4py.objects.log.obj import EventLog
    key = "concept:name"
    if r.random() < 0.2:
        key = "Act"
        par[P.ACTIVITY_KEY] = key
    log = EventLog([c23.to_trace(t, key) for t in traces])
    res = ctx.call("forward", TR.apply, log, net, im, fm, parameters=par)
    ctx.check(len(res) == len(traces), "forward:length", "")
    for tr, x in zip(traces, res):
        judge(ctx, R, nm, tr, x, "forward", opts)
    ctx.nontrivial(str(c23.R_desc(R)), traces)


def backwards(ctx):
    from pm4py.algo.conformance.tokenreplay import algorithm as TR
    r = ctx.rng
    net, im, fm, R = visible_net(r) if r.random() < 0.35 else c23.mk_net(r)
    nm = names(R)
    traces = c23.mk_traces(r, R, r.randint(1, 6))
    from pm4py.objects.log.obj import EventLog
    log = EventLog([c23.to_trace(t) for t in traces])
    res = ctx.call("backwards", TR.apply, log, net, im, fm, variant=TR.Variants.BACKWARDS, parameters={})
    for tr, x in zip(traces, res):


        judge(ctx, R, nm, tr, x, "backwards", {})
    ctx.nontrivial(str(c23.R_desc(R)), traces)


def logs(ctx):
    """log level: order of the diagnostics, aggregation, per-place accounting"""
    from pm4py.algo.conformance.tokenreplay import algorithm as TR
    from pm4py.algo.conformance.tokenreplay.variants import token_replay as T
    r = ctx.rng
    net, im, fm, R = c23.mk_net(r)
    nm = names(R)
    traces = [t for t in c23.mk_traces(r, R, r.randint(2, 8)) if t] or [("zz",)]
    traces += [r.choice(traces) for _ in range(r.choice([0, 2]))]
    al = gen.rand_alog(r, traces=traces)
    cids = [str(c[0]) for c in al.cases]
    single = [ctx.call("single", pm4py.conformance_diagnostics_token_based_replay, pm4py.objects.log.obj.EventLog([c23.to_trace(t)]), net, im, fm, return_diagnostics_dataframe=False)[0] for t in traces]
    for t, x in zip(traces, single):
        judge(ctx, R, nm, t, x, "single", {})
    keys = ("trace_is_fit", "trace_fitness", "missing_tokens", "consumed_tokens", "remaining_tokens", "produced_tokens")
    sig = [tuple(x[k] for k in keys) for x in single]
    exp_log = None
    tot = [sum(x[k] for x in single) for k in ("missing_tokens", "consumed_tokens", "remaining_tokens", "produced_tokens")]
    m, c, rem, p = tot
    fit_log = 0.5 * (1 - m / c) + 0.5 * (1 - rem / p) if c and p else 0
    for how, L, kw in h.both(r, al, alt={"concept:name": "Act"} if False else None):
        res = ctx.call(f"{how}", pm4py.conformance_diagnostics_token_based_replay, L, net, im, fm, return_diagnostics_dataframe=False, **kw)
        got = [tuple(x[k] for k in keys) for x in res]
        if how == "log":
            ctx.check(got == sig, f"logs:{how}:order", f"{got} vs {sig}", traces=traces)
        else:
            ctx.check(sorted(got) == sorted(sig), f"logs:{how}:multiset", f"{got} vs {sig}", traces=traces)
        df = ctx.call(f"{how}:df", pm4py.conformance_diagnostics_token_based_replay, L, net, im, fm, return_diagnostics_dataframe=True, **kw)
        gotd = {str(a): b for a, *b in zip(df["case_id"], df["is_fit"], df["trace_fitness"], df["missing"], df["consumed"], df["remaining"], df["produced"])}
        expd = {cid: list(s) for cid, s in zip(cids, sig)}
        ctx.check({k: [round(float(x), 9) for x in v] for k, v in gotd.items()} == {k: [round(float(x), 9) for x in v] for k, v in expd.items()}, f"logs:{how}:dataframe", f"{gotd} vs {expd}")
        f = ctx.call(f"{how}:fitness", pm4py.fitness_token_based_replay, L, net, im, fm, **kw)
        e = {"perc_fit_traces": 100.0 * sum(s[0] for s in sig) / len(sig), "average_trace_fitness": sum(s[1] for s in sig) / len(sig), "log_fitness": fit_log, "percentage_of_fitting_traces": 100.0 * sum(s[0] for s in sig) / len(sig)}
        if c and p:
            for k in e:
                ctx.check(abs(f[k] - e[k]) < 1e-9, f"logs:fitness:{k}", f"{how}: {f[k]} vs {e[k]}", traces=traces)
        ctx.ev("log-level evaluations")
        # per-place / per-transition accounting
        par = dict(kw)
        pp = {T.Parameters.ENABLE_PLTR_FITNESS: True}
        if "activity_key" in kw:
            pp[T.Parameters.ACTIVITY_KEY] = kw["activity_key"]
        if "case_id_key" in kw:
            pp[T.Parameters.CASE_ID_KEY] = kw["case_id_key"]
        out = ctx.call(f"{how}:pltr", TR.apply, L, net, im, fm, parameters=pp)
        ares, pf, tf, ne = out
        exp_pl = {}
        under, fitt = {}, {}
        for t, x in zip(traces, single):
            seq = [nm[a if isinstance(a, str) else a.name][0] for a in x["activated_transitions"]]
            mm = vec(R, R.im)
            D_ = [dict(m=0, r=0, c=0, p=0) for _ in R.places]
            for i, v in enumerate(vec(R, R.im)):
                D_[i]["p"] += v
            for i in seq:
                _, label, pre, post, inh, rst = R.trans[i]
                short = False
                for q, w in dict(pre).items():
                    if mm[q] < w:
                        D_[q]["m"] += w - mm[q]
                        mm[q] = w
                        short = True
                    mm[q] -= w
                    D_[q]["c"] += w
                for q, w in dict(post).items():
                    mm[q] += w
                    D_[q]["p"] += w
                if label is not None:
                    d = under if short else fitt
                    d[R.trans[i][0]] = d.get(R.trans[i][0], 0) + 1
            for q, (f_, v) in enumerate(zip(vec(R, R.fm), mm)):
                D_[q]["c"] += f_
                D_[q]["m"] += max(0, f_ - v)
                D_[q]["r"] += max(0, v - f_)
            for q, pl in enumerate(R.places):
                e_ = exp_pl.setdefault(pl.name, dict(m=0, r=0, c=0, p=0))
                for k in e_:
                    e_[k] += D_[q][k]
        gotp = {pl.name: {k: v[k] for k in ("m", "r", "c", "p")} for pl, v in pf.items()}
        for k in ("m", "r", "c", "p"):
            ctx.check({n: v[k] for n, v in gotp.items()} == {n: v[k] for n, v in exp_pl.items()}, f"logs:place-{k}", f"{how}: { {n: v[k] for n, v in gotp.items()} } vs { {n: v[k] for n, v in exp_pl.items()} }", traces=traces, model=c23.R_desc(R))
        if how == "log":
            gu = {t.name: sum(len(x) for x in v["underfed_traces"].values()) for t, v in tf.items()}
            ctx.check({a: b for a, b in gu.items() if b} == under, "logs:transition-underfed", f"{gu} vs {under}", traces=traces, model=c23.R_desc(R))
            gf = {t.name: sum(len(x) for x in v["fit_traces"].values()) for t, v in tf.items()}
            ctx.check({a: b for a, b in gf.items() if b} == fitt, "logs:transition-fit", f"{gf} vs {fitt}", traces=traces, model=c23.R_desc(R))
        labs = {t[1] for t in R.trans}
        ctx.check(set(ne) == {a for t in traces for a in t if a not in labs}, "logs:unknown-activities", f"{set(ne)}")
        ctx.ev("per-place accountings")
    ctx.nontrivial(str(c23.R_desc(R)), traces)


def flood(ctx):
    """cleaning of token floods on sound block-structured nets: the balance still holds and fit verdicts stay sound"""
    from pm4py.algo.conformance.tokenreplay import algorithm as TR
    from pm4py.algo.conformance.tokenreplay.variants import token_replay as T
    from pm4py.objects.log.obj import EventLog
    r = ctx.rng
    net, im, fm, _ = gen.rand_wfnet(r, depth=2, maxleaf=5, extra=0)
    R = ref.Net(net, im, fm)
    traces = c23.mk_traces(r, R, 4)
    res = ctx.call("flood", TR.apply, EventLog([c23.to_trace(t) for t in traces]), net, im, fm, parameters={T.Parameters.CLEANING_TOKEN_FLOOD: True})
    for t, x in zip(traces, res):
        d = dict(model=c23.R_desc(R), trace=list(t))
        ctx.check(x["produced_tokens"] + x["missing_tokens"] == x["consumed_tokens"] + x["remaining_tokens"], "flood:balance", f"{x}"[:600], **d)
        ctx.check(x["trace_is_fit"] == (x["missing_tokens"] == 0 and x["remaining_tokens"] == 0), "flood:verdict", f"{x}"[:600], **d)
        known = tuple(a for a in t if a in {q[1] for q in R.trans})
        if x["trace_is_fit"]:
            ctx.check(R.accepts(known), "flood:language", "", **d)
            ctx.ev("fit replays")
        ctx.ev("replays judged")
    ctx.nontrivial(str(c23.R_desc(R)), traces)


FAMILIES = {"forward": (260, 6000, forward), "backwards": (100, 2000, backwards), "logs": (80, 1500, logs), "flood": (40, 600, flood)}
