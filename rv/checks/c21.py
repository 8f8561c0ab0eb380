"""C21 log skeleton: exact relations at zero noise, monotone in the noise, deviations of a case"""
from collections import Counter
from itertools import product
import pm4py
from rv import gen, h
from rv.checks import c16, c20

RULE = "own evaluation of the six relations on every trace (all occurrences of the first activity)"
ASSUMPTIONS = ["a relation (A,B) constrains the traces that contain A, as documented ('an occurrence of A is ALWAYS followed by B'; equivalence: same frequency)",
               "for a positive noise, the fraction of occurrences of A respecting the relation is compared with 1-noise; never-together only for monotonicity"]
MINIMUM = {"skeletons": 250, "cases checked": 2000, "noise pairs": 150}
REL = ["equivalence", "always_after", "always_before", "never_together", "directly_follows"]


def occ(rel, t, a, b):
    """number of occurrences of a in t for which (a, b) holds"""
    n = len(t)
    if rel == "equivalence":
        return t.count(a) if a != b and t.count(a) == t.count(b) else 0
    if rel == "always_after":
        return sum(1 for i in range(n) if t[i] == a and b in t[i + 1:])
    if rel == "always_before":
        return sum(1 for i in range(n) if t[i] == a and b in t[:i])
    if rel == "directly_follows":
        return sum(1 for i in range(n - 1) if t[i] == a and t[i + 1] == b)
    raise ValueError(rel)


def holds(rel, t, a, b):
    if a not in t:
        return True
    if rel == "never_together":
        return b not in t
    return occ(rel, t, a, b) == t.count(a)


def skeleton(traces):
    labs = sorted({x for t in traces for x in t})
    out = {rel: {(a, b) for a, b in product(labs, repeat=2) if (a != b or rel not in ("equivalence", "never_together")) and all(holds(rel, t, a, b) for t in traces)} for rel in REL}
    out["activ_freq"] = {a: {t.count(a) for t in traces} for a in labs}
    return out


def discovery(ctx):
    r = ctx.rng
    traces = c20.mk_log(r)
    how, obj, kw, vis = c20.build(ctx, traces)
    vis = [list(t) for t in vis]
    d = dict(traces=vis)
    sk = ctx.call("discover", pm4py.discover_log_skeleton, obj, noise_threshold=0.0, **kw)
    ctx.ev("skeletons")
    want = skeleton(vis)
    for rel in REL:
        g = set(sk[rel])
        ctx.check(g == want[rel], f"discovery:{rel}", f"missing {sorted(want[rel] - g)[:4]}, extra {sorted(g - want[rel])[:4]}", **d)
    g = {a: set(int(x) for x in v) for a, v in sk["activ_freq"].items()}
    ctx.check(g == want["activ_freq"], "discovery:activ_freq", f"got {g}, want {want['activ_freq']}", **d)
    # self conformance
    judge_conf(ctx, obj, kw, vis, {k: (set(v) if k != "activ_freq" else v) for k, v in sk.items()}, how, full=True)
    # noise
    lo, hi = sorted([r.choice([0.0, 0.05, 0.1, 0.25, 0.5, r.random()]) for _ in range(2)])
    s1, s2 = (ctx.call("discover", pm4py.discover_log_skeleton, obj, noise_threshold=x, **kw) for x in (lo, hi))
    ctx.ev("noise pairs")
    for rel in REL:
        ctx.check(set(s1[rel]) <= set(s2[rel]), f"noise:{rel}:monotone", f"{lo} -> {hi}: lost {sorted(set(s1[rel]) - set(s2[rel]))[:4]}", **d)
    labs = sorted({x for t in vis for x in t})
    for th, s in ((lo, s1), (hi, s2)):
        for rel in ("equivalence", "always_after", "always_before", "directly_follows"):
            for a, b in product(labs, repeat=2):
                tot = sum(t.count(a) for t in vis)
                ok = sum(occ(rel, t, a, b) for t in vis)
                x = ok - tot * (1 - th)
                if abs(x) > 1e-9:
                    ctx.check(((a, b) in s[rel]) == (x > 0 and ok > 0), f"noise:{rel}", f"threshold {th}: ({a}, {b}) respected by {ok} of {tot} occurrences, reported {(a, b) in s[rel]}", **d)
        for a in labs:
            cnt = Counter(t.count(a) for t in vis)
            g = set(int(x) for x in s["activ_freq"][a])
            cov = sum(cnt[x] for x in g)
            # the kept frequencies are the most common ones, as few as needed to cover 1-noise of the cases
            ok = g <= set(cnt) and (cov + 1e-9 >= (1 - th) * len(vis)) and (len(g) == 1 or cov - min(cnt[x] for x in g) < (1 - th) * len(vis) + 1e-9) and \
                all(cnt[x] >= max([cnt[y] for y in cnt if y not in g], default=0) for x in g)
            ctx.check(ok, "noise:activ_freq", f"threshold {th}, activity {a}: kept {g} of {dict(cnt)}", **d)
    ctx.nontrivial("disc", how, *(len(want[x]) for x in REL))


def devs_of(model, t, cons):
    out = set()
    tot = 0
    for rel in REL:
        if rel not in cons:
            continue
        for a, b in model[rel]:
            if a in t:
                tot += 1
                if not holds(rel, t, a, b):
                    out.add((rel, (a, b)))
    if "activ_freq" in cons:
        mf = model["activ_freq"]
        for a in set(t) | set(mf):
            if a in t:
                tot += 1
                if a not in mf or t.count(a) not in mf[a]:
                    out.add(("activ_freq", a))
            elif min(mf[a]) > 0:
                tot += 1
                out.add(("activ_freq", a))
    return out, tot


def norm(devs):
    out = []
    for rel, x in devs:
        if rel == "activ_freq":
            out.append((rel, x[0]))
        else:
            out += [(rel, tuple(y)) for y in x]
    return out


def judge_conf(ctx, obj, kw, vis, model, how, full=False, cons=None):
    if cons is None:
        res = ctx.call("conformance", pm4py.conformance_log_skeleton, obj, model, return_diagnostics_dataframe=False, **kw)
    else:
        from pm4py.algo.conformance.log_skeleton import algorithm
        res = ctx.call("conformance", algorithm.apply, obj, model, parameters=dict({"pm4py:param:" + k: v for k, v in kw.items()}, considered_constraints=cons))
    cs = cons if cons is not None else REL + ["activ_freq"]
    d = dict(traces=vis, model=str(model)[:1500])
    ctx.check(len(res) == len(vis), "conf:cases", f"{len(res)} results for {len(vis)} cases", **d)
    want = [devs_of(model, t, cs) for t in vis]
    got = [norm(x["deviations"]) for x in res]
    ctx.ev("cases checked", len(res))
    sig = lambda g, tot, n: (tuple(sorted(map(str, g))), tot, n)
    if how == "log":
        for g, (w, tot), x, t in zip(got, want, res, vis):
            diff = (set(g) ^ w)
            ctx.check(set(g) == w and len(g) == len(w), "conf:" + (sorted(map(str, diff))[0].split("'")[1] if diff else "dup"), f"trace {t}: too many {sorted(map(str, set(g) - w))[:4]}, missing {sorted(map(str, w - set(g)))[:4]}", **d)
            ctx.check(x["no_constr_total"] == tot, "conf:no_constr_total", f"trace {t}: {x['no_constr_total']}, want {tot}", **d)
    else:
        a = Counter(sig(g, x["no_constr_total"], x["no_dev_total"]) for g, x in zip(got, res))
        b = Counter(sig(w, tot, len(w)) for w, tot in want)
        ctx.check(a == b, "conf:deviations", f"got-want {list((a - b).items())[:2]} want-got {list((b - a).items())[:2]}", **d)
    for g, x in zip(got, res):
        ctx.check(x["no_dev_total"] == len(g) and bool(x["is_fit"]) == (not g), "conf:counters", f"{x}", **d)
        tot = x["no_constr_total"]
        ctx.check(h.close(x["dev_fitness"], 1 - len(g) / tot if tot else 1.0), "conf:fitness", f"{x}", **d)
        if full:
            ctx.check(not g, "conf:self", f"{g}", **d)
    if cons is None:
        df = ctx.call("diagnostics", pm4py.conformance_log_skeleton, obj, model, return_diagnostics_dataframe=True, **kw)
        ctx.check(sorted(df["no_dev_total"]) == sorted(len(w) for w, _ in want), "conf:diagnostics", f"{df.to_dict('records')[:4]}", **d)
    return want


def checking(ctx):
    r = ctx.rng
    traces = c20.mk_log(r)
    how, obj, kw, vis = c20.build(ctx, traces)
    vis = [list(t) for t in vis]
    labs = sorted({x for t in vis for x in t}) + (["other"] if r.random() < 0.3 else [])
    if r.random() < 0.5:
        other = [list(t) for t in c20.mk_log(r)]
        m = {x: r.choice(labs) for t in other for x in t}
        model = skeleton([[m[x] for x in t] for t in other])
    else:
        prs = list(product(labs, repeat=2))
        model = {rel: {p for p in r.sample(prs, min(len(prs), r.randint(0, 6))) if p[0] != p[1] or rel == "directly_follows"} for rel in REL}
        model["activ_freq"] = {a: set(r.sample(range(0, 4), r.randint(1, 3))) for a in labs if r.random() < 0.8}
    cons = None if r.random() < 0.6 else r.sample(REL + ["activ_freq"], r.randint(1, 5))
    want = judge_conf(ctx, obj, kw, vis, model, how, cons=cons)
    ctx.nontrivial("conf", how, tuple(sorted(len(w) for w, _ in want)))


FAMILIES = {"discovery": (320, 4000, discovery), "checking": (320, 4000, checking)}
