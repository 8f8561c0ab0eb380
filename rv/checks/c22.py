"""C22 temporal profile: exact mean/stdev of the delays; exact deviations per case; monotone in zeta"""
import statistics as st
import sys
from collections import Counter
import pm4py
from rv import gen, h
from rv.checks import c08, c20

RULE = "own list of the delays of every pair of events (i before j in the case, start of j not before completion of i)"
ASSUMPTIONS = ["delays within 1e-5 s of mean +/- zeta*stdev are not judged; no judgement of the standard deviation of a single delay other than 0"]
MINIMUM = {"profiles": 200, "deviations judged": 2000, "event pairs": 15000}


def delays(al, start=None, bh=None):
    """per case: [(a, b, delay)]"""
    out = []
    for _, _, ev in al.cases:
        l = []
        for i in range(len(ev)):
            for j in range(i + 1, len(ev)):
                a, b = ev[i]["time:timestamp"], ev[j][start or "time:timestamp"]
                if b >= a:
                    d = (b - a).total_seconds() if bh is None else c08.ref_bh(a.replace(tzinfo=None), b.replace(tzinfo=None), bh)
                    l.append((ev[i]["concept:name"], ev[j]["concept:name"], d))
        out.append(l)
    return out


def profile(ds):
    p = {}
    for l in ds:
        for a, b, d in l:
            p.setdefault((a, b), []).append(d)
    return p


def judge_profile(ctx, got, p, tag):
    ctx.ev("profiles")
    ctx.check(set(got) == set(p), f"{tag}:pairs", f"missing {sorted(set(p) - set(got))[:4]}, extra {sorted(set(got) - set(p))[:4]}")
    for k in set(got) & set(p):
        m, s = got[k]
        ctx.check(h.close(m, st.fmean(p[k]), ab=1e-5), f"{tag}:mean", f"{k}: {m}, delays {p[k][:10]}")
        ctx.check(h.close(s, st.stdev(p[k]) if len(p[k]) > 1 else 0, rel=1e-6, ab=1e-4), f"{tag}:stdev", f"{k}: {s}, delays {p[k][:10]}")


def judge_conf(ctx, res, cases, ds, prof, zeta, tag):
    """res: list of deviations per case (in the order of 'cases')"""
    ctx.check(len(res) == len(cases), f"{tag}:cases", f"{len(res)} results, {len(cases)} cases")
    want_sure, border = [], []
    for l in ds:
        s, bo = [], []
        for a, b, d in l:
            if (a, b) in prof:
                m, sd = prof[a, b]
                e = abs(d - m) - zeta * sd
                tol = 1e-5 + 1e-9 * abs(d)
                if e > tol:
                    s.append((a, b, d))
                elif e > -tol:
                    bo.append((a, b, d))
        want_sure.append(s)
        border.append(bo)
    n = 0
    for g, s, bo, c in zip(res, want_sure, border, cases):
        rest = list(g)
        d = dict(case=str(c), zeta=zeta)
        for a, b, v in s:
            i = next((i for i, x in enumerate(rest) if x[0] == a and x[1] == b and h.close(x[2], v, ab=1e-4)), None)
            if not ctx.check(i is not None, f"{tag}:missing", f"case {c}: ({a}, {b}, {v}) profile {prof[a, b]} not reported: {g[:5]}", **d):
                continue
            x = rest.pop(i)
            m, sd = prof[a, b]
            n += 1
            ctx.check((sd > 0 and h.close(x[3], abs(v - m) / sd, rel=1e-5, ab=1e-4)) or (sd == 0 and x[3] >= sys.maxsize // 2), f"{tag}:distance", f"case {c}: {x}, profile {prof[a, b]}", **d)
        for x in rest:
            ctx.check(any(x[0] == a and x[1] == b and h.close(x[2], v, ab=1e-4) for a, b, v in bo), f"{tag}:extra", f"case {c}: {x} is no deviation, profile {prof.get((x[0], x[1]))}", **d)
    ctx.ev("deviations judged", n + len(ds))
    return want_sure, border


def fam(ctx):
    r = ctx.rng
    traces = [t for t in c20.mk_log(r)]
    al = gen.rand_alog(r, traces=traces, ties=r.choice([0, 0, 0.3]), micro=r.random() < 0.3)
    if r.random() < 0.3:                        # equal, regular delays
        import datetime as dt
        step = r.choice([1, 0.1, 60, 3600])
        for _, _, ev in al.cases:
            for i, e in enumerate(ev):
                e["time:timestamp"] = ev[0]["time:timestamp"] + dt.timedelta(seconds=i * step)
    how, obj, kw = r.choice(h.both(r, al, order=r.choice([None, "interleave"])))
    cases = [c for c in al.cases if how == "log" or c[2]]
    al2 = gen.ALog(cases)
    ds = delays(al2)
    ctx.ev("event pairs", sum(map(len, ds)))
    p = profile(ds)
    got = ctx.call("discover", pm4py.discover_temporal_profile, obj, **kw)
    judge_profile(ctx, got, p, "profile:" + how)
    # conformance with the discovered or another profile
    prof = {k: (float(v[0]), float(v[1])) for k, v in got.items()}
    mode = r.choice(["own", "mutated", "partial", "empty"])
    if mode == "mutated":
        prof = {k: (max(0.0, m * r.choice([0.5, 1, 1.5])), r.choice([s, s * 0.5, 0.0, 60.0])) for k, (m, s) in prof.items()}
        prof[("unknown", "activity")] = (5.0, 1.0)
    elif mode == "partial":
        prof = {k: v for k, v in prof.items() if r.random() < 0.5}
    elif mode == "empty":
        prof = {}
    zs = sorted(r.sample([0, 0.25, 0.5, 1, 1.5, 2, 3, 6], 2))
    prev = None
    ids = [c[0] for c in cases]
    if how == "df":                             # results follow the first appearance of the cases
        order = list(dict.fromkeys(obj[kw.get("case_id_key", "case:concept:name")]))
        perm = [ids.index(x) for x in order]
        ids, ds = [ids[i] for i in perm], [ds[i] for i in perm]
    for z in zs:
        res = ctx.call("conformance", pm4py.conformance_temporal_profile, obj, prof, zeta=z, return_diagnostics_dataframe=False, **kw)
        sure, border = judge_conf(ctx, res, ids, ds, prof, z, "conf:" + how)
        cur = Counter((i, x[0], x[1], round(float(x[2]), 3)) for i, l in enumerate(res) for x in l)
        if prev is not None:
            ctx.check(not (cur - prev), "conf:zeta-monotone", f"zeta {zs}: new {list((cur - prev))[:3]}")
        prev = cur
    dg = ctx.call("diagnostics", pm4py.conformance_temporal_profile, obj, prof, zeta=zs[-1], return_diagnostics_dataframe=True, **kw)
    rows = Counter((str(a), str(b), str(c), round(float(d), 3)) for a, b, c, d in zip(dg["case"], dg["source_activity"], dg["target_activity"], dg["throughput"])) if len(dg) else Counter()
    want = Counter((str(ids[i]), str(x[0]), str(x[1]), round(float(x[2]), 3)) for i, l in enumerate(res) for x in l)
    ctx.check(rows == want, "diagnostics", f"diagnostics-list {list((rows - want).items())[:3]}, list-diagnostics {list((want - rows).items())[:3]}")
    ctx.nontrivial(how, mode, len(p), sum(prev.values()), len(ds))


def intervals(ctx):
    r = ctx.rng
    al = c08._interval(gen.rand_alog(r, traces=c20.mk_log(r), ties=0), r)
    al = gen.ALog([c for c in al.cases if c[2]])
    from pm4py.algo.discovery.temporal_profile import algorithm as disc
    from pm4py.algo.conformance.temporal_profile import algorithm as conf
    bh = r.random() < 0.5
    slots = c08._slots(r) or c08._default()
    how = r.choice(["log", "df"])
    obj = al.to_log() if how == "log" else al.to_df(order=r.choice([None, "interleave"]), rng=r)
    P = {"pm4py:param:start_timestamp_key": "start_timestamp"}
    if bh:
        P.update({"business_hours": True, "business_hour_slots": slots})
    ds = delays(al, "start_timestamp", slots if bh else None)
    ctx.ev("event pairs", sum(map(len, ds)))
    p = profile(ds)
    got = ctx.call("discover-int", disc.apply, obj, parameters=dict(P))
    judge_profile(ctx, got, p, f"interval-profile:{how}:bh={bh}")
    prof = {k: (max(0.0, m * r.choice([0.5, 1])), s) for k, (m, s) in got.items()}
    ids = [c[0] for c in al.cases]
    if how == "df":
        order = list(dict.fromkeys(obj["case:concept:name"]))
        perm = [ids.index(x) for x in order]
        ids, ds = [ids[i] for i in perm], [ds[i] for i in perm]
    z = r.choice([0.5, 1, 2])
    res = ctx.call("conf-int", conf.apply, obj, prof, parameters=dict(P, zeta=z))
    judge_conf(ctx, res, ids, ds, prof, z, f"interval-conf:{how}:bh={bh}")
    ctx.nontrivial("int", how, bh, len(p))


FAMILIES = {"profiles": (500, 5000, fam), "intervals": (250, 2500, intervals)}
