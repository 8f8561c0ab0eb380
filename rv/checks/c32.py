"""C32: social networks, roles, network / link analysis, resource profiles and local diagnostics are the ones of the resource behaviour"""
import datetime as dt
import math
import numpy as np
import pandas as pd
import pm4py
from collections import Counter
from fractions import Fraction as F
from pm4py.util import constants
from rv import gen, h

RULE = ("every network (handover with and without causality weight, subcontracting of any depth, working together, activity similarity), role set, network-analysis edge, link, resource-profile metric and "
        "local diagnostic is recomputed from the definition on the generated events and compared, on the event log and on the dataframe (other keys, interleaved rows, other indexes); inputs stay unchanged")
ASSUMPTIONS = ["every event has a resource (missing values only in the group / link columns)", "activity similarity needs at least two activities; constant vectors have no defined correlation (NaN)",
               "roles are compared step by step only when no two similarities tie (otherwise: partition, counts and the absence of similar pairs)",
               "averages over empty periods are not judged (the log variant raises, the dataframe variant gives NaN)", "the social position is read as the share of the cases of the period (both variants)"]
MINIMUM = {"oracle_checks": 1500, "networks": 200, "profiles": 300}
RES = ["Ann", "Bob", "Bob,Cid", "Cid", "Dee", "Ésa", "bob"]


def snap(objs):
    out = []
    for nm, o, kw in objs:
        out.append(pd.util.hash_pandas_object(o, index=True).tolist() + list(o.columns) if nm == "df" else [(dict(t.attributes), [dict(e) for e in t]) for t in o])
    return out


def make(ctx, **kw):
    rng = ctx.rng
    return gen.rand_alog(rng, res=rng.sample(RES, rng.randint(1, 5)), distinct_time=True, **kw)


def rkw(kw):
    kw = dict(kw)
    if kw:
        kw["resource_key"] = "Who"
    return kw


def same(ctx, got, exp, key, **d):
    ok = set(got) == set(exp) and all((math.isnan(exp[k]) and math.isnan(got[k])) or abs(got[k] - exp[k]) <= 1e-9 * max(1, abs(exp[k])) for k in exp)
    ctx.check(ok, key, "the result is not the one of the definition", result={str(k): v for k, v in got.items()}, expected={str(k): v for k, v in exp.items()}, **d)


def fam_sna(ctx):
    rng = ctx.rng
    al = make(ctx)
    seqs = al.traces("org:resource")
    n = rng.choice([2, 2, 1, 3, 4])
    beta = rng.choice([0, 0, 0.5, 1, 0.25])
    # handover
    ho, tot = Counter(), 0
    sub, wt = Counter(), Counter()
    for s in seqs:
        for i in range(len(s)):
            for j in range(i + 1, len(s) if beta else min(i + 2, len(s))):
                w = beta ** (j - i - 1) if beta else 1
                ho[s[i], s[j]] += w
                tot += w
            if i + n < len(s) and s[i] == s[i + n]:
                for j in range(i + 1, i + n):
                    sub[s[i], s[j]] += 1
        for a in set(s):
            for b in set(s):
                if a != b:
                    wt[a, b] += 1
    ho = {k: v / tot for k, v in ho.items()}
    sub = {k: v / len(seqs) for k, v in sub.items()}
    wt = {k: v / len(seqs) for k, v in wt.items()}
    acts = sorted({a for t in al.traces() for a in t})
    cnt = {}
    for _, _, ev in al.cases:
        for e in ev:
            cnt.setdefault(e["org:resource"], Counter())[e["concept:name"]] += 1
    ja = {}
    for a in cnt:
        for b in cnt:
            if a != b and len(acts) >= 2:
                x, y = [cnt[a][k] for k in acts], [cnt[b][k] for k in acts]
                mx, my = sum(x) / len(x), sum(y) / len(y)
                sx, sy = sum((v - mx) ** 2 for v in x), sum((v - my) ** 2 for v in y)
                ja[a, b] = float("nan") if len(set(x)) == 1 or len(set(y)) == 1 else sum((u - mx) * (v - my) for u, v in zip(x, y)) / math.sqrt(sx * sy)
    views = h.both(rng, al)
    before = snap(views)
    ctx.nontrivial("sna", n, beta, len(seqs), len(cnt), len(wt) > 0, len(sub) > 0, tuple(sorted(map(len, seqs)))[-3:])
    for nm, o, kw in views:
        kw = rkw(kw)
        ra = {k: v for k, v in kw.items() if k != "activity_key"}
        ev = dict(view=nm, seqs=seqs)
        r = ctx.call("handover", pm4py.discover_handover_of_work_network, o, beta=beta, **ra)
        same(ctx, r.connections, ho, "handover:" + nm, beta=beta, **ev)
        ctx.check(r.is_directed, "handover:directed", "the network is not directed")
        r = ctx.call("subcontracting", pm4py.discover_subcontracting_network, o, n=n, **ra)
        same(ctx, r.connections, sub, "subcontracting:" + nm, n=n, **ev)
        r = ctx.call("working together", pm4py.discover_working_together_network, o, **ra)
        same(ctx, r.connections, wt, "working_together:" + nm, **ev)
        ctx.check(not r.is_directed, "working_together:directed", "the network is directed")
        if len(acts) >= 2:
            r = ctx.call("similarity", pm4py.discover_activity_based_resource_similarity, o, **kw)
            same(ctx, r.connections, ja, "similarity:" + nm, **ev)
        ctx.ev("networks", 4)
        # graph of a network, with a threshold
        from pm4py.algo.organizational_mining.sna import util as su
        r = ctx.call("handover", pm4py.discover_handover_of_work_network, o, beta=beta, **ra)
        th = rng.choice([0.0, 0.1, 0.3])
        g = ctx.call("graph", su.sna_result_to_nx_graph, r, {"weight_threshold": th})
        ctx.check(set(g.edges) == {k for k, v in r.connections.items() if v >= th}, "sna_graph", "the graph does not contain the connections above the threshold", edges=sorted(map(str, g.edges)))
    ctx.check(snap(views) == before, "input_changed", "the input log has been changed")


def role_sim(a, b):
    ta, tb = sum(a.values()), sum(b.values())
    num = sum(min(F(a[r], ta), F(b[r], tb)) for r in a if r in b)
    den = sum(max(F(a.get(r, 0), ta), F(b.get(r, 0), tb)) for r in set(a) | set(b))
    return num / den


def fam_roles(ctx):
    rng = ctx.rng
    al = make(ctx)
    if rng.random() < 0.6:   # activities tied to resources
        m = {a: rng.sample(RES, rng.randint(1, 3)) for a in {x for t in al.traces() for x in t}}
        for _, _, ev in al.cases:
            for e in ev:
                e["org:resource"] = rng.choice(m[e["concept:name"]])
    cnt = {}
    for _, _, ev in al.cases:
        for e in ev:
            cnt.setdefault(e["concept:name"], Counter())[e["org:resource"]] += 1
    th = rng.choice([None, None, 0.3, 0.5, 0.9])
    t = F(str(th)) if th else F("0.65")
    roles = [((a,), dict(c)) for a, c in sorted(cnt.items())]
    tie = False
    while True:
        sims = sorted(((role_sim(roles[i][1], roles[j][1]), i, j) for i in range(len(roles)) for j in range(i + 1, len(roles))), reverse=True)
        if not sims or sims[0][0] <= t - F(1, 10 ** 9):
            break
        if abs(sims[0][0] - t) < F(1, 10 ** 9):
            tie = True
            break
        if len(sims) > 1 and abs(sims[0][0] - sims[1][0]) < F(1, 10 ** 9) and len({sims[0][1], sims[0][2]} & {sims[1][1], sims[1][2]}) > 0:
            tie = True
        _, i, j = sims[0]
        a, b = roles[i], roles[j]
        roles = [r for k, r in enumerate(roles) if k not in (i, j)] + [(tuple(sorted(a[0] + b[0])), dict(Counter(a[1]) + Counter(b[1])))]
    views = h.both(rng, al)
    before = snap(views)
    ctx.nontrivial("roles", len(cnt), len(roles), th, tie, len({r for c in cnt.values() for r in c}))
    for nm, o, kw in views:
        kw = rkw(kw)
        if th is None:
            got = ctx.call("roles", pm4py.discover_organizational_roles, o, **kw)
        else:
            from pm4py.algo.organizational_mining.roles import algorithm as ra
            from pm4py.utils import get_properties
            par = get_properties(o, **kw)
            par["roles_threshold_parameter"] = th
            got = ctx.call("roles", ra.apply, o, parameters=par)
        g = [(tuple(sorted(r.activities)), dict(r.originator_importance)) for r in got]
        ctx.check(sorted(x for r in g for x in r[0]) == sorted(cnt), "roles:partition", "the roles are no partition of the activities", view=nm, roles=g)
        for a, c in g:
            ctx.eq(c, dict(sum((cnt[x] for x in a), Counter())), "roles:counts:" + nm, activities=a)
        mx = max([role_sim(g[i][1], g[j][1]) for i in range(len(g)) for j in range(i + 1, len(g))], default=F(0))
        ctx.check(mx <= t + F(1, 10 ** 9), "roles:unmerged", "two roles above the threshold have not been merged", view=nm, roles=g, sim=float(mx))
        if not tie:
            ctx.eq(sorted(g, key=str), sorted(roles, key=str), "roles:greedy:" + nm, threshold=float(t))
        ctx.ev("role sets")
    ctx.check(snap(views) == before, "input_changed", "the input log has been changed")


def fam_network(ctx):
    rng = ctx.rng
    al = make(ctx, attrs=True)
    mode = rng.choice(["case", "case", "doc", "doc", "missing"])
    ids = ["d%d" % i for i in range(rng.randint(2, 8))]
    for cid, ca, evs in al.cases:
        for e in evs:
            e["doc"] = rng.choice(ids)
            e["prev"] = rng.choice(ids)
            if mode == "missing":
                if rng.random() < 0.3:
                    e["doc"] = None
                if rng.random() < 0.3:
                    e["prev"] = None
                if rng.random() < 0.2:
                    e["kind"] = None
    df = al.to_df(order=rng.choice([None, "interleave", "time"]), index=rng.choice([None, "shuffled", "dup"]), rng=rng)
    out_c, in_c = ("case:concept:name",) * 2 if mode == "case" else rng.choice([("doc", "prev"), ("doc", "doc")])
    src, tgt = rng.choice([("org:resource", "org:resource"), ("org:resource", "kind"), ("concept:name", "concept:name")])
    edge, ref = rng.choice(["concept:name", "kind", "org:resource"]), rng.choice(["_out", "_in"])
    perf = rng.random() < 0.5
    sortc = rng.choice(["time:timestamp", "time:timestamp", "uid"])
    null = lambda x: x is None or x != x
    rows = sorted(df.to_dict("records"), key=lambda r: r[sortc])
    first = lambda i: next((j for j in range(i + 1, len(rows)) if not null(rows[i][out_c]) and rows[i][out_c] == rows[j][in_c]), None)
    exp = {}
    for i, e in enumerate(rows):
        j = first(i)
        if j is None:
            continue
        x = rows[j]
        ed = (e if ref == "_out" else x)[edge]
        if null(e[src]) or null(x[tgt]) or null(ed):
            continue
        exp.setdefault((e[src], x[tgt]), {}).setdefault(ed, []).append((x["time:timestamp"] - e["time:timestamp"]).total_seconds())
    before = df.copy()
    log = al.to_log() if mode != "missing" and rng.random() < 0.3 and sortc != "uid" else None
    obj = log if log is not None else df
    got = ctx.call("network analysis", pm4py.discover_network_analysis, obj, out_c, in_c, src, tgt, edge, edge_reference=ref, performance=perf, sorting_column=sortc)
    g = {k: {e: (sorted(float(z) for z in v) if perf else int(v)) for e, v in d.items()} for k, d in got.items()}
    x = {k: {e: (sorted(v) if perf else len(v)) for e, v in d.items()} for k, d in exp.items()}
    ctx.nontrivial("network", mode, out_c, src, tgt, edge, ref, perf, min(5, len(x)))
    ctx.eq(g, x, "network_analysis:" + ("missing" if mode == "missing" else "values"), columns=[out_c, in_c, src, tgt, edge, ref], rows=[[r[c] for c in (out_c, in_c, src, tgt, edge)] for r in rows][:30])
    ctx.check(df.equals(before) and list(df.columns) == list(before.columns), "input_changed", "the dataframe has been changed")
    # link analysis
    from pm4py.algo.discovery.ocel.link_analysis import algorithm as la
    from pm4py.algo.discovery.ocel.link_analysis.variants import classic as lc
    look, keep, prop = rng.random() < 0.75, rng.random() < 0.4, rng.random() < 0.4
    n = len(rows)
    if n > 60:
        return
    rel = {i: [j for j in range(n) if (j > i or not look) and not null(rows[i][out_c]) and rows[i][out_c] == rows[j][in_c]] for i in range(n)}
    if keep:
        rel = {i: v[:1] for i, v in rel.items()}
    rel = {i: set(v) for i, v in rel.items()}
    if prop:
        ch = True
        while ch:
            ch = False
            for i in rel:
                new = rel[i].union(*[rel[j] for j in rel[i]])
                if new != rel[i]:
                    rel[i], ch = new, True
    r = ctx.call("link analysis", la.apply, df, parameters={lc.Parameters.OUT_COLUMN: out_c, lc.Parameters.IN_COLUMN: in_c, lc.Parameters.SORTING_COLUMN: sortc, lc.Parameters.LOOK_FORWARD: look,
                                                            lc.Parameters.KEEP_FIRST_OCCURRENCE: keep, lc.Parameters.PROPAGATE: prop})
    pairs = sorted(zip(r["uid_out"].tolist(), r["uid_in"].tolist())) if len(r) else []
    ctx.eq(pairs, sorted((rows[i]["uid"], rows[j]["uid"]) for i in rel for j in rel[i]), "link_analysis", look=look, keep=keep, prop=prop, rows=[[q[c] for c in ("uid", out_c, in_c)] for q in rows][:30])
    ctx.check(df.equals(before) and list(df.columns) == list(before.columns), "input_changed", "the dataframe has been changed")
    ctx.ev("networks")


def fam_profiles(ctx):
    from pm4py.algo.organizational_mining.resource_profiles import algorithm as rp
    rng = ctx.rng
    al = make(ctx, n=rng.randint(2, 8)) if False else make(ctx)
    interval = rng.random() < 0.35
    evs = [(cid, i, e) for cid, _, ev in al.cases for i, e in enumerate(ev)]
    for cid, i, e in evs:
        e["start_timestamp"] = e["time:timestamp"] - dt.timedelta(seconds=rng.randrange(0, 4000))
    if not interval and rng.random() < 0.7:
        for cid, i, e in evs:
            del e["start_timestamp"]
    allt = sorted(e["time:timestamp"] for _, _, e in evs)
    t1, t2 = sorted(rng.choice(allt + [allt[0] - dt.timedelta(days=1), allt[-1] + dt.timedelta(days=1)]) for _ in range(2))
    if rng.random() < 0.3:
        t1, t2 = allt[0], allt[-1] + dt.timedelta(seconds=1)
    s1, s2 = (x.strftime("%Y-%m-%d %H:%M:%S") for x in (t1, t2))
    rs = sorted({e["org:resource"] for _, _, e in evs})
    r, r2 = rng.choice(rs), rng.choice(rs)
    a = rng.choice(sorted({e["concept:name"] for _, _, e in evs}))
    inp = lambda t: t1 <= t < t2
    mine = [e for _, _, e in evs if e["org:resource"] == r and inp(e["time:timestamp"])]
    cases = {cid: ev for cid, _, ev in al.cases if ev}
    rin = lambda ev, q: any(e["org:resource"] == q for e in ev)
    done = {c for c, ev in cases.items() if inp(ev[-1]["time:timestamp"])}
    start = {}
    for cid, _, ev in al.cases:
        for i, e in enumerate(ev):
            start[e["uid"]] = e["start_timestamp"] if interval else (ev[i - 1]["time:timestamp"] if i else e["time:timestamp"])
    iv = [(start[e["uid"]], e["time:timestamp"]) for _, _, e in evs if e["org:resource"] == r]
    wl = {x: sum(1 for y in iv if y[0] <= x[1] and x[0] <= y[1]) for x in iv}
    sec = lambda x: (x[1] - x[0]).total_seconds()
    op = [x for x in iv if x[0] < t2 <= x[1]]
    ins = [x for x in iv if x[0] >= t1 and x[1] <= t2]
    div = lambda p, q: p / q if q else 0.0
    act = {c for c, ev in cases.items() if any(inp(e["time:timestamp"]) for e in ev)}
    soc = {c for c in act if any(inp(e["time:timestamp"]) and e["org:resource"] == r for e in cases[c])}
    exp = {
        "distinct_activities": len({e["concept:name"] for e in mine}),
        "activity_frequency": div(sum(e["concept:name"] == a for e in mine), len(mine)),
        "activity_completions": len(mine),
        "case_completions": sum(rin(cases[c], r) for c in done),
        "fraction_case_completions": div(sum(rin(cases[c], r) for c in done), len(done)),
        "average_workload": div(sum(wl[x] * sec(x) for x in op), sum(map(sec, op))),
        "multitasking": div(sum(sec(x) for x in ins if wl[x] > 1), sum(map(sec, ins))),
        "interaction_two_resources": sum(rin(cases[c], r) and rin(cases[c], r2) for c in done),
        "social_position": div(len(soc), len(act)),
    }
    dur = [sec((start[e["uid"]], e["time:timestamp"])) for e in mine if e["concept:name"] == a]
    if dur:
        exp["average_duration_activity"] = sum(dur) / len(dur)
    views = h.both(rng, al)
    ck = [ev for ev in cases.values() if rin(ev, r) and ev[0]["time:timestamp"] <= t2 and ev[-1]["time:timestamp"] >= t1]
    if ck:   # cases intersecting the period (closed)
        exp["average_case_duration"] = sum((ev[-1]["time:timestamp"] - ev[0]["time:timestamp"]).total_seconds() for ev in ck) / len(ck)
        acd_start = sum((ev[-1]["time:timestamp"] - start[ev[0]["uid"]]).total_seconds() for ev in ck) / len(ck)
    before = snap(views)
    ctx.nontrivial("profiles", interval, len(mine), len(done), len(op), len(ins), len(ck), r == r2)
    for nm, o, kw in views:
        par = {}
        if kw:
            par = {"pm4py:param:resource_key": "Who", "pm4py:param:activity_key": "Act", "pm4py:param:timestamp_key": "When"}
            if nm == "df":
                par["pm4py:param:case_id_key"] = "Cid"
        if interval:
            par["pm4py:param:start_timestamp_key"] = "start_timestamp"
        for m, x in exp.items():
            args = {"activity_frequency": (r, a), "average_duration_activity": (r, a), "interaction_two_resources": (r, r2)}.get(m, (r,))
            if m == "average_case_duration" and interval and nm == "df":
                x = acd_start   # from the start of the first event
            p1, p2 = (t1, t2) if rng.random() < 0.2 else (s1, s2)
            got = ctx.call(m, getattr(rp, m), o, p1, p2, *args, parameters=dict(par))
            ctx.check(abs(float(got) - x) <= 1e-6 * max(1, abs(x)), "profile:" + m + ":" + nm, "the metric is not the one of the definition", result=float(got), expected=x, interval=interval, args=args, period=[s1, s2],
                      events=[(c, e["concept:name"], e["org:resource"], str(start[e["uid"]]), str(e["time:timestamp"])) for c, _, e in evs][:30])
        ctx.ev("profiles", len(exp))
    ctx.check(snap(views) == before, "input_changed", "the input log has been changed", interval=interval)


def fam_diag(ctx):
    from pm4py.algo.organizational_mining.local_diagnostics import algorithm as ld
    from pm4py.algo.organizational_mining import util as ou
    rng = ctx.rng
    al = make(ctx)
    rs = sorted({e["org:resource"] for _, _, ev in al.cases for e in ev})
    withg = rng.random() < 0.7
    gm = {r: rng.choice(["g1", "g2", "g3"]) for r in rs}
    miss = withg and rng.random() < 0.4
    for _, _, ev in al.cases:
        for e in ev:
            if withg:
                e["org:group"] = gm[e["org:resource"]] if rng.random() < 0.8 else rng.choice(["g1", "g2"])
                if miss and rng.random() < 0.3:
                    e["org:group"] = None
    E = [e for _, _, ev in al.cases for e in ev]
    ra, ar, rc, gr = {}, {}, Counter(), {}
    for e in E:
        ra.setdefault(e["org:resource"], Counter())[e["concept:name"]] += 1
        ar.setdefault(e["concept:name"], Counter())[e["org:resource"]] += 1
        rc[e["org:resource"]] += 1
        if withg and e["org:group"] is not None:
            gr.setdefault(e["org:group"], Counter())[e["org:resource"]] += 1

    def diag(groups):
        foc = {g: {a: sum(v for r, v in ar[a].items() if r in m) / sum(ar[a].values()) for a in ar} for g, m in groups.items()}
        stake = {g: {a: sum(v for r, v in ar[a].items() if r in m) / sum(sum(v for r, v in ar[b].items() if r in m) for b in ar) for a in ar} for g, m in groups.items()}
        cov = {g: {r: v / sum(m.values()) for r, v in m.items()} for g, m in groups.items()}
        con = {g: {r: dict(ra[r]) for r in m} for g, m in groups.items()}
        return {"group_relative_focus": foc, "group_relative_stake": stake, "group_coverage": cov, "group_member_contribution": con}

    def cmp(got, exp, key):
        for k in exp:
            fl = lambda d: {(g, x): (v if not isinstance(v, dict) else tuple(sorted((q, int(w)) for q, w in v.items()))) for g, m in d.items() for x, v in m.items()}
            a, b = fl(got[k]), fl(exp[k])
            ok = set(a) == set(b) and all(a[x] == b[x] if isinstance(b[x], tuple) else abs(a[x] - b[x]) < 1e-9 for x in b)
            ctx.check(ok, "diagnostics:" + k + ":" + key, "the diagnostic is not the one of the definition", result=str(a)[:600], expected=str(b)[:600])
    if miss:   # logs: the attribute is absent from the event
        views = h.both(rng, al)
        for t in views[0][1]:
            for e in t:
                if e["org:group"] is None:
                    del e["org:group"]
    else:
        views = h.both(rng, al)
    cl = {}
    for r in rs:
        cl.setdefault(rng.choice("xyz"), []).append(r)
    before = snap(views)
    ctx.nontrivial("diag", withg, miss, len(rs), len(gr), len(ar))
    for nm, o, kw in views:
        par = {"pm4py:param:resource_key": "Who", "pm4py:param:activity_key": "Act", "pm4py:param:timestamp_key": "When", "pm4py:param:case_id_key": "Cid"} if kw else {}
        got = ctx.call("res_act", ou.get_res_act_from_log, o, parameters=dict(par))
        ctx.eq({r: {a: int(v) for a, v in d.items() if v} for r, d in got[0].items()}, {r: dict(c) for r, c in ra.items()}, "res_act:" + nm)
        ctx.eq({r: {a: int(v) for a, v in d.items() if v} for r, d in got[1].items()}, {r: dict(c) for r, c in ar.items()}, "act_res:" + nm)
        ctx.eq(h.ints(ctx.call("resources", ou.get_resources_from_log, o, parameters=dict(par))), dict(rc), "resources:" + nm)
        cmp(ctx.call("clustering diagnostics", ld.apply_from_clustering_or_roles, o, cl, parameters=dict(par)), diag({g: {r: rc[r] for r in m} for g, m in cl.items()}), "cluster:" + nm)
        roles = ctx.call("roles", pm4py.discover_organizational_roles, o, **rkw(kw))
        cmp(ctx.call("roles diagnostics", ld.apply_from_clustering_or_roles, o, roles, parameters=dict(par)), diag({str(i): {x: rc[x] for x in q.originator_importance} for i, q in enumerate(roles)}), "roles:" + nm)
        if withg and gr:
            ctx.eq({g: h.ints(d) for g, d in ctx.call("groups", ou.get_groups_from_log, o, parameters=dict(par)).items()}, {g: dict(c) for g, c in gr.items()}, "groups:" + nm)
            cmp(ctx.call("group diagnostics", ld.apply_from_group_attribute, o, parameters=dict(par)), diag(gr), "groups:" + nm)
        ctx.ev("diagnostics")
    ctx.check(snap(views) == before, "input_changed", "the input log has been changed")


FAMILIES = {
    "sna": (120, 1500, fam_sna),
    "roles": (80, 1000, fam_roles),
    "network": (120, 1500, fam_network),
    "profiles": (120, 1500, fam_profiles),
    "diag": (80, 800, fam_diag),
}
