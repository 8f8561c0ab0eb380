"""C08 time performance figures, including business hours, are exact"""
import datetime as dt
import importlib
import math
import statistics as st
import warnings
from rv import gen, h

warnings.filterwarnings("ignore")
RULE = "a case is non-trivial when the compared interval or log contains at least one positive duration; distinct by instants/slots or log"
ASSUMPTIONS = ["both instants carry the same UTC offset", "slots lie inside the week and distinct slots are adjacent, overlapping or at least 2 s apart (1-second gaps are closed by design)"]
WEEK = 7 * 86400


def _slots(r):
    k = r.random()
    if k < 0.15:
        return None
    if k < 0.25:
        return [(0, WEEK)]
    n = r.randint(1, 6)
    g = r.choice([1, 60, 3600, 86400])
    pts = [(r.randrange(0, WEEK // g)) * g for _ in range(2 * n)]
    out = []
    for i in range(n):
        a, b = sorted((pts[2 * i], pts[2 * i + 1]))
        if a == b:
            b = min(WEEK, a + g)
        out.append((a, b))
    if r.random() < 0.3:
        d = r.randrange(7)
        out.append((d * 86400, d * 86400 + 86400))
    u = sorted(out)
    for i in range(1, len(u)):
        if max(b for _, b in u[:i]) + 1 == u[i][0]:
            return _slots(r)
    r.shuffle(out)
    return out


def _default():
    return [((d * 24 + 7) * 3600, (d * 24 + 17) * 3600) for d in range(5)]


def ref_bh(a, b, slots):
    """business seconds of [a, b]: interval intersection over absolute time"""
    if b <= a:
        return 0.0
    mon = dt.datetime(2019, 12, 30)
    x, y = (a - mon).total_seconds(), (b - mon).total_seconds()
    u = []
    for s, e in sorted(slots):
        if u and u[-1][1] >= s:
            u[-1][1] = max(u[-1][1], e)
        else:
            u.append([s, e])
    tot = 0.0
    for w in range(math.floor(x / WEEK), math.floor(y / WEEK) + 1):
        for s, e in u:
            lo, hi = max(x, w * WEEK + s), min(y, w * WEEK + e)
            if hi > lo:
                tot += hi - lo
    return tot


def fam_hours(ctx):
    from pm4py.util.business_hours import BusinessHours, soj_time_business_hours_diff
    r = ctx.rng
    for _ in range(20):
        slots = _slots(r)
        eff = slots if slots is not None else _default()
        a = dt.datetime(2020, 1, 1) + dt.timedelta(seconds=r.randrange(0, 400 * 86400))
        if r.random() < 0.3:
            a = a.replace(hour=0, minute=0, second=0)
        if r.random() < 0.3:       # exactly on a slot border
            mon = a.replace(hour=0, minute=0, second=0) - dt.timedelta(days=a.weekday())
            a = mon + dt.timedelta(seconds=r.choice(r.choice(eff)))
        b = a + dt.timedelta(seconds=r.choice([0, r.randrange(100), r.randrange(86400), r.randrange(8 * 86400), r.randrange(60 * 86400), WEEK, 2 * WEEK]), microseconds=r.choice([0, 0, r.randrange(1000000)]))
        c = a + (b - a) * r.random()
        c = c.replace(microsecond=c.microsecond)
        tz = r.choice([None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=5, minutes=30))])
        A, B, C = (x.replace(tzinfo=tz) for x in (a, b, c))
        kw = {} if slots is None else {"business_hour_slots": slots}

        def f(p, q):
            return BusinessHours(p, q, **kw).get_seconds()
        got = ctx.call("business-hours", f, A, B)
        exp = ref_bh(a, b, eff)
        ctx.check(h.close(got, exp, ab=1e-5), "business-hours", lambda: f"{A} .. {B} slots {slots}: {got} expected {exp}")
        ctx.check(got <= (b - a).total_seconds() + 1e-6 and got >= 0, "business-hours-bound", f"{A} {B} {slots} {got}")
        x, y = f(A, C), f(C, B)
        ctx.check(h.close(x + y, got, ab=1e-5), "business-hours-additive", lambda: f"{A}..{C}..{B} {slots}: {x}+{y} != {got}")
        if slots is not None:
            z = ctx.call("soj", soj_time_business_hours_diff, A, B, slots)
            ctx.check(h.close(z, exp, ab=1e-5), "soj-business-hours", f"{z} {exp}")
        if exp > 0:
            ctx.nontrivial(a.isoformat(), b.isoformat(), tuple(eff))
        ctx.ev("intervals")
    ctx.sample(f"{A} .. {B} slots={slots} -> {got}")


def _gaps(al, bh=None, start=None):
    d = {}
    for _, _, ev in al.cases:
        for x, y in zip(ev, ev[1:]):
            s, e = x["time:timestamp"], y[start or "time:timestamp"]
            if bh is None:
                v = (e - s).total_seconds()
            else:
                v = ref_bh(s.replace(tzinfo=None), e.replace(tzinfo=None), bh)
            d.setdefault((x["concept:name"], y["concept:name"]), []).append(max(0.0, v))
    return d


def _agg(xs):
    return dict(mean=st.mean(xs), median=st.median(xs), min=min(xs), max=max(xs), sum=sum(xs), stdev=st.stdev(xs) if len(xs) > 1 else 0.0)


def _log(ctx, **kw):
    al = gen.rand_alog(ctx.rng, ties=ctx.rng.choice([0, 0, 0.3]), micro=ctx.rng.random() < 0.3, **kw)
    if any(len(ev) > 1 for _, _, ev in al.cases):
        ctx.nontrivial("log", tuple((c, tuple((e["concept:name"], e["time:timestamp"].isoformat()) for e in ev)) for c, _, ev in al.cases))
    ctx.ev("log_events", al.n_events())
    ctx.sample([" ".join(t) for t in al.traces()[:4]])
    return al


def _same(ctx, got, exp, key):
    """compare one aggregated dictionary; an undefined standard deviation may be 0 or nan"""
    if not ctx.check(set(got) == set(exp), key + ":pairs", lambda: f"{sorted(map(str, set(got) ^ set(exp)))}"):
        return
    for p in exp:
        for m, v in _agg(exp[p]).items():
            g = got[p][m]
            ok = (m == "stdev" and len(exp[p]) == 1 and (math.isnan(g) or g == 0)) or h.close(g, v, rel=1e-7, ab=1e-4)
            ctx.check(ok, f"{key}:{m}", lambda: f"{p} {m}: {g} expected {v} from {exp[p]}")


def fam_pdfg(ctx):
    import pm4py
    r = ctx.rng
    al = _log(ctx)
    slots = _slots(r) or _default()
    tr = al.traces()
    for bh in (False, True):
        exp = _gaps(al, slots if bh else None)
        for kind, log, kw in h.both(r, al):
            if bh:
                kw = dict(kw, business_hours=True, business_hour_slots=slots)
            d, s, e = ctx.call(f"pdfg:{kind}:{bh}", pm4py.discover_performance_dfg, log, **kw)
            _same(ctx, d, exp, f"performance-dfg:{kind}:bh={bh}")
            ctx.eq(h.ints(s), {a: [t[0] for t in tr].count(a) for a in {t[0] for t in tr}}, f"performance-start:{kind}")
            ctx.eq(h.ints(e), {a: [t[-1] for t in tr].count(a) for a in {t[-1] for t in tr}}, f"performance-end:{kind}")
    from pm4py.algo.discovery.dfg.variants import performance as perf
    from pm4py.algo.discovery.dfg.adapters.pandas import df_statistics as dfs
    exp = _gaps(al)
    log, df = al.to_log(), al.to_df(order=r.choice([None, "interleave"]), rng=r)
    for m in ("mean", "median", "min", "max", "sum", "stdev"):
        g = ctx.call("perf-" + m, perf.apply, log, parameters={perf.Parameters.AGGREGATION_MEASURE: m})
        ctx.check(set(g) == set(exp) and all(h.close(g[p], _agg(exp[p])[m], rel=1e-7, ab=1e-4) for p in exp), f"performance-{m}:log", lambda: f"{dict(g)} {exp}")
        if m != "stdev":
            g = ctx.call("dfperf-" + m, dfs.get_dfg_graph, df, measure="performance", perf_aggregation_key=m)
            ctx.check(set(g) == set(exp) and all(h.close(g[p], _agg(exp[p])[m], rel=1e-7, ab=1e-4) for p in exp), f"performance-{m}:df", lambda: f"{dict(g)} {exp}")
    g = ctx.call("perf-raw", perf.apply, log, parameters={perf.Parameters.AGGREGATION_MEASURE: "raw_values"})
    g2 = ctx.call("dfperf-raw", dfs.get_dfg_graph, df, measure="performance", perf_aggregation_key="raw_values")
    for kind, q in (("log", g), ("df", g2)):
        ctx.check({k: sorted(round(x, 3) for x in v) for k, v in q.items()} == {k: sorted(round(x, 3) for x in v) for k, v in exp.items()}, f"performance-raw:{kind}", lambda: f"{q} {exp}")
    if "cost" in al.cases[0][2][0]:
        cost = {}
        for _, _, ev in al.cases:
            for x, y in zip(ev, ev[1:]):
                cost.setdefault((x["concept:name"], y["concept:name"]), []).append(y["cost"])
        g = ctx.call("dfcost", dfs.get_dfg_graph, df.copy(), measure="cost", cost_attribute="cost", perf_aggregation_key="sum")
        ctx.check(set(g) == set(cost) and all(h.close(g[p], sum(cost[p]), ab=1e-4) for p in cost), "cost-dfg", lambda: f"{g} {cost}")


def _interval(al, r):
    for _, _, ev in al.cases:
        prev = None
        for e in ev:
            t = e["time:timestamp"]
            room = 3600 if prev is None else max(0, int((t - prev).total_seconds() * r.choice([0.5, 1])))
            e["start_timestamp"] = t - dt.timedelta(seconds=r.randint(0, room))
            prev = t
    return al


def fam_interval(ctx):
    """start timestamps: gaps run from completion to the next start; service times in business hours"""
    r = ctx.rng
    al = _interval(_log(ctx), r)
    slots = _slots(r) or _default()
    from pm4py.algo.discovery.dfg.variants import performance as perf
    from pm4py.algo.discovery.dfg.adapters.pandas import df_statistics as dfs
    log, df = al.to_log(), al.to_df()
    for bh in (False, True):
        exp = _gaps(al, slots if bh else None, start="start_timestamp")
        P = {perf.Parameters.START_TIMESTAMP_KEY: "start_timestamp", perf.Parameters.AGGREGATION_MEASURE: "all", perf.Parameters.BUSINESS_HOURS: bh, perf.Parameters.BUSINESS_HOUR_SLOTS: slots}
        _same(ctx, ctx.call("perf-int", perf.apply, log, parameters=P), exp, f"interval-performance:log:bh={bh}")
        tied = any(x["time:timestamp"] == y["time:timestamp"] or x["start_timestamp"] >= y["start_timestamp"] for _, _, ev in al.cases for x, y in zip(ev, ev[1:]))
        if not tied:
            g = ctx.call("dfperf-int", dfs.get_dfg_graph, df.copy(), measure="performance", perf_aggregation_key="all", start_timestamp_key="start_timestamp", business_hours=bh, business_hours_slot=slots)
            _same(ctx, g, exp, f"interval-performance:df:bh={bh}")
        serv = {}
        for _, _, ev in al.cases:
            for e in ev:
                a, b = e["start_timestamp"].replace(tzinfo=None), e["time:timestamp"].replace(tzinfo=None)
                serv.setdefault(e["concept:name"], []).append(ref_bh(a, b, slots) if bh else (b - a).total_seconds())
        for kind, L in (("log", log), ("df", df)):
            m = r.choice(["mean", "median", "min", "max", "sum"])
            sm = importlib.import_module("pm4py.statistics.service_time.%s.get" % ("log" if kind == "log" else "pandas"))
            g = ctx.call("service", sm.apply, L, parameters={"business_hours": bh, "business_hour_slots": slots, sm.Parameters.START_TIMESTAMP_KEY: "start_timestamp", "aggregationMeasure": m})
            ctx.check(set(g) == set(serv) and all(h.close(g[a], _agg(serv[a])[m], ab=1e-4) for a in serv), f"service-time:{kind}:bh={bh}", lambda: f"{m} {g} {serv}")


def fam_duration(ctx):
    import pm4py
    r = ctx.rng
    al = _log(ctx)
    slots = _slots(r) or _default()
    exp = {c: ref_bh(ev[0]["time:timestamp"].replace(tzinfo=None), ev[-1]["time:timestamp"].replace(tzinfo=None), slots) for c, _, ev in al.cases}
    act = r.choice(sorted({e["concept:name"] for _, _, ev in al.cases for e in ev}))
    for kind, log, kw in h.both(r, al, order="case"):
        d = ctx.call(f"dur:{kind}", pm4py.get_all_case_durations, log, business_hours=True, business_hour_slots=slots, **kw)
        ctx.check(len(d) == len(exp) and all(h.close(a, b, ab=1e-4) for a, b in zip(d, sorted(exp.values()))), f"bh-durations:{kind}", lambda: f"{d} {sorted(exp.values())}")
        c = r.choice(sorted(exp))
        x = ctx.call(f"dur1:{kind}", pm4py.get_case_duration, log, c, business_hours=True, business_hour_slots=slots, **kw)
        ctx.check(h.close(x, exp[c], ab=1e-4), f"bh-duration:{kind}", f"{x} {exp[c]}")
        # temporal profile under business hours
        from pm4py.algo.discovery.temporal_profile import algorithm as tp
        from pm4py.utils import get_properties
        P = get_properties(log, **kw)
        prof_w = ctx.call(f"tp:{kind}", tp.apply, log, parameters=dict(P))
        P.update({"business_hours": True, "business_hour_slots": slots})
        prof = ctx.call(f"tpb:{kind}", tp.apply, log, parameters=P)
        ew, eb = {}, {}
        for _, _, ev in al.cases:
            for i in range(len(ev)):
                for j in range(i + 1, len(ev)):
                    a, b = ev[i]["time:timestamp"], ev[j]["time:timestamp"]
                    k = (ev[i]["concept:name"], ev[j]["concept:name"])
                    ew.setdefault(k, []).append((b - a).total_seconds())
                    eb.setdefault(k, []).append(ref_bh(a.replace(tzinfo=None), b.replace(tzinfo=None), slots))
        for nm, g, e in (("wall", prof_w, ew), ("bh", prof, eb)):
            ctx.check(set(g) == set(e), f"temporal-profile-{nm}:{kind}:pairs", lambda: f"{set(g) ^ set(e)}")
            for k in set(g) & set(e):
                q = _agg(e[k])
                ctx.check(h.close(g[k][0], q["mean"], rel=1e-7, ab=1e-4) and h.close(g[k][1], q["stdev"], rel=1e-6, ab=1e-3), f"temporal-profile-{nm}:{kind}", lambda: f"{k} {g[k]} {q}")
        # average time from / to an activity
        L = "log" if kind == "log" else "pandas"
        alg = importlib.import_module(f"pm4py.statistics.passed_time.{L}.algorithm")
        P = get_properties(log, **kw)
        for var in ("PRE", "POST", "PREPOST"):
            g = ctx.call(f"passed:{kind}:{var}", alg.apply, log, act, variant=getattr(alg.Variants, var), parameters=dict(P))
            for side, name in ((1, "pre"), (0, "post")):
                if name not in g:
                    continue
                gaps = {k: v for k, v in _gaps(al).items() if k[side] == act}
                ctx.eq({(x[0], x[2]) for x in g[name]}, {(k[1 - side], len(v)) for k, v in gaps.items()}, f"passed-time:{kind}:{name}")
                ctx.check(all(h.close(x[1], st.mean(gaps[(x[0], act) if side else (act, x[0])]), ab=1e-4) for x in g[name]), f"passed-time-mean:{kind}:{name}")
                al_ = [x for v in gaps.values() for x in v]
                ctx.check(h.close(g[name + "_avg_perf"], st.mean(al_) if al_ else 0.0, ab=1e-4), f"passed-time-avg:{kind}:{name}", lambda: f"{g} {gaps}")


def fam_options(ctx):
    """options of the dataframe edges (window, once per case, other target attribute, presorted input, costs) and case arrival in business hours"""
    from pm4py.algo.discovery.dfg.adapters.pandas import df_statistics as dfs
    from pm4py.algo.discovery.dfg.variants import performance as perf, freq_triples
    r = ctx.rng
    al = _log(ctx)
    slots = _slots(r) or _default()
    for _, _, ev in al.cases:
        for e in ev:
            if r.random() < 0.3:
                e.pop("cost", None)
    al.cases[0][2][0]["cost"] = 2.5
    win, once, tgt = r.choice([1, 1, 2, 3]), r.random() < 0.3, r.choice([None, None, "kind"])
    presorted = r.random() < 0.4
    df = al.to_df(order="case" if presorted else r.choice([None, "interleave"]), rng=r)
    before = df.copy()
    tk = tgt or "concept:name"
    cost, freq, gap = {}, {}, {}
    for c, _, ev in al.cases:
        seen = set()
        for x, y in zip(ev, ev[win:]):
            k = (x["concept:name"], y[tk])
            if once and k in seen:
                continue
            seen.add(k)
            freq[k] = freq.get(k, 0) + 1
            cost.setdefault(k, []).append(y.get("cost", 0))
            gap.setdefault(k, []).append((y["time:timestamp"] - x["time:timestamp"]).total_seconds())
    ties = any(x["time:timestamp"] == y["time:timestamp"] for _, _, ev in al.cases for x, y in zip(ev, ev[1:]))
    kw = dict(window=win, keep_once_per_case=once, target_activity_key=tgt)
    if presorted:
        kw["sort_caseid_required"] = r.random() < 0.5
    if not ties or kw.get("sort_caseid_required") is False:
        g = ctx.call("dfg-options", dfs.get_dfg_graph, df, measure="frequency", **kw)
        ctx.eq(h.ints(g), freq, "dfg-options:frequency", options=str(kw))
        both = ctx.call("dfg-options", dfs.get_dfg_graph, df, measure="both", perf_aggregation_key="all", **kw)
        ctx.eq(h.ints(both[0]), freq, "dfg-options:both:frequency", options=str(kw))
        if not once:                        # (the first of several occurrences: the values of "once per case" are not specified)
            _same(ctx, both[1], gap, "dfg-options:both:performance")
            _same(ctx, ctx.call("dfcost", dfs.get_dfg_graph, df, measure="cost", cost_attribute="cost", perf_aggregation_key="all", **kw), cost, "cost-dfg:options")
            ctx.ev("cost edges", len(cost))
    ctx.check(df.equals(before), "dfg-options:input", "the dataframe was modified")
    log = al.to_log()
    pc = {}
    for _, _, ev in al.cases:
        for x, y in zip(ev, ev[1:]):
            pc.setdefault((x["concept:name"], y["concept:name"]), []).append(y.get("cost", 0))
    tri = {}
    for t in al.traces():
        for k in zip(t, t[1:], t[2:]):
            tri[k] = tri.get(k, 0) + 1
    ctx.eq(h.ints(ctx.call("triples", freq_triples.apply, log)), tri, "frequent-triples:log")
    # average distance between the starts (ends) of the cases
    from pm4py.statistics.traces.generic.log import case_arrival as ca
    from pm4py.statistics.traces.generic.pandas import case_arrival as cp
    for nm, f, fp, i in (("arrival", ca.get_case_arrival_avg, cp.get_case_arrival_avg, 0), ("dispersion", ca.get_case_dispersion_avg, cp.get_case_dispersion_avg, -1)):
        ts = sorted(ev[i]["time:timestamp"] for _, _, ev in al.cases)
        naive = [t.replace(tzinfo=None) for t in ts]
        wall = [(b - a).total_seconds() for a, b in zip(ts, ts[1:])]
        bus = [ref_bh(a, b, slots) for a, b in zip(naive, naive[1:])]
        ctx.check(h.close(ctx.call(nm, f, log), st.mean(wall) if wall else 0.0, ab=1e-4), f"{nm}:log")
        got = ctx.call(nm, f, log, parameters={ca.Parameters.BUSINESS_HOURS: True, ca.Parameters.BUSINESS_HOUR_SLOTS: slots})
        ctx.check(h.close(got, st.mean(bus) if bus else 0.0, ab=1e-4), f"{nm}:business-hours:log", lambda: f"{got} for {bus}, slots {slots}")
        if wall:
            ctx.check(h.close(ctx.call(nm, fp, df), st.mean(wall), ab=1e-4), f"{nm}:df")
        ctx.ev("case distances", len(wall))


FAMILIES = {
    "options": (120, 4000, fam_options),
    "hours": (400, 20000, fam_hours),
    "pdfg": (100, 4000, fam_pdfg),
    "interval": (100, 4000, fam_interval),
    "duration": (80, 3000, fam_duration),
}
MINIMUM = {"oracle_checks": 5000, "intervals": 2000}
