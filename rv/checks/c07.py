"""C07 log statistics equal their definitions"""
import statistics as st
import warnings
from collections import Counter
import datetime as dt
from rv import gen, h

warnings.filterwarnings("ignore")
RULE = "a case is non-trivial when the log has >= 2 cases or a repeated activity; distinct by traces and timestamps"
ASSUMPTIONS = ["dataframes are sorted case by case in time order (as format_dataframe leaves them) unless stated"]


def _mk(ctx, **kw):
    al = gen.rand_alog(ctx.rng, micro=ctx.rng.random() < 0.3, **kw)
    tr = al.traces()
    if len(tr) > 1 or any(len(set(t)) < len(t) for t in tr):
        ctx.nontrivial(tuple(map(tuple, tr)), al.cases[0][2][0]["time:timestamp"])
    ctx.ev("traces", len(tr))
    ctx.ev("log_events", al.n_events())
    ctx.sample([" ".join(map(str, t)) for t in tr[:4]])
    return al, tr


def _ts(e):
    return e["time:timestamp"].timestamp()


def fam_counts(ctx):
    import pm4py
    al, tr = _mk(ctx)
    sa, ea = dict(Counter(t[0] for t in tr)), dict(Counter(t[-1] for t in tr))
    occ, per = dict(Counter(a for t in tr for a in t)), dict(Counter(a for t in tr for a in set(t)))
    var = dict(Counter(map(tuple, tr)))
    rew = dict(Counter(a for t in tr for a, n in Counter(t).items() if n > 1))
    a0 = ctx.rng.choice(sorted(occ))
    pos = dict(Counter(i for t in tr for i, x in enumerate(t) if x == a0))
    for kind, log, kw in h.both(ctx.rng, al, order=ctx.rng.choice([None, "interleave", "time"])):
        ctx.eq(h.ints(ctx.call(f"sa:{kind}", pm4py.get_start_activities, log, **kw)), sa, f"start-activities:{kind}")
        ctx.eq(h.ints(ctx.call(f"ea:{kind}", pm4py.get_end_activities, log, **kw)), ea, f"end-activities:{kind}")
        ckw = {k: v for k, v in kw.items() if k == "case_id_key"}
        ak = kw.get("activity_key", "concept:name")
        ctx.eq(h.ints(ctx.call(f"attrv:{kind}", pm4py.get_event_attribute_values, log, ak, **ckw)), occ, f"attribute-values:{kind}")
        ctx.eq(h.ints(ctx.call(f"attrv1:{kind}", pm4py.get_event_attribute_values, log, ak, count_once_per_case=True, **ckw)), per, f"attribute-values-once:{kind}")
        if "kind" in al.cases[0][2][0]:
            exp = dict(Counter(e["kind"] for _, _, ev in al.cases for e in ev))
            ctx.eq(h.ints(pm4py.get_event_attribute_values(log, "kind", **ckw)), exp, f"attribute-values-kind:{kind}")
        v = ctx.call(f"variants:{kind}", pm4py.get_variants, log, **kw)
        ctx.eq({k: (x if isinstance(x, int) else len(x)) if kind == "df" else len(x) for k, x in v.items()}, var, f"variants:{kind}")
        ctx.eq(set(pm4py.get_variants_as_tuples(log, **kw)), set(var), f"variants-as-tuples:{kind}")
        if kind == "log":
            ctx.check(all(all([e[ak] for e in t] == list(k) for t in x) for k, x in v.items()), "variants:log:traces-of-variant")
        ctx.eq(h.ints(ctx.call(f"rework:{kind}", pm4py.get_rework_cases_per_activity, log, **kw)), rew, f"rework:{kind}")
        ctx.eq(h.ints(ctx.call(f"pos:{kind}", pm4py.get_activity_position_summary, log, a0, **kw)), pos, f"activity-position:{kind}")
    # attribute names
    log, df = al.to_log(), al.to_df()
    ev_attrs = set(al.cases[0][2][0])
    tr_attrs = set(al.cases[0][1])
    ctx.eq(set(pm4py.get_event_attributes(log)), ev_attrs, "event-attributes:log")
    ctx.eq({x for x in pm4py.get_event_attributes(df) if not x.startswith("case:")}, ev_attrs, "event-attributes:df")
    ctx.eq({x.replace("case:", "") for x in pm4py.get_trace_attributes(log)} - {"concept:name"}, tr_attrs, "trace-attributes:log")
    ctx.eq({x.replace("case:", "") for x in pm4py.get_trace_attributes(df)} - {"concept:name"}, tr_attrs, "trace-attributes:df")
    from pm4py.statistics.rework.cases.log import get as rl
    from pm4py.statistics.rework.cases.pandas import get as rp
    exp = {c: {"number_activities": len(ev), "rework": len(ev) - len({e["concept:name"] for e in ev})} for c, _, ev in al.cases}
    ctx.eq(rl.apply(log), exp, "rework-per-case:log")
    ctx.eq({k: h.ints(v) for k, v in rp.apply(df).items()}, exp, "rework-per-case:df")


def fam_traceattr(ctx):
    import pm4py
    al, tr = _mk(ctx, attrs=True)
    log, df = al.to_log(), al.to_df(order=ctx.rng.choice([None, "time"]))
    for a in ("region", "amount"):
        exp = dict(Counter(ca[a] for _, ca, _ in al.cases))
        for kind, L in (("log", log), ("df", df)):
            for name in (a, "case:" + a):
                got = ctx.call(f"trace-attr:{kind}", pm4py.get_trace_attribute_values, L, name)
                key = f"trace-attribute-values:{kind}"
                ctx.eq(h.ints(got), exp, key)


def fam_time(ctx):
    import pm4py
    al, tr = _mk(ctx, ties=ctx.rng.choice([0, 0.3]))
    spans = [(_ts(ev[0]), _ts(ev[-1])) for _, _, ev in al.cases]
    dur = {c: s[1] - s[0] for (c, _, _), s in zip(al.cases, spans)}
    starts = sorted(s for s, _ in spans)
    ends = sorted(e for _, e in spans)
    arr = (starts[-1] - starts[0]) / (len(starts) - 1) if len(starts) > 1 else None
    fin = (ends[-1] - ends[0]) / (len(ends) - 1) if len(ends) > 1 else None
    over = [sum(1 for s2, e2 in spans if s2 <= e and e2 >= s) for s, e in spans]
    from pm4py.statistics.traces.generic.log import case_arrival as cal
    from pm4py.statistics.traces.generic.pandas import case_arrival as cap
    for kind, log, kw in h.both(ctx.rng, al, order="case"):
        d = ctx.call(f"durations:{kind}", pm4py.get_all_case_durations, log, **kw)
        ctx.check(len(d) == len(dur) and all(h.close(a, b) for a, b in zip(sorted(d), sorted(dur.values()))), f"case-durations:{kind}", f"{sorted(d)} vs {sorted(dur.values())}")
        for c in ctx.rng.sample(sorted(dur), min(2, len(dur))):
            x = ctx.call(f"duration:{kind}", pm4py.get_case_duration, log, c, **kw)
            ctx.check(h.close(x, dur[c]), f"case-duration:{kind}", f"{x} vs {dur[c]}")
        if arr is not None:
            x = ctx.call(f"arrival:{kind}", pm4py.get_case_arrival_average, log, **kw)
            ctx.check(h.close(x, arr, ab=1e-5), f"arrival-average:{kind}", f"{x} vs {arr}")
            if not kw:
                x = ctx.call(f"dispersion:{kind}", (cal if kind == "log" else cap).get_case_dispersion_avg, log)
                ctx.check(h.close(x, fin, ab=1e-5), f"dispersion-average:{kind}", f"{x} vs {fin}")
        o = ctx.call(f"overlap:{kind}", pm4py.get_case_overlap, log, **kw)
        ctx.eq(list(o), over, f"case-overlap:{kind}")
        if not kw:
            from pm4py.statistics.traces.generic.log import case_statistics as csl
            from pm4py.statistics.traces.generic.pandas import case_statistics as csp
            cd = (csl if kind == "log" else csp).get_cases_description(log)
            ctx.eq(set(cd), set(dur), f"cases-description:{kind}:ids")
            ctx.check(all(h.close(cd[c]["startTime"], s[0]) and h.close(cd[c]["endTime"], s[1]) for (c, _, _), s in zip(al.cases, spans)), f"cases-description:{kind}:times")
            vs = (csl if kind == "log" else csp).get_variant_statistics(log)
            ck = "count" if kind == "log" else "case:concept:name"
            ctx.eq({tuple(v["variant"]): int(v[ck]) for v in vs}, dict(Counter(map(tuple, tr))), f"variant-statistics:{kind}")
            ctx.check([v[ck] for v in vs] == sorted((v[ck] for v in vs), reverse=True), f"variant-statistics:{kind}:order")


def fam_interval(ctx):
    """logs with start timestamps: service time, cycle time, overlapping events"""
    import pm4py
    r = ctx.rng
    al, tr = _mk(ctx)
    for _, _, ev in al.cases:
        for e in ev:
            e["start_timestamp"] = e["time:timestamp"] - dt.timedelta(seconds=r.choice([0, 1, 60, 3600, r.randint(0, 90000)]))
    pts = [(e["start_timestamp"].timestamp(), _ts(e)) for _, _, ev in al.cases for e in ev]
    prod, cur = 0.0, None
    for s, e in sorted(pts):
        if cur is None or s > cur[1]:
            if cur:
                prod += cur[1] - cur[0]
            cur = [s, e]
        else:
            cur[1] = max(cur[1], e)
    prod += cur[1] - cur[0]
    cyc = prod / len(al.cases)
    serv = {}
    for (_, _, ev) in al.cases:
        for e in ev:
            serv.setdefault(e["concept:name"], []).append(_ts(e) - e["start_timestamp"].timestamp())
    over = [sum(1 for s2, e2 in pts if s2 <= e and e2 >= s) for s, e in pts]
    log, df = al.to_log(), al.to_df()
    from pm4py.statistics.traces.cycle_time.log import get as cl
    from pm4py.statistics.traces.cycle_time.pandas import get as cp
    from pm4py.statistics.overlap.interval_events.log import get as ol
    from pm4py.statistics.overlap.interval_events.pandas import get as op
    P = {"pm4py:param:start_timestamp_key": "start_timestamp"}
    agg = {"mean": st.mean, "median": st.median, "min": min, "max": max, "sum": sum}
    for kind, L, c, o in (("log", log, cl, ol), ("df", df, cp, op)):
        x = ctx.call(f"cycle:{kind}", c.apply, L, parameters=_param(c, "start_timestamp"))
        ctx.check(h.close(x, cyc, ab=1e-5), f"cycle-time:{kind}", f"{x} vs {cyc}")
        ctx.eq(list(ctx.call(f"overlap-ev:{kind}", o.apply, L, parameters=_param(o, "start_timestamp"))), over, f"interval-overlap:{kind}")
        m = r.choice(sorted(agg))
        x = ctx.call(f"service:{kind}", pm4py.get_service_time, L, aggregation_measure=m, start_timestamp_key="start_timestamp")
        ctx.check(set(x) == set(serv) and all(h.close(x[a], agg[m](serv[a]), ab=1e-5) for a in serv), f"service-time:{kind}:{m}", f"{x} vs { {a: agg[m](v) for a, v in serv.items()} }")
    # concurrent activities of the same case
    from pm4py.statistics.concurrent_activities.log import get as ccl
    from pm4py.statistics.concurrent_activities.pandas import get as ccp
    strict = r.random() < 0.5
    conc = Counter()
    for _, _, ev in al.cases:
        for i in range(len(ev)):
            for j in range(i + 1, len(ev)):
                a, b = ev[i], ev[j]
                lo, hi = max(a["start_timestamp"], b["start_timestamp"]), min(a["time:timestamp"], b["time:timestamp"])
                if lo < hi or (lo == hi and not strict):
                    conc[tuple(sorted((a["concept:name"], b["concept:name"])))] += 1
    for kind, L, m in (("log", log, ccl), ("df", df, ccp)):
        got = ctx.call(f"concurrent:{kind}", m.apply, L, parameters={m.Parameters.START_TIMESTAMP_KEY: "start_timestamp", m.Parameters.STRICT: strict})
        ctx.eq(h.ints(got), dict(conc), f"concurrent-activities:{kind}")
    for kind, L, kw in h.both(r, gen.ALog([(c, a, [{k: v for k, v in e.items() if k != "start_timestamp"} for e in ev]) for c, a, ev in al.cases]), order="case"):
        # without start timestamps every event is instantaneous
        x = ctx.call(f"cycle0:{kind}", pm4py.get_cycle_time, L, **kw)
        ctx.check(h.close(x, 0.0), f"cycle-time-instant:{kind}", x)


def _param(mod, start):
    return {mod.Parameters.START_TIMESTAMP_KEY: start}


def fam_variants_time(ctx):
    import pm4py
    al, tr = _mk(ctx, n=ctx.rng.choice([3, 6, 10]), mode=ctx.rng.choice(["few", "tree", "uniform"]))
    by = {}
    for c, _, ev in al.cases:
        by.setdefault(tuple(e["concept:name"] for e in ev), []).append(ev)
    df = al.to_df(index=ctx.rng.choice([None, "shuffled", "dup"]), rng=ctx.rng)
    parts = list(ctx.call("split", lambda: list(pm4py.split_by_process_variant(df))))
    ctx.eq(sorted(v for v, _ in parts), sorted(by), "split-by-variant:variants")
    got = sorted(u for _, p in parts for u in p["uid"])
    ctx.eq(got, sorted(e["uid"] for _, _, ev in al.cases for e in ev), "split-by-variant:partition")
    for v, p in parts:
        ctx.eq(sorted(set(p["uid"])), sorted(e["uid"] for ev in by.get(v, []) for e in ev), "split-by-variant:content")
    agg = ctx.rng.choice(["mean", "median", "min", "max", "sum"])
    fn = {"mean": st.mean, "median": st.median, "min": min, "max": max, "sum": sum}[agg]
    if any(len(v) > 1 for v in by):
        res = ctx.call("variants-paths", pm4py.get_variants_paths_duration, df, times_agg=agg)
        exp = {}
        for v, evs in by.items():
            seen = Counter()
            for i in range(len(v) - 1):
                exp[(v, i)] = (v[i], v[i + 1], fn([_ts(ev[i + 1]) - _ts(ev[i]) for ev in evs]), seen[(v[i], v[i + 1])], len(evs))
                seen[(v[i], v[i + 1])] += 1
        g = {(r["@@variant_column"], r["@@index_in_trace"]): (r["concept:name"], r["concept:name_2"], r["@@flow_time"], r["@@cumulative_occ_path_column"], r["@@variant_count"]) for r in res.to_dict("records")}
        ctx.eq(set(g), set(exp), "variants-paths:rows")
        for k in set(g) & set(exp):
            ctx.check(g[k][:2] == exp[k][:2] and h.close(g[k][2], exp[k][2], ab=1e-5) and g[k][3:] == exp[k][3:], "variants-paths:values", f"{k}: {g[k]} vs {exp[k]}")


def _subseqs(t):
    out = {()}
    for a in t:
        out |= {s + (a,) for s in out}
    out.discard(())
    return out


def fam_segments(ctx):
    import pm4py
    try:
        import prefixspan  # noqa
    except ImportError:
        ctx.ev("segments_unavailable")
        return
    al, tr = _mk(ctx, maxlen=6, n=ctx.rng.choice([2, 4, 7]))
    mo = ctx.rng.randint(1, 4)
    c = Counter()
    for t in tr:
        c.update(_subseqs(t))
    exp = {}
    for s, n in c.items():
        if n >= mo:
            k = ["..."]
            for i, a in enumerate(s):
                if i:
                    k.append("...")
                k.append(a)
            exp[tuple(k + ["..."])] = n
    for kind, log, kw in h.both(ctx.rng, al):
        ctx.eq(dict(ctx.call(f"segments:{kind}", pm4py.get_frequent_trace_segments, log, mo, **kw)), exp, f"frequent-segments:{kind}")


FAMILIES = {
    "counts": (200, 8000, fam_counts),
    "traceattr": (60, 2000, fam_traceattr),
    "time": (200, 8000, fam_time),
    "interval": (160, 6000, fam_interval),
    "variants_time": (100, 4000, fam_variants_time),
    "segments": (60, 2000, fam_segments),
}
MINIMUM = {"oracle_checks": 2000, "log_events": 5000}
