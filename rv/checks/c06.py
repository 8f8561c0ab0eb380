"""C06: log filters keep exactly the cases/events they promise (reference predicates over uniquely numbered events)."""
import datetime as dt

from .. import gen, h

RULE = "survivors of a filter (case id -> event uids, in order) = reference predicate over the raw traces"
ASSUMPTIONS = ["activity, timestamp and case columns are present on every event; other attributes may be missing",
               "rows of one case appear in order; cases may be interleaved and the index arbitrary"]
INF = 10 ** 12


def canon(res, kw):
    """case id -> list of uids (empty traces dropped)"""
    from pm4py.objects.log.obj import EventLog
    out = {}
    if isinstance(res, EventLog):
        for t in res:
            if len(t):
                out.setdefault(t.attributes["concept:name"], []).extend(e["uid"] for e in t)
        return out
    ck = kw.get("case_id_key", "case:concept:name")
    for c, u in zip(res[ck].tolist(), res["uid"].tolist()):
        out.setdefault(c, []).append(int(u))
    return out


class W:
    """workload: abstract log + expected-survivor helpers"""

    def __init__(self, ctx, alog):
        self.ctx, self.a, self.rng = ctx, alog, ctx.rng
        self.tr = {c: [e["concept:name"] for e in ev] for c, _, ev in alog.cases}
        self.ev = {c: ev for c, _, ev in alog.cases}
        self.ca = {c: ca for c, ca, _ in alog.cases}
        self.labs = sorted({a for t in self.tr.values() for a in t})

    def cases(self, pred):
        return {c: [e["uid"] for e in self.ev[c]] for c in self.tr if pred(c)}

    def events(self, pred):
        r = {c: [e["uid"] for e in self.ev[c] if pred(e)] for c in self.tr}
        return {c: u for c, u in r.items() if u}

    def lab(self):
        return self.rng.choice(self.labs) if self.rng.random() < 0.95 else "zz-unknown"

    def some(self, pool, k=3):
        return [self.rng.choice(pool) for _ in range(self.rng.randint(1, k))]

    def coll(self, xs):
        return self.rng.choice([list, set, tuple])(xs)


def K(kw, *names):
    m = {"a": "activity_key", "t": "timestamp_key", "c": "case_id_key"}
    return {m[n]: kw[m[n]] for n in names if m[n] in kw}


def dur(ev):
    return (ev[-1]["time:timestamp"] - ev[0]["time:timestamp"]).total_seconds()


def subseq(t, rel):
    a, b = rel
    return any(t[i] == a and b in t[i + 1:] for i in range(len(t)))


def seg_match(t, infix):
    pos = {0}
    for x in infix:
        if x == "...":
            pos = set(range(min(pos), len(t) + 1)) if pos else set()
        else:
            pos = {p + 1 for p in pos if p < len(t) and t[p] == x}
    return len(t) in pos


def rand_bounds(rng, vals):
    vals = sorted(set(vals)) or [0]
    lo = rng.choice(vals) + rng.choice([0, 0, -0.5, 0.5])
    hi = rng.choice(vals) + rng.choice([0, 0, -0.5, 0.5])
    return (lo, hi) if lo <= hi or rng.random() < 0.05 else (hi, lo)


# each builder returns (key, fn(obj, kw, kind), expected)
def f_start(w):
    import pm4py
    vals, keep = w.coll(w.some(w.labs)), w.rng.random() < 0.5
    return "start", lambda o, kw, k: pm4py.filter_start_activities(o, vals, retain=keep, **K(kw, *"atc")), w.cases(lambda c: (w.tr[c][0] in vals) == keep)


def f_end(w):
    import pm4py
    vals, keep = w.coll(w.some(w.labs)), w.rng.random() < 0.5
    return "end", lambda o, kw, k: pm4py.filter_end_activities(o, vals, retain=keep, **K(kw, *"atc")), w.cases(lambda c: (w.tr[c][-1] in vals) == keep)


def f_evattr(w):
    import pm4py
    key = w.rng.choice(["kind", "opt", "concept:name", "org:resource", "num"])
    pool = sorted({e[key] for ev in w.ev.values() for e in ev if key in e}) or ["x"]
    vals, keep, level = w.coll(w.some(pool)), w.rng.random() < 0.5, w.rng.choice(["case", "event"])

    def fn(o, kw, k):
        return pm4py.filter_event_attribute_values(o, h.ALT.get(key, key) if kw else key, vals, level=level, retain=keep, **K(kw, "c"))
    hit = lambda e: key in e and e[key] in vals
    exp = w.events(lambda e: hit(e) == keep) if level == "event" else w.cases(lambda c: any(hit(e) for e in w.ev[c]) == keep)
    return f"event_attr:{level}", fn, exp


def f_caseattr(w):
    import pm4py
    key = w.rng.choice(["region", "amount", "copt"])
    pool = sorted({ca[key] for ca in w.ca.values() if key in ca}, key=str) or ["x"]
    vals, keep = w.coll(w.some(pool, 2)), w.rng.random() < 0.5
    return "case_attr", lambda o, kw, k: pm4py.filter_trace_attribute_values(o, key if k == "log" else "case:" + key, vals, retain=keep, **K(kw, "c")), w.cases(lambda c: (key in w.ca[c] and w.ca[c][key] in vals) == keep)


def f_variants(w):
    import pm4py
    pool = sorted({tuple(t) for t in w.tr.values()})
    vals, keep = w.rng.choice([list, set])(w.some(pool + [("zz",)])), w.rng.random() < 0.5
    return "variants", lambda o, kw, k: pm4py.filter_variants(o, vals, retain=keep, **K(kw, *"atc")), w.cases(lambda c: (tuple(w.tr[c]) in vals) == keep)


def counts(w):
    d = {}
    for t in w.tr.values():
        d[tuple(t)] = d.get(tuple(t), 0) + 1
    return d


def f_topk(w):
    import pm4py
    d = counts(w)
    kk = w.rng.randint(0, len(d) + 1)

    def ok(got):
        kept = {tuple(w.tr[c]) for c in got if c in w.tr}
        if got != w.cases(lambda c: tuple(w.tr[c]) in kept):
            return "not a union of variants"
        if len(kept) != min(kk, len(d)):
            return f"{len(kept)} variants kept, k={kk}"
        if kept and len(kept) < len(d) and min(d[v] for v in kept) < max(d[v] for v in d if v not in kept):
            return "a kept variant is less frequent than a dropped one"
        return None
    return "top_k", lambda o, kw, k: pm4py.filter_variants_top_k(o, kk, **K(kw, *"atc")), ok


def f_cov(w):
    import pm4py
    d, n = counts(w), len(w.tr)
    p = w.rng.choice([0.0, 0.25, 0.5, 1.0, w.rng.random(), w.rng.random() / 2])
    if w.rng.random() < 0.5:
        return "coverage", lambda o, kw, k: pm4py.filter_variants_by_coverage_percentage(o, p, **K(kw, *"atc")), w.cases(lambda c: d[tuple(w.tr[c])] >= p * n)
    return "max_coverage", lambda o, kw, k: pm4py.filter_variants_by_maximum_coverage_percentage(o, p, **K(kw, *"atc")), w.cases(lambda c: d[tuple(w.tr[c])] <= p * n)


def f_df(w):
    import pm4py
    rels, keep = [(w.lab(), w.lab()) for _ in range(w.rng.randint(1, 3))], w.rng.random() < 0.5
    return "directly_follows", lambda o, kw, k: pm4py.filter_directly_follows_relation(o, rels, retain=keep, **K(kw, *"atc")), w.cases(lambda c: any((x, y) in rels for x, y in zip(w.tr[c], w.tr[c][1:])) == keep)


def f_ef(w):
    import pm4py
    rels, keep = [(w.lab(), w.lab()) for _ in range(w.rng.randint(1, 3))], w.rng.random() < 0.5
    return "eventually_follows", lambda o, kw, k: pm4py.filter_eventually_follows_relation(o, rels, retain=keep, **K(kw, *"atc")), w.cases(lambda c: any(subseq(w.tr[c], r) for r in rels) == keep)


def f_time(w):
    import pm4py
    ts = [e["time:timestamp"] for ev in w.ev.values() for e in ev]
    a, b = sorted([w.rng.choice(ts) + dt.timedelta(seconds=w.rng.choice([0, 0, 0, 1, -1, 7200, -9000])) for _ in range(2)])
    mode = w.rng.choice(["events", "traces_contained", "traces_intersecting"])
    x, y = (a.strftime("%Y-%m-%d %H:%M:%S"), b.strftime("%Y-%m-%d %H:%M:%S")) if w.rng.random() < 0.7 else (a, b)
    if mode == "events":
        exp = w.events(lambda e: a <= e["time:timestamp"] <= b)
    elif mode == "traces_contained":
        exp = w.cases(lambda c: a <= w.ev[c][0]["time:timestamp"] and w.ev[c][-1]["time:timestamp"] <= b)
    else:
        exp = w.cases(lambda c: w.ev[c][0]["time:timestamp"] <= b and w.ev[c][-1]["time:timestamp"] >= a)
    return f"time:{mode}", lambda o, kw, k: pm4py.filter_time_range(o, x, y, mode=mode, **K(kw, *"tc")), exp


def f_size(w):
    import pm4py
    lo, hi = sorted([w.rng.randint(0, 8), w.rng.randint(0, 8)])
    return "size", lambda o, kw, k: pm4py.filter_case_size(o, lo, hi, **K(kw, "c")), w.cases(lambda c: lo <= len(w.tr[c]) <= hi)


def f_perf(w):
    import pm4py
    lo, hi = rand_bounds(w.rng, [dur(e) for e in w.ev.values()])
    return "performance", lambda o, kw, k: pm4py.filter_case_performance(o, lo, hi, **K(kw, *"tc")), w.cases(lambda c: lo <= dur(w.ev[c]) <= hi)


def f_rework(w):
    import pm4py
    a, n = w.lab(), w.rng.randint(1, 3)
    return "rework", lambda o, kw, k: pm4py.filter_activities_rework(o, a, n, **K(kw, *"atc")), w.cases(lambda c: w.tr[c].count(a) >= n)


def f_pathperf(w):
    import pm4py
    gaps = [(e["concept:name"], f["concept:name"], (f["time:timestamp"] - e["time:timestamp"]).total_seconds()) for ev in w.ev.values() for e, f in zip(ev, ev[1:])]
    a, b = (w.rng.choice(gaps)[:2] if gaps and w.rng.random() < 0.8 else (w.lab(), w.lab()))
    lo, hi = rand_bounds(w.rng, [g for x, y, g in gaps if (x, y) == (a, b)]) if w.rng.random() < 0.8 else (0, INF)
    keep = w.rng.random() < 0.5

    def hit(c):
        return any(e["concept:name"] == a and f["concept:name"] == b and lo <= (f["time:timestamp"] - e["time:timestamp"]).total_seconds() <= hi for e, f in zip(w.ev[c], w.ev[c][1:]))
    return "path_performance", lambda o, kw, k: pm4py.filter_paths_performance(o, (a, b), lo, hi, keep=keep, **K(kw, *"atc")), w.cases(lambda c: hit(c) == keep)


def f_prefix(w):
    import pm4py
    a, strict, fl, pre = w.lab(), w.rng.random() < 0.5, w.rng.choice(["first", "last"]), w.rng.random() < 0.5
    exp = {}
    for c, t in w.tr.items():
        if a in t:
            i = t.index(a) if fl == "first" else len(t) - 1 - t[::-1].index(a)
            u = [e["uid"] for e in w.ev[c]]
            u = u[:i + (0 if strict else 1)] if pre else u[i + (1 if strict else 0):]
            if u:
                exp[c] = u
    f = pm4py.filter_prefixes if pre else pm4py.filter_suffixes
    return "prefix" if pre else "suffix", lambda o, kw, k: f(o, a, strict=strict, first_or_last=fl, **K(kw, *"atc")), exp


def f_between(w):
    import pm4py
    if w.rng.random() < 0.3:
        x = w.rng.sample(w.labs, min(len(w.labs), 4))
        half = max(1, len(x) // 2)
        A, B = x[:half], x[half:] or ["zz"]
    else:
        A, B = w.lab(), w.lab()
    inA = (lambda v: v == A) if isinstance(A, str) else (lambda v: v in A)
    inB = (lambda v: v == B) if isinstance(B, str) else (lambda v: v in B)
    exp = []
    for c, t in w.tr.items():
        start = None
        for i, v in enumerate(t):
            if start is not None and inB(v):
                exp.append(tuple(e["uid"] for e in w.ev[c][start:i + 1]))
                start = i if A == B else None
            elif start is None and inA(v):
                start = i
    exp = sorted(exp)

    def ok(got):
        g = sorted(tuple(x) for x in got.values())
        return None if g == exp else f"got sub-cases {g} expected {exp}"
    return "between", lambda o, kw, k: pm4py.filter_between(o, A, B, **K(kw, *"atc")), ok


def f_segments(w):
    import pm4py
    infs = []
    for _ in range(w.rng.randint(1, 2)):
        t = w.rng.choice(list(w.tr.values()))
        i = w.rng.randrange(len(t))
        inf = list(t[i:i + w.rng.randint(1, 3)])
        if w.rng.random() < 0.25:
            inf[w.rng.randrange(len(inf))] = w.lab()
        if w.rng.random() < 0.7:
            inf.insert(0, "...")
        if w.rng.random() < 0.7:
            inf.append("...")
        if w.rng.random() < 0.3:
            inf.insert(w.rng.randrange(len(inf) + 1), "...")
        infs.append(inf)
    keep = w.rng.random() < 0.5
    return "segments", lambda o, kw, k: pm4py.filter_trace_segments(o, infs, positive=keep, **K(kw, *"atc")), w.cases(lambda c: any(seg_match(w.tr[c], i) for i in infs) == keep)


def resof(w, c, a):
    return {e["org:resource"] for e in w.ev[c] if e["concept:name"] == a and "org:resource" in e}


def f_foureyes(w):
    import pm4py
    a, b = w.lab(), w.lab()
    rk = lambda kw: {"resource_key": "Who"} if kw else {}
    pos = w.rng.random() < 0.6

    def fn(o, kw, k):
        if pos:
            return pm4py.filter_four_eyes_principle(o, a, b, **K(kw, *"atc"), **rk(kw))
        from pm4py.algo.filtering.log.ltl import ltl_checker as L
        from pm4py.algo.filtering.pandas.ltl import ltl_checker as P
        m = L if k == "log" else P
        par = {m.Parameters.POSITIVE: False}
        if kw:
            par.update({m.Parameters.ATTRIBUTE_KEY: "Act", m.Parameters.RESOURCE_KEY: "Who"})
            if k == "df":
                par[m.Parameters.CASE_ID_KEY] = "Cid"
        return m.four_eyes_principle(o, a, b, parameters=par)

    def hit(c):
        x, y = resof(w, c, a), resof(w, c, b)
        return bool(x and y) and (not (x & y) if pos else bool(x & y))
    return "four_eyes", fn, w.cases(hit)


def f_diffres(w):
    import pm4py
    a = w.lab()
    return "different_resources", lambda o, kw, k: pm4py.filter_activity_done_different_resources(o, a, **K(kw, *"atc"), **({"resource_key": "Who"} if kw else {})), w.cases(lambda c: len(resof(w, c, a)) > 1)


def f_relocc(w):
    import pm4py
    key = w.rng.choice(["concept:name", "kind", "opt"])
    level = w.rng.choice(["cases", "events"])
    p = w.rng.choice([0.0, 0.25, 0.5, 1.0, w.rng.random()])
    n = {}
    for ev in w.ev.values():
        vs = [e[key] for e in ev if key in e]
        for v in (set(vs) if level == "cases" else vs):
            n[v] = n.get(v, 0) + 1
    tot = len(w.tr) if level == "cases" else w.a.n_events()
    ok = {v for v, x in n.items() if x >= p * tot}
    return f"relative_occurrence:{level}", lambda o, kw, k: pm4py.filter_log_relative_occurrence_event_attribute(o, p, attribute_key=h.ALT.get(key, key) if kw else key, level=level, **K(kw, *"tc")), w.events(lambda e: key in e and e[key] in ok)


def _ltl(w, kw, k, par):
    from pm4py.algo.filtering.log.ltl import ltl_checker as L
    from pm4py.algo.filtering.pandas.ltl import ltl_checker as P
    m = L if k == "log" else P
    p = {m.Parameters[x]: v for x, v in par.items()}
    if kw:
        p.update({m.Parameters.ATTRIBUTE_KEY: "Act", m.Parameters.TIMESTAMP_KEY: "When"})
        if k == "df":
            p[m.Parameters.CASE_ID_KEY] = "Cid"
    return m, p


def f_ltl_ef(w):
    n = w.rng.choice([2, 3, 3])
    seq = [w.lab() for _ in range(n)]
    keep, bounded = w.rng.random() < 0.5, w.rng.random() < 0.6
    bounds = [sorted([w.rng.choice([0, 1, 60, 3600, 7200]), w.rng.choice([600, 3600, 86400, 10 ** 6])]) for _ in range(n - 1)]
    par = {"POSITIVE": keep}
    if bounded:
        par.update({"ENABLE_TIMESTAMP": True, "TIMESTAMP_DIFF_BOUNDARIES": bounds})

    def hit(c):
        ev = w.ev[c]

        def rec(i, prev):
            if i == n:
                return True
            for j in range(prev + 1, len(ev)):
                if ev[j]["concept:name"] == seq[i]:
                    if i and bounded:
                        g = (ev[j]["time:timestamp"] - ev[prev]["time:timestamp"]).total_seconds()
                        if not bounds[i - 1][0] <= g <= bounds[i - 1][1]:
                            continue
                    if rec(i + 1, j):
                        return True
            return False
        return rec(0, -1)

    def fn(o, kw, k):
        m, p = _ltl(w, kw, k, par)
        return m.eventually_follows(o, seq, parameters=p)
    return "ltl_eventually_follows", fn, w.cases(lambda c: hit(c) == keep)


def f_ltl_next(w):
    t = w.rng.choice(list(w.tr.values()))
    if len(t) >= 3 and w.rng.random() < 0.7:
        i = w.rng.randrange(len(t) - 2)
        A, B, C = t[i:i + 3]
    else:
        A, B, C = w.lab(), w.lab(), w.lab()
    keep = w.rng.random() < 0.5

    def fn(o, kw, k):
        m, p = _ltl(w, kw, k, {"POSITIVE": keep})
        return m.A_next_B_next_C(o, A, B, C, parameters=p)
    return "ltl_next", fn, w.cases(lambda c: any(w.tr[c][i:i + 3] == [A, B, C] for i in range(len(w.tr[c]) - 2)) == keep)


def f_timeattr(w):
    ts = [e["time:timestamp"] for ev in w.ev.values() for e in ev]
    a, b = sorted([w.rng.choice(ts) for _ in range(2)])
    act = w.lab()

    def fn(o, kw, k):
        from pm4py.algo.filtering.log.timestamp import timestamp_filter as L
        from pm4py.algo.filtering.pandas.timestamp import timestamp_filter as P
        m = L if k == "log" else P
        p = {}
        if kw:
            p[m.Parameters.TIMESTAMP_KEY] = "When"
            if k == "df":
                p[m.Parameters.CASE_ID_KEY] = "Cid"
        return m.filter_traces_attribute_in_timeframe(o, "Act" if kw else "concept:name", act, a, b, parameters=p)
    return "attribute_in_timeframe", fn, w.cases(lambda c: any(e["concept:name"] == act and a <= e["time:timestamp"] <= b for e in w.ev[c]))


def f_numeric(w):
    lo, hi = sorted([round(w.rng.uniform(0, 100), 1), round(w.rng.uniform(0, 100), 1)])
    level, keep = w.rng.choice(["event", "case"]), w.rng.random() < 0.5

    def fn(o, kw, k):
        from pm4py.algo.filtering.log.attributes import attributes_filter as L
        from pm4py.algo.filtering.pandas.attributes import attributes_filter as P
        m = L if k == "log" else P
        p = {m.Parameters.ATTRIBUTE_KEY: "cost", m.Parameters.POSITIVE: keep}
        if kw and k == "df":
            p[m.Parameters.CASE_ID_KEY] = "Cid"
        return (m.apply_numeric_events if level == "event" else m.apply_numeric)(o, lo, hi, parameters=p)
    hit = lambda e: lo <= e["cost"] <= hi
    if level == "event":
        exp = w.events(lambda e: hit(e) == keep)
    elif keep:
        exp = w.cases(lambda c: any(hit(e) for e in w.ev[c]))
    else:
        return None
    return f"numeric:{level}", fn, exp


def _low(kw, k, P, **par):
    """parameters of a filter implementation, keyed as its Parameters enumeration"""
    names = {"ACTIVITY_KEY": "activity_key", "TIMESTAMP_KEY": "timestamp_key", "CASE_ID_KEY": "case_id_key"}
    p = {P[n]: kw[v] for n, v in names.items() if v in kw and n in P.__members__}
    p.update({P[n]: v for n, v in par.items()})
    return p


def f_rework2(w):
    a, n, pos = w.lab(), w.rng.randint(1, 3), w.rng.random() < 0.5

    def fn(o, kw, k):
        from pm4py.algo.filtering.log.rework import rework_filter as L
        from pm4py.algo.filtering.pandas.rework import rework_filter as P
        m = L if k == "log" else P
        return m.apply(o, a, parameters=_low(kw, k, m.Parameters, MIN_OCCURRENCES=n, POSITIVE=pos))
    return "rework:positive" if pos else "rework:negative", fn, w.cases(lambda c: (w.tr[c].count(a) >= n) == pos)


def f_repetition(w):
    key = w.rng.choice(["concept:name", "kind", "opt"])
    vals = sorted({e[key] for ev in w.ev.values() for e in ev if key in e}) + ["zz"]
    v, lo = w.rng.choice(vals), w.rng.randint(1, 3)
    hi = w.rng.choice([None, lo, lo + 1])

    def fn(o, kw, k):
        from pm4py.algo.filtering.log.attr_value_repetition import filter as L
        from pm4py.algo.filtering.pandas.attr_value_repetition import filter as P
        m = L if k == "log" else P
        par = {"ATTRIBUTE_KEY": h.ALT.get(key, key) if kw else key, "MIN_REP": lo}
        if hi is not None:
            par["MAX_REP"] = hi
        return m.apply(o, v, parameters=_low(kw, k, m.Parameters, **par))
    n = lambda c: sum(1 for e in w.ev[c] if key in e and e[key] == v)
    return "value_repetition", fn, w.cases(lambda c: lo <= n(c) and (hi is None or n(c) <= hi))


def f_size2(w):
    n = [len(t) for t in w.tr.values()]
    lo = w.rng.choice(n + [1, max(n) + 1])
    hi = w.rng.choice([None, lo, max(n)])

    def fn(o, kw, k):
        from pm4py.algo.filtering.log.cases import case_filter as L
        from pm4py.algo.filtering.pandas.cases import case_filter as P
        if k == "log":
            return L.filter_on_case_size(o, lo, hi)
        return P.filter_on_case_size(o, kw.get("case_id_key", "case:concept:name"), lo, hi)
    return "case_size:implementation", fn, w.cases(lambda c: lo <= len(w.tr[c]) and (hi is None or len(w.tr[c]) <= hi))


def f_ncases(w):
    n = w.rng.choice([1, 2, len(w.tr), len(w.tr) + 3])
    full = w.cases(lambda c: True)
    first = set(list(w.tr)[:n])

    def fn(o, kw, k):
        from pm4py.algo.filtering.log.cases import case_filter as L
        from pm4py.algo.filtering.pandas.cases import case_filter as P
        if k == "log":
            return L.filter_on_ncases(o, n)
        return P.filter_on_ncases(o, kw.get("case_id_key", "case:concept:name"), n)

    def ok(got):
        if len(got) != min(n, len(full)) or any(full.get(c) != u for c, u in got.items()):
            return f"{len(got)} cases {got}, asked for {n} of {len(full)}"
    return "ncases", fn, ok


def f_affix(w):
    """dataframes only: cases starting (ending) with one of the given sequences"""
    ts = list(w.tr.values())
    pre, pos = w.rng.random() < 0.5, w.rng.random() < 0.6
    xs = []
    for _ in range(w.rng.randint(1, 2)):
        t = list(w.rng.choice(ts))
        n = w.rng.randint(1, len(t))
        x = t[:n] if pre else t[len(t) - n:]
        if w.rng.random() < 0.2:
            x[w.rng.randrange(len(x))] = w.lab()
        xs.append(tuple(x))

    def fn(o, kw, k):
        from pm4py.algo.filtering.pandas.starts_with import starts_with_filter as S
        from pm4py.algo.filtering.pandas.ends_with import ends_with_filter as E
        m = S if pre else E
        return m.apply(o, w.coll(xs), parameters={**_low(kw, k, m.Parameters, POSITIVE=pos), **({"pm4py:param:timestamp_key": kw["timestamp_key"]} if kw else {})})
    hit = lambda t: any((t[:len(x)] if pre else t[max(0, len(t) - len(x)):]) == list(x) for x in xs)
    fn.only = "df"
    return "starts_with" if pre else "ends_with", fn, w.cases(lambda c: hit(w.tr[c]) == pos)


def f_nocc(w):
    """dataframes only: activities (start, end) occurring at least n times"""
    n, which = w.rng.randint(1, 4), w.rng.choice(["start", "end", "activities", "top"])
    cnt = {}
    for t in w.tr.values():
        for a in (t[:1] if which == "start" else t[-1:] if which == "end" else t):
            cnt[a] = cnt.get(a, 0) + 1
    keep = {a for a, x in cnt.items() if x >= n}
    if which == "top":
        keep = set(sorted(cnt, key=lambda a: (cnt[a], a), reverse=True)[:n])

    def fn(o, kw, k):
        from pm4py.algo.filtering.pandas.start_activities import start_activities_filter as S
        from pm4py.algo.filtering.pandas.end_activities import end_activities_filter as E
        from pm4py.algo.filtering.pandas.attributes import attributes_filter as A
        ck, ak = kw.get("case_id_key", "case:concept:name"), kw.get("activity_key", "concept:name")
        if which == "start":
            return S.filter_df_on_start_activities_nocc(o, n, case_id_glue=ck, activity_key=ak)
        if which == "end":
            return E.filter_df_on_end_activities_nocc(o, n, case_id_glue=ck, activity_key=ak)
        if which == "top":
            return A.filter_df_keeping_spno_activities(o, activity_key=ak, max_no_activities=n)
        return A.filter_df_keeping_activ_exc_thresh(o, n, activity_key=ak)
    fn.only = "df"
    if which in ("start", "end"):
        return f"nocc:{which}", fn, w.cases(lambda c: w.tr[c][0 if which == "start" else -1] in keep)
    return f"nocc:{which}", fn, w.events(lambda e: e["concept:name"] in keep)


def f_caseattr_time(w):
    """event logs only: cases whose (date) attribute lies in the window"""
    ts = [e["time:timestamp"] for ev in w.ev.values() for e in ev]
    a, b = sorted([w.rng.choice(ts) for _ in range(2)])
    for c, ca in w.ca.items():
        if "opened" not in ca and w.rng.random() < 0.8:
            ca["opened"] = w.rng.choice(ts)

    def fn(o, kw, k):
        from pm4py.algo.filtering.log.timestamp import timestamp_filter as L
        for t in o:
            ca = w.ca[t.attributes["concept:name"]]
            if "opened" in ca:
                t.attributes["opened"] = ca["opened"]
        return L.filter_on_trace_attribute(o, a, b, parameters={L.Parameters.TIMESTAMP_KEY: "opened"})
    fn.only = "log"
    return "trace_attribute_in_window", fn, w.cases(lambda c: "opened" in w.ca[c] and a <= w.ca[c]["opened"] <= b)


def f_varpct(w):
    """event logs only: whole groups of equally frequent variants until the share is reached"""
    p = w.rng.choice([0.0, 0.3, 0.5, 0.8, 1.0, w.rng.random()])
    cnt = {}
    for t in w.tr.values():
        cnt[tuple(t)] = cnt.get(tuple(t), 0) + 1
    keep, tot = set(), 0
    for n in sorted(set(cnt.values()), reverse=True):
        g = [v for v, x in cnt.items() if x == n]
        keep.update(g)
        tot += n * len(g)
        if tot / len(w.tr) >= p:
            break

    def fn(o, kw, k):
        from pm4py.algo.filtering.log.variants import variants_filter as L
        return L.filter_log_variants_percentage(o, p, parameters=_low(kw, k, L.Parameters))
    fn.only = "log"
    return "variants_percentage", fn, w.cases(lambda c: tuple(w.tr[c]) in keep)


def f_split(w):
    """dataframes only: every case is cut before (after) each occurrence; the events stay"""
    acts = w.some(w.labs, 2)
    mode = w.rng.choice(["this", "next"])
    A = acts[0] if w.rng.random() < 0.5 else w.coll(acts)
    cut = {acts[0]} if isinstance(A, str) else set(acts)
    exp = []
    for c, t in w.tr.items():
        cur = []
        for v, e in zip(t, w.ev[c]):
            if v in cut and mode == "this":
                exp.append(cur); cur = [e["uid"]]
            else:
                cur.append(e["uid"])
                if v in cut:
                    exp.append(cur); cur = []
        exp.append(cur)
    exp = sorted(x for x in exp if x)

    def fn(o, kw, k):
        from pm4py.algo.filtering.pandas.activity_split import activity_split_filter as S
        ck = kw.get("case_id_key", "case:concept:name")
        return S.apply(o.sort_values(ck, kind="stable"), A, parameters=_low(kw, k, S.Parameters, CUT_MODE=mode))

    def ok(got):
        g = sorted(got.values())
        return None if g == exp else f"got sub-cases {g} expected {exp}"
    fn.only, fn.cuts = "df", True
    return "activity_split", fn, ok


def f_group(w):
    """dataframes only: repetitions in a row (events at the same time) of a case become their first or last event"""
    by, which = w.rng.choice(["run", "time"]), w.rng.choice(["first", "last"])
    exp = {}
    for c, ev in w.ev.items():
        kept, seen = [], []
        for e in ev:
            k = e["concept:name"] if by == "run" else e["time:timestamp"]
            if seen and k == seen[-1]:
                if which == "last":
                    kept[-1] = e["uid"]
            else:
                kept.append(e["uid"])
            seen.append(k)
        exp[c] = kept

    def fn(o, kw, k):
        from pm4py.algo.filtering.pandas.consecutive_act_case_grouping import consecutive_act_case_grouping_filter as R
        from pm4py.algo.filtering.pandas.timestamp_case_grouping import timestamp_case_grouping_filter as T
        ck = kw.get("case_id_key", "case:concept:name")
        m = R if by == "run" else T
        res = m.apply(o.sort_values(ck, kind="stable"), parameters=_low(kw, k, m.Parameters, FILTER_TYPE=which))
        return res[[c for c in o.columns]]
    fn.only, fn.fills = "df", True
    return f"grouping:{by}:{which}", fn, exp


FILTERS = [f_start, f_end, f_evattr, f_caseattr, f_variants, f_topk, f_cov, f_df, f_ef, f_time, f_size, f_perf, f_rework, f_pathperf, f_prefix, f_between,
           f_segments, f_foureyes, f_diffres, f_relocc]
EXTRA = [f_ltl_ef, f_ltl_next, f_timeattr, f_numeric]
LOW = [f_rework2, f_repetition, f_size2, f_ncases, f_affix, f_nocc, f_caseattr_time, f_varpct, f_split, f_group]


def workload(ctx):
    rng = ctx.rng
    alog = gen.rand_alog(rng, ties=rng.choice([0, 0, 0.3]), maxlen=rng.choice([4, 8, 8]))
    for _, ca, ev in alog.cases:
        if rng.random() < 0.6:
            ca["copt"] = rng.choice([1, 2])
        for e in ev:
            e["num"] = rng.randrange(4)
            if rng.random() < 0.6:
                e["opt"] = rng.choice(["u", "v", "w,1"])
            if rng.random() < 0.05:
                e.pop("org:resource", None)
    # every attribute occurs at least once (a dataframe column exists)
    alog.cases[0][1]["copt"] = 1
    ev = alog.cases[0][2][0]
    ev.setdefault("opt", "u")
    ev.setdefault("org:resource", "Ann")
    return W(ctx, alog)


def same_content(ctx, key, kind, res, obj, kw, w, cases_intact):
    """surviving events / case attributes / log metadata unchanged"""
    if kind == "log":
        byuid = {e["uid"]: dict(e) for t in obj for e in t}
        attrs = {t.attributes["concept:name"]: dict(t.attributes) for t in obj}
        for t in res:
            for e in t:
                if not ctx.check(dict(e) == byuid[e["uid"]], f"{key}:event_changed", lambda: f"event {dict(e)} was {byuid[e['uid']]}"):
                    return
            if cases_intact and len(t):
                if not ctx.check(dict(t.attributes) == attrs.get(t.attributes["concept:name"]), f"{key}:case_attributes_changed", lambda: f"{dict(t.attributes)}"):
                    return
        for f in ("attributes", "extensions", "classifiers", "omni_present"):
            ctx.eq(dict(getattr(res, f)), dict(getattr(obj, f)), f"{key}:log_{f}_changed")
    else:
        if not ctx.check(list(res.columns) == list(obj.columns), f"{key}:columns_changed", lambda: f"{list(res.columns)} was {list(obj.columns)}"):
            return
        ck = kw.get("case_id_key", "case:concept:name")
        cols = [c for c in obj.columns if cases_intact or c != ck]
        a = res[cols].sort_values("uid", kind="stable").reset_index(drop=True)
        b = obj.set_index("uid", drop=False)[cols].loc[a["uid"].tolist()].reset_index(drop=True)
        ctx.check(a.equals(b), f"{key}:rows_changed", lambda: f"{a.to_dict('records')[:3]} was {b.to_dict('records')[:3]}")


def run(ctx, pool):
    w = workload(ctx)
    objs = h.both(ctx.rng, w.a)
    lg = objs[0][1]
    lg.attributes["origin"] = "x"
    lg.extensions["Concept"] = {"prefix": "concept", "uri": "http://c"}
    lg.omni_present["trace"] = {"concept:name": "__"}
    lg.classifiers["cl"] = ["concept:name"]
    picks = ctx.rng.sample(pool, min(len(pool), 5))
    for b in picks:
        r = b(w)
        if r is None:
            continue
        key, fn, exp = r
        for kind, obj, kw in objs:
            from ..worker import Stop
            if getattr(fn, "only", kind) != kind:
                continue
            try:
                res = ctx.call(f"{key}:{kind}", fn, obj, kw, kind)
            except Stop:
                continue
            got = canon(res, kw)
            ctx.ev("filter_calls")
            ctx.ev("survivors", sum(map(len, got.values())))
            if callable(exp):
                m = exp(got)
                ctx.check(m is None, f"{key}:{kind}", m)
            else:
                ctx.eq(got, exp, f"{key}:{kind}")
            if not hasattr(fn, "fills"):    # (groupings fill missing values from the other events of the group)
                same_content(ctx, f"{key}:{kind}", kind, res, obj, kw, w, key not in ("between", "activity_split"))
        n = None if callable(exp) else sum(map(len, exp.values()))
        if n is None or 0 < n < w.a.n_events():
            ctx.nontrivial(key, n, tuple(map(tuple, w.tr.values())))
    ctx.sample({"traces": [" ".join(t) for t in list(w.tr.values())[:4]], "filters": [b.__name__ for b in picks]})


def public(ctx):
    run(ctx, FILTERS)


def extra(ctx):
    run(ctx, EXTRA)


def low(ctx):
    run(ctx, LOW)


FAMILIES = {"public": (500, 12000, public), "extra": (120, 3000, extra), "low": (200, 5000, low)}
