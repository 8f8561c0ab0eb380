"""C33: splits, samples, prefixes, artificial events, service/waiting/arrival columns, feature tables and targets are faithful to the log"""
import datetime as dt
import math
import numpy as np
import pandas as pd
import pm4py
from collections import Counter
from pm4py.algo.transformation.log_to_features import algorithm as fea
from pm4py.algo.transformation.log_to_interval_tree.variants import open_paths
from pm4py.objects.log.obj import EventStream
from rv import gen, h
from rv.checks.c32 import snap

RULE = ("train and test parts partition the cases, samples are subsets of the requested size, prefixes are the first events of each case, artificial events surround each case, and nothing else of the events is "
        "altered; service, waiting, sojourn, arrival and finish columns, the trace-based / event-based / temporal feature tables, target vectors and interval trees are recomputed cell by cell from the events")
ASSUMPTIONS = ["the feature tables of dataframes are sorted by case identifier, the ones of event logs follow the log", "no empty traces, timestamps increase within a case (ties in split/sample/prefix/interval families)",
               "the size of the train part is not prescribed (random on dataframes, rounded on logs)", "event successions (str_evsucc_attr) are supported on event logs only",
               "automatic attribute selection is judged on the values of the selected columns (logs) and also on the selection rule (dataframes)"]
MINIMUM = {"oracle_checks": 2000, "tables": 250}


def cases_of(obj, ck="case:concept:name"):
    """{case id: [event dicts]} of a log / dataframe, in order; nulls dropped"""
    if isinstance(obj, pd.DataFrame):
        out = {}
        for r in obj.to_dict("records"):
            out.setdefault(r[ck], []).append({k: v for k, v in r.items() if not (v is None or (isinstance(v, float) and v != v) or v is pd.NaT) and not k.startswith("@@")})
        return out
    return {t.attributes["concept:name"]: [dict(e) for e in t] for t in obj}


def meta(obj):
    return {t.attributes["concept:name"]: dict(t.attributes) for t in obj} if not isinstance(obj, pd.DataFrame) else None


def fam_split(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng, ties=rng.choice([0, 0.3]))
    for nm, o, kw in h.both(rng, al):
        ck = kw.get("case_id_key", "case:concept:name")
        ckw = {"case_id_key": ck} if nm == "df" and kw else {}
        before, full = snap([(nm, o, kw)]), cases_of(o, ck)
        p = rng.choice([0.0, 0.2, 0.5, 0.8, 1.0, rng.random()])
        a, b = ctx.call("split", pm4py.split_train_test, o, train_percentage=p, **ckw)
        ca, cb = cases_of(a, ck), cases_of(b, ck)
        ctx.check(not set(ca) & set(cb) and {**ca, **cb} == full, "split:" + nm, "train and test cases are not a partition of the (unchanged) cases", train=sorted(ca), test=sorted(cb), all=sorted(full), p=p)
        if nm == "log":
            ctx.check(len(a) + len(b) == len(o) and {**meta(a), **meta(b)} == meta(o), "split:log:attributes", "trace attributes or multiplicities changed")
        # samples
        n = rng.randint(1, len(full) + 2)
        s = ctx.call("sample cases", pm4py.sample_cases, o, n, **ckw)
        cs = cases_of(s, ck)
        ctx.check(len(cs) == min(n, len(full)) and all(full.get(c) == v for c, v in cs.items()), "sample_cases:" + nm, "not a subset of the requested number of unchanged cases", n=n, got=sorted(cs), all=len(full))
        ne = sum(map(len, full.values()))
        m = rng.randint(1, ne)
        s = ctx.call("sample events", pm4py.sample_events, o, m)
        uid = lambda cc: Counter(repr(sorted(e.items(), key=str)) + str(c) for c, v in cc.items() for e in v)
        u, v = uid(cases_of(s, ck)), uid(full)
        ctx.check(sum(u.values()) == m and not u - v, "sample_events:" + nm, "not a sub-multiset of the requested number of events", n=m, got=sum(u.values()), total=ne)
        if nm == "log":
            pos = {e["uid"]: i for _, _, ev in al.cases for i, e in enumerate(ev)}
            ctx.check(all([pos[e["uid"]] for e in t] == sorted(pos[e["uid"]] for e in t) for t in s), "sample_events:order", "the sampled events of a case are not in order")
            st = pm4py.convert_to_event_stream(o)
            k = rng.randint(1, ne + 2)
            s = ctx.call("sample stream", pm4py.sample_events, st, k)
            full_u = Counter(e["uid"] for e in st)
            ctx.check(len(s) == min(k, ne) and not Counter(e["uid"] for e in s) - full_u, "sample_events:stream", "not a sub-multiset of the requested number of events", n=k, got=len(s))
        # prefixes
        L = rng.randint(1, 5)
        q = ctx.call("prefixes", pm4py.get_prefixes_from_log, o, L, **ckw)
        ctx.eq(cases_of(q, ck), {c: v[:L] for c, v in full.items()}, "prefixes:" + nm, length=L)
        if nm == "log":
            ctx.eq(meta(q), meta(o), "prefixes:attributes")
            ctx.check([t.attributes["concept:name"] for t in q] == [t.attributes["concept:name"] for t in o], "prefixes:case_order", "the case order changed")
        ctx.check(snap([(nm, o, kw)]) == before, "input_changed", "the input has been changed", view=nm)
    ctx.nontrivial("split", len(full), ne, round(p, 1), n, L)


def fam_artificial(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng, ties=rng.choice([0, 0.3]))
    s, e = rng.choice([(None, None), ("begin", "fin"), ("a", "b")])
    ak = dict(artificial_start=s, artificial_end=e) if s else {}
    S, E = s or "▶", e or "■"
    for nm, o, kw in h.both(rng, al):
        ck = kw.get("case_id_key", "case:concept:name")
        A, T = kw.get("activity_key", "concept:name"), kw.get("timestamp_key", "time:timestamp")
        before, full = snap([(nm, o, kw)]), cases_of(o, ck)
        r = ctx.call("artificial", pm4py.insert_artificial_start_end, o, **kw, **ak)
        got = cases_of(r, ck)
        ctx.eq(set(got), set(full), "artificial:cases:" + nm)
        for c, v in got.items():
            x = full[c]
            ok = len(v) == len(x) + 2 and v[0][A] == S and v[-1][A] == E and v[1:-1] == x and v[0][T] < x[0][T] and v[-1][T] > x[-1][T]
            ctx.check(ok, "artificial:" + nm, "the case is not surrounded by one artificial start and one artificial end", case=[q[A] for q in x], result=[q[A] for q in v])
        if nm == "log":
            ctx.eq(meta(r), meta(o), "artificial:attributes")
        ctx.check(snap([(nm, o, kw)]) == before, "input_changed", "the input has been changed", view=nm)
        ctx.ev("tables")
    ctx.nontrivial("artificial", len(full), S, tuple(sorted(map(len, full.values())))[-3:])


def durations(al, interval):
    out = {}
    st = lambda e: e["start_timestamp"] if interval else e["time:timestamp"]
    for c, _, ev in al.cases:
        ts = lambda d: d.timestamp()
        serv = sum(ts(e["time:timestamp"]) - ts(st(e)) for e in ev)
        a, f = min(ts(st(e)) for e in ev), max(ts(e["time:timestamp"]) for e in ev)
        out[c] = dict(service=serv, sojourn=f - a, waiting=f - a - serv, arrival=a, finish=f)
    for k in ("arrival", "finish"):
        srt = sorted((v[k], c) for c, v in out.items())
        for i, (t, c) in enumerate(srt):
            out[c][k + "_rate"] = t - srt[i - 1][0] if i else 0
    return out


def with_start(rng, al):
    for _, _, ev in al.cases:
        for e in ev:
            e["start_timestamp"] = e["time:timestamp"] - dt.timedelta(seconds=rng.choice([0, 1, 30, 600, 5000]))


def fam_times(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng, distinct_time=True)
    interval = rng.random() < 0.5
    if interval or rng.random() < 0.3:
        with_start(rng, al)
    D = durations(al, interval)
    views = h.both(rng, al)
    before = snap(views)
    for nm, o, kw in views:
        kw2 = dict(kw)
        if interval:
            kw2["start_timestamp_key"] = "start_timestamp"
        elif kw:
            kw2["start_timestamp_key"] = "When"
        ck = kw.get("case_id_key", "case:concept:name")
        a = ctx.call("service/waiting", pm4py.insert_case_service_waiting_time, o, **kw2)
        b = ctx.call("arrival/finish", pm4py.insert_case_arrival_finish_rate, o, **kw2)
        if nm == "df":
            ctx.check(a["uid"].tolist() == o["uid"].tolist() == b["uid"].tolist(), "times:rows", "the rows changed")
        for t, cols in ((a, [("@@service_time", "service"), ("@@sojourn_time", "sojourn"), ("@@waiting_time", "waiting")]), (b, [("@@arrival_rate", "arrival_rate"), ("@@finish_rate", "finish_rate")])):
            ctx.eq(sorted(t["uid"].tolist()), sorted(e["uid"] for _, _, ev in al.cases for e in ev), "times:events:" + nm)
            for col, k in cols:
                bad = [(c, v, D[c][k]) for c, v in zip(t[ck], t[col]) if abs(v - D[c][k]) > 1e-4]
                ctx.check(not bad, f"times:{k}:{nm}", "the column is not the one of the case", wrong=bad[:5], interval=interval, rows=[(c, str(e.get("start_timestamp")), str(e["time:timestamp"])) for c, _, ev in al.cases for e in ev][:20])
        # outcome-enriched dataframe
        okw = {k: v for k, v in kw2.items()}
        r = ctx.call("outcome", pm4py.extract_outcome_enriched_dataframe, o, **okw)
        r = r.rename(columns={"uid_x": "uid"})   # numeric attributes are also features of the case (uid_y)
        ctx.eq(sorted(r["uid"].tolist()), sorted(e["uid"] for _, _, ev in al.cases for e in ev), "outcome:events:" + nm)
        for col, k in [("@@service_time", "service"), ("@@sojourn_time", "sojourn"), ("@@waiting_time", "waiting"), ("@@arrival_rate", "arrival_rate"), ("@@finish_rate", "finish_rate")]:
            bad = [(c, v, D[c][k]) for c, v in zip(r[ck], r[col]) if abs(v - D[c][k]) > 1e-4]
            ctx.check(not bad, f"outcome:{k}:{nm}", "the column is not the one of the case", wrong=bad[:5], interval=interval)
        A = kw.get("activity_key", "concept:name")
        acts = {c: {e["concept:name"] for e in ev} for c, _, ev in al.cases}
        for x in {e["concept:name"] for _, _, ev in al.cases for e in ev}:
            col = A + "_" + x.encode("ascii", errors="ignore").decode().replace(" ", "")
            if col in r.columns and x.isascii() and " " not in x:
                bad = [(c, v) for c, v in zip(r[ck], r[col]) if bool(v) != (x in acts[c])]
                ctx.check(not bad, "outcome:activity:" + nm, "the activity column is not the one of the case", activity=x, wrong=bad[:5])
        ctx.ev("tables", 3)
    ctx.check(snap(views) == before, "input_changed", "the input has been changed")
    ctx.nontrivial("times", interval, len(D), len({round(v["waiting"]) for v in D.values()}))


def enrich(rng, al, miss):
    words = ["x", "y z", "é", "e", "yz", "N", "x"] if rng.random() < 0.5 else ["v%d" % i for i in range(8)]
    for k, (c, ca, ev) in enumerate(al.cases):
        for e in ev:
            e["word"] = rng.choice(words)
            e["num"] = rng.choice([0, 1, -3, 7])
            e["flt"] = rng.choice([0.5, 2.25, -1.0, 100.125])
            if miss:
                for a in ("word", "flt"):
                    if rng.random() < 0.3:
                        del e[a]
        ca["tier"] = rng.choice(["gold", "old one", "x"])
        ca["score"] = rng.choice([1.5, -2.0, 3.0])
    return al


def fea_log(al, trace, ev, ntr, nev, succ):
    """expected columns of the event-log table"""
    cols = {}
    n = len(al.cases)

    def put(name, i, v=1.0):
        cols.setdefault(name, [0.0] * n)[i] = v
    for i, (c, ca, evs) in enumerate(al.cases):
        at = dict(ca)
        for a in trace:
            put(f"trace:{a}@{at[a]}" if a in at else f"trace:{a}@UNDEFINED", i)
        for a in ev:
            vs = {f"event:{a}@{e[a]}" for e in evs if a in e} or {f"event:{a}@UNDEFINED"}
            for v in vs:
                put(v, i)
        for a in ntr:
            put("trace:" + a, i, float(at[a]))
        for a in nev:
            put("event:" + a, i, float([e[a] for e in evs if a in e][-1]))
        for a in succ:
            vs = {f"succession:{a}@{x[a]}#{y[a]}" for x, y in zip(evs, evs[1:]) if a in x and a in y} or {f"succession:{a}@UNDEFINED"}
            for v in vs:
                put(v, i)
    return cols


def extras(al, st, res="org:resource"):
    cols = {}
    n = len(al.cases)
    T = lambda e: e["time:timestamp"].timestamp()
    S = (lambda e: e["start_timestamp"].timestamp()) if st else T
    acts = sorted({e["concept:name"] for _, _, ev in al.cases for e in ev})
    iv = [(S(ev[0]), T(ev[-1])) for _, _, ev in al.cases]
    ov = lambda i, j: iv[i][0] <= iv[j][1] and iv[j][0] <= iv[i][1]
    rs = sorted({e[res] for _, _, ev in al.cases for e in ev})
    has = [{e[res] for e in ev} for _, _, ev in al.cases]
    dp, ip, mc, ma = [], [], [], []
    for _, _, ev in al.cases:
        d, q = {}, {}
        for i in range(len(ev)):
            for j in range(i + 1, len(ev)):
                w = S(ev[j]) - T(ev[i])
                if w > 0:
                    (d if j == i + 1 else q)[ev[i]["concept:name"], ev[j]["concept:name"]] = w
        dp.append(d), ip.append(q)
        m, per = 0, {a: 0 for a in acts}
        for i in range(len(ev)):
            k = 0
            for j in range(i + 1, len(ev)):
                if S(ev[j]) > T(ev[i]):
                    break
                k += 1
            m = max(m, k)
            a = ev[i]["concept:name"]
            per[a] = max(per[a], sum(x["concept:name"] == a for x in ev[i + 1:i + 1 + k]))
        mc.append(m), ma.append(per)
    alld = {(x["concept:name"], y["concept:name"]) for _, _, ev in al.cases for x, y in zip(ev, ev[1:])}
    alli = {(ev[i]["concept:name"], ev[j]["concept:name"]) for _, _, ev in al.cases for i in range(len(ev)) for j in range(i + 2, len(ev))}
    cols["@@caseDuration"] = [T(ev[-1]) - S(ev[0]) for _, _, ev in al.cases]
    for a in acts:
        for nm, pick in (("First", 0), ("Last", -1)):
            s, e, ix = [], [], []
            for _, _, ev in al.cases:
                occ = [i for i, x in enumerate(ev) if x["concept:name"] == a]
                s.append(S(ev[occ[pick]]) - T(ev[0]) if occ else 0.0)
                e.append(S(ev[-1]) - T(ev[occ[pick]]) if occ else 0.0)
                ix.append(float(occ[pick]) if occ else -1.0)
            cols[f"startTo{nm}Occ@@{a}"] = s
            cols[f"{nm.lower()}OccToEnd@@{a}"] = e
            cols[f"{nm.lower()}IndexAct@@{a}"] = ix
        cols["@@max_concurrent_activities_like_" + a] = [float(m[a]) for m in ma]
    for p in alld:
        cols["directPathPerformanceLastOcc@@%s##%s" % p] = [d.get(p, 0.0) for d in dp]
    for p in alli:
        cols["indirectPathPerformanceLastOcc@@%s##%s" % p] = [d.get(p, 0.0) for d in ip]
    cols["@@work_in_progress"] = [float(sum(ov(i, j) for j in range(n))) for i in range(n)]
    for r in rs:
        cols["resource_workload@@" + r] = [float(sum(ov(i, j) and r in has[j] for j in range(n))) if r in has[i] else 0.0 for i in range(n)]
    cols["@@max_concurrent_activities_general"] = [float(m) for m in mc]
    return cols


GROUPS = {"enable_case_duration": ["@@caseDuration"], "enable_times_from_first_occurrence": ["startToFirst", "firstOccToEnd"], "enable_times_from_last_occurrence": ["startToLast", "lastOccToEnd"],
          "enable_direct_paths_times_last_occ": ["directPath"], "enable_indirect_paths_times_last_occ": ["indirectPath"], "enable_work_in_progress": ["@@work_in_progress"],
          "enable_resource_workload": ["resource_workload@@"], "enable_first_last_activity_index": ["firstIndexAct", "lastIndexAct"],
          "enable_max_concurrent_events": ["@@max_concurrent_activities_general"], "enable_max_concurrent_events_per_activity": ["@@max_concurrent_activities_like_"]}


def cmp_table(ctx, names, rows, exp, key, tol=1e-4, **d):
    ctx.check(len(set(names)) == len(names), key + ":duplicate_columns", "duplicate feature names", names=sorted(x for x, n in Counter(names).items() if n > 1))
    ctx.check(set(names) == set(exp), key + ":columns", "the columns are not the expected ones", missing=sorted(set(exp) - set(names))[:8], unexpected=sorted(set(names) - set(exp))[:8], **d)
    for j, nm in enumerate(names):
        if nm in exp:
            col = [r[j] for r in rows]
            x = exp[nm]
            same = lambda a, b: a == b if isinstance(b, str) else (math.isnan(a) and math.isnan(b)) or abs(a - b) <= tol * max(1, abs(b)) * 1e-2 + 1e-5
            bad = [(i, a, b) for i, (a, b) in enumerate(zip(col, x)) if not same(a, b)]
            ctx.check(len(col) == len(x) and not bad, key + ":values", "a column has wrong values", column=nm, wrong=bad[:5], rows=len(col), expected_rows=len(x), **d)
    ctx.ev("tables")


def fam_features_log(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng, distinct_time=True)
    miss = rng.random() < 0.4
    enrich(rng, al, miss)
    interval = rng.random() < 0.4
    if interval:
        with_start(rng, al)
        for _, _, ev in al.cases:
            ev.sort(key=lambda e: e["start_timestamp"])
    alt = rng.random() < 0.3
    rn = h.ALT if alt else None
    log = al.to_log(rn)
    key = lambda a: (rn or {}).get(a, a)
    before = snap([("log", log, {})])
    par = {}
    if alt:
        par = {"pm4py:param:activity_key": "Act", "pm4py:param:timestamp_key": "When", "pm4py:param:resource_key": "Who"}
    if interval:
        par["pm4py:param:start_timestamp_key"] = "start_timestamp"
    on = [g for g in GROUPS if rng.random() < 0.5]
    if rng.random() < 0.2:
        on = list(GROUPS)
        par["enable_all"] = True
    for g in on:
        par[g] = True
    addid = rng.random() < 0.3
    if addid:
        par["add_case_identifier_column"] = True
    default = rng.random() < 0.2 and not alt
    sel = lambda xs: [x for x in xs if rng.random() < 0.6]
    st, se, nt, ne, ss = sel(["region", "tier", "nope"]), sel(["concept:name", "kind", "word", "org:resource"]), sel(["amount", "score"]), sel(["cost", "num"]), sel(["concept:name", "org:resource", "kind"])
    if not miss:
        ne += sel(["flt"])
    if default:
        data, names = ctx.call("default features", fea.apply, log, parameters=dict(par))
        exp = fea_log(al, ["region", "tier", "concept:name"], ["concept:name", "kind", "word", "org:resource"], ["amount", "score"], ["cost", "num"] + ([] if miss else ["flt"]), ["concept:name"])
        for i, (c, _, _) in enumerate(al.cases):
            exp.setdefault("trace:concept:name@" + c, [0.0] * len(al.cases))[i] = 1.0
            for k in [k for k in exp if k == "trace:concept:name@UNDEFINED"]:
                del exp[k]
        # selection rules depend on the number of values: judge the columns which are there
        ctx.check(any(x.startswith("event:concept:name@") for x in names) or len({e["concept:name"] for _, _, ev in al.cases for e in ev}) > 11, "features_log:default:activities", "no activity column", names=names[:10])
        vocab = {**exp, **extras(al, interval)}
        if addid:
            vocab["@@case_id_column"] = [c for c, _, _ in al.cases]
        names2 = [x for x in names if x in vocab]
        idx = [names.index(x) for x in names2]
        cmp_table(ctx, names2, [[r[j] for j in idx] for r in data], {k: vocab[k] for k in names2}, "features_log:default")
    else:
        if not (st or se or nt or ne):
            st = ["region"]
        par.update(str_tr_attr=st, num_tr_attr=nt, str_ev_attr=[key(x) for x in se], num_ev_attr=ne, str_evsucc_attr=[key(x) for x in ss])
        if rng.random() < 0.5 or interval:
            data, names = ctx.call("features", fea.apply, log, parameters=dict(par))
        else:
            kw = {k: v for k, v in par.items() if k.startswith("enable") or k.endswith("attr")}
            if alt:
                kw.update(activity_key="Act", timestamp_key="When", resource_key="Who")
            df = ctx.call("features", pm4py.extract_features_dataframe, log, include_case_id=addid, **kw)
            names, data = list(df.columns), df.values.tolist()
        exp = fea_log(al, st, se, nt, ne, ss)
        if alt:
            f = lambda k: k.replace("event:concept:name@", "event:Act@").replace("event:org:resource@", "event:Who@").replace("succession:concept:name@", "succession:Act@").replace("succession:org:resource@", "succession:Who@")
            exp = {f(k): v for k, v in exp.items()}
        ex = extras(al, interval)
        for g in on:
            for pre in GROUPS[g]:
                exp.update({k: v for k, v in ex.items() if k.startswith(pre)})
        if addid:
            exp["@@case_id_column"] = [c for c, _, _ in al.cases]
        cmp_table(ctx, list(names), [list(r) for r in data], exp, "features_log", groups=on, interval=interval, alt=alt)
    ctx.check(snap([("log", log, {})]) == before, "input_changed", "the input has been changed")
    ctx.nontrivial("features_log", default, alt, interval, miss, len(on), len(st), len(se), len(ss))


def san(v, vals):
    n = {x: x.encode("ascii", errors="ignore").decode("ascii").replace(" ", "") for x in vals}
    return n[v] if Counter(n.values())[n[v]] == 1 else v


def fam_features_df(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng, distinct_time=True)
    miss = rng.random() < 0.5
    enrich(rng, al, miss)
    cmiss = rng.random() < 0.3
    if cmiss:
        for _, ca, _ in al.cases:
            for a in ("tier", "score"):
                if rng.random() < 0.4:
                    del ca[a]
    views = [v for v in h.both(rng, al) if v[0] == "df"]
    nm, df, kw = views[0]
    A, ck, R = kw.get("activity_key", "concept:name"), kw.get("case_id_key", "case:concept:name"), ("Who" if kw else "org:resource")
    before = snap(views)
    null = lambda v: v is None or v != v or v is pd.NaT
    rows = df.to_dict("records")
    ids = sorted({r[ck] for r in rows})
    auto = rng.random() < 0.3
    sel = lambda xs: [x for x in xs if rng.random() < 0.6]
    st, nt, se, ne = sel(["region", "tier"]), sel(["amount", "score"]), sel([A, "kind", "word", R]), sel(["cost", "num", "flt"])
    st, nt = [x for x in st if "case:" + x in df.columns], [x for x in nt if "case:" + x in df.columns]   # requesting an unknown column is refused
    se, ne = [x for x in se if x in df.columns], [x for x in ne if x in df.columns]
    if not (st or nt or se or ne):
        auto = True
    cols = ["case:" + x for x in st + nt] + se + ne
    if auto:
        cols = []
        for c in df.columns:
            ty = str(df[c].dtype)
            full = {r[ck] for r in rows if not null(r[c])} == set(ids)
            if c == A:
                cols.append(c)
            elif c != ck and c != kw.get("timestamp_key", "time:timestamp") and full and ("float" in ty or "int" in ty or ("obj" in ty and 5 <= len({r[c] for r in rows if not null(r[c])}) <= 50)):
                cols.append(c)
    exp = {}
    for c in cols:
        vals = {r[c] for r in rows if not null(r[c])}
        if "obj" in str(df[c].dtype):
            for v in vals:
                have = {r[ck] for r in rows if not null(r[c]) and r[c] == v}
                exp[c + "_" + san(v, vals)] = [float(i in have) for i in ids]
        elif "float" in str(df[c].dtype) or "int" in str(df[c].dtype):
            last = {r[ck]: r[c] for r in rows if not null(r[c])}
            exp[c] = [float(last[i]) if i in last else float("nan") for i in ids]
    addid = rng.random() < 0.5
    if addid:
        exp[ck] = ids
    fkw = dict(include_case_id=addid, **kw)
    if not auto:
        fkw.update(str_tr_attr=st, num_tr_attr=nt, str_ev_attr=se, num_ev_attr=ne)
    got = ctx.call("features", pm4py.extract_features_dataframe, df, **fkw)
    cmp_table(ctx, list(got.columns), got.values.tolist(), exp, "features_df", auto=auto, miss=miss, cmiss=cmiss)
    ctx.check(len(got) == len(ids), "features_df:rows", "not one row per case", got_rows=len(got), cases=len(ids))
    ctx.check(snap(views) == before, "input_changed", "the input has been changed")
    ctx.nontrivial("features_df", auto, miss, cmiss, len(cols), addid)


def fam_events(ctx):
    """event-based feature tensors and target vectors"""
    from pm4py.algo.transformation.log_to_target import algorithm as tg
    rng = ctx.rng
    al = gen.rand_alog(rng, distinct_time=True)
    enrich(rng, al, rng.random() < 0.4)
    views = h.both(rng, al, order=None)
    before = snap(views)
    A = views[0][2].get("activity_key", "concept:name")
    T = views[0][2].get("timestamp_key", "time:timestamp")
    rn = h.ALT if A == "Act" else {}
    E = [(c, [{rn.get(k, k): v for k, v in e.items()} for e in ev]) for c, _, ev in al.cases]
    log = views[0][1]
    L = max(len(ev) for _, ev in E)
    pad = rng.random() < 0.4
    size = L + rng.randint(0, 2)
    acts = sorted({e[A] for _, ev in E for e in ev})
    x = {"next_activity": [[[float(i + 1 < len(ev) and ev[i + 1][A] == a) for a in acts] for i in range(len(ev))] + [[0.0] * len(acts)] * ((size - len(ev)) * pad) for _, ev in E],
         "next_time": [[(ev[min(i + 1, len(ev) - 1)][T] - ev[i][T]).total_seconds() for i in range(len(ev))] + [0.0] * ((size - len(ev)) * pad) for _, ev in E],
         "remaining_time": [[(ev[-1][T] - ev[i][T]).total_seconds() for i in range(len(ev))] + [0.0] * ((size - len(ev)) * pad) for _, ev in E]}
    for v, e in x.items():
        for nm, o, kw in views:
            if pad or nm == "df" and rng.random() < 0.3:
                par = {"pm4py:param:activity_key": A, "pm4py:param:timestamp_key": T, "enable_padding": pad, "pad_size": size}
                if nm == "df":
                    par["pm4py:param:case_id_key"] = kw.get("case_id_key", "case:concept:name")
                r, cl = ctx.call("target", tg.apply, o, variant=getattr(tg.Variants, v.upper()), parameters=par)
            else:
                r, cl = ctx.call("target", pm4py.extract_target_vector, o, v, **kw)
            exp = e
            if nm == "df":   # order of the cases of the converted log
                order = [t.attributes["concept:name"] for t in pm4py.convert_to_event_log(o, **{k: q for k, q in kw.items() if k == "case_id_key"})]
                exp = [e[[c for c, _ in E].index(c)] for c in order]
            ctx.check(len(r) == len(exp) and all(len(p) == len(q) and np.allclose(p, q, atol=1e-4) for p, q in zip(r, exp)), f"target:{v}:{nm}", "the target is not the one of the events", got=r[:3], expected=exp[:3], pad=pad)
            if v == "next_activity":
                ctx.eq(list(cl), acts, "target:classes")
            ctx.ev("tables")
    # event-based features
    sa = rng.choice([None, [A, "kind"], ["word"], []])
    na = rng.choice([None, ["cost"], ["num", "flt"], []])
    par = {}
    if sa is not None:
        par["str_ev_attr"] = sa
    if na is not None:
        par["num_ev_attr"] = na
    lo, hi = rng.choice([(2, 500), (1, 500), (2, 4)])
    if (lo, hi) != (2, 500):
        par.update(min_num_diff_str_values=lo, max_num_diff_str_values=hi)
    data, names = ctx.call("event-based features", fea.apply, log, variant=fea.Variants.EVENT_BASED, parameters=dict(par))
    vals, nums, tot = {}, Counter(), sum(len(ev) for _, ev in E)
    for _, ev in E:
        for e in ev:
            for k, v in e.items():
                if isinstance(v, str) and (sa is None or k in sa):
                    vals.setdefault(k, set()).add(v)
                elif isinstance(v, (int, float)) and (na is None or k in na):
                    nums[k] += 1
    exp = sorted([f"event:{k}@{v}" for k, s in vals.items() if lo <= len(s) <= hi for v in s] + ["event:" + k for k, n in nums.items() if n == tot])
    ctx.eq(list(names), exp, "event_features:names", par=par)
    if list(names) == exp:
        X = np.zeros((len(E), L, len(exp)), dtype=np.float32)
        for i, (_, ev) in enumerate(E):
            for j, e in enumerate(ev):
                for f, nme in enumerate(exp):
                    k = nme[6:]
                    X[i, j, f] = float(e[k]) if k in nums and nums[k] == tot else float(any(isinstance(v, str) and f"{q}@{v}" == k for q, v in e.items()))
        ctx.check(data.shape == X.shape and np.allclose(data, X, atol=1e-3), "event_features:values", "the tensor is not the one of the events", shape=data.shape, expected_shape=X.shape)
    ctx.ev("tables")
    ctx.check(snap(views) == before, "input_changed", "the input has been changed")
    ctx.nontrivial("events", pad, len(exp), len(E), L)


def fam_temporal(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng, distinct_time=True)
    interval = rng.random() < 0.4
    if interval:
        with_start(rng, al)
    D = durations(al, interval)
    freq = rng.choice(["W", "D", "W", "h"])
    ts = lambda e: e["start_timestamp"] if interval else e["time:timestamp"]

    def lab(t):
        if freq == "h":
            return t.replace(minute=0, second=0, microsecond=0)
        d = t.replace(hour=0, minute=0, second=0, microsecond=0)
        return d if freq == "D" else d + dt.timedelta(days=(6 - d.weekday()) % 7)
    step = {"W": dt.timedelta(days=7), "D": dt.timedelta(days=1), "h": dt.timedelta(hours=1)}[freq]
    G = {}
    for c, _, ev in al.cases:
        for e in ev:
            G.setdefault(lab(ts(e)), []).append((c, e))
    cur, last, exp = min(G), max(G), []
    while cur <= last:
        g = G.get(cur, [])
        cs = {c for c, _ in g}
        avg = lambda k: sum(D[c][k] for c in cs) / len(cs) if cs else 0.0
        exp.append((cur, len({e["org:resource"] for _, e in g}), len(cs), len({e["concept:name"] for _, e in g}), len(g), avg("arrival_rate"), avg("finish_rate"), avg("waiting"), avg("sojourn"), avg("service")))
        cur += step
    if len(exp) > 400:
        return
    views = h.both(rng, al)
    before = snap(views)
    for nm, o, kw in views:
        k2 = dict(kw)
        if kw:
            k2["resource_key"] = "Who"
            k2["start_timestamp_key"] = "When"
        if interval:
            k2["start_timestamp_key"] = "start_timestamp"
        t = ctx.call("temporal", pm4py.extract_temporal_features_dataframe, o, grouper_freq=freq, **k2)
        got = t[["timestamp", "unique_resources", "unique_cases", "unique_activities", "num_events", "average_arrival_rate", "average_finish_rate", "average_waiting_time", "average_sojourn_time", "average_service_time"]].values.tolist()
        got = [tuple(r) for r in got]
        bad = [(g, x) for g, x in zip(got, exp) if pd.Timestamp(g[0]) != pd.Timestamp(x[0]) or any(abs(p - q) > 1e-3 for p, q in zip(g[1:], x[1:]))]
        ctx.check(len(got) == len(exp) and not bad, "temporal:" + nm, "the periods do not have the values of their events", rows=len(got), expected_rows=len(exp), wrong=[str(b) for b in bad[:2]], freq=freq, interval=interval)
        ctx.ev("tables")
    ctx.check(snap(views) == before, "input_changed", "the input has been changed")
    ctx.nontrivial("temporal", freq, interval, len(exp), len(D))


def fam_intervals(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng, ties=rng.choice([0, 0.4]))
    if rng.random() < 0.4:   # simultaneous cases
        t0 = al.cases[0][2][0]["time:timestamp"]
        for _, _, ev in al.cases:
            for i, e in enumerate(ev):
                e["time:timestamp"] = t0 + dt.timedelta(minutes=i)
    flt = rng.random() < 0.3
    acts = sorted({e["concept:name"] for _, _, ev in al.cases for e in ev})
    cp = (rng.choice(acts), rng.choice(acts))
    exp = Counter()
    for c, _, ev in al.cases:
        for i in range(len(ev) - 1):
            j = next((j for j in range(i + 1, len(ev)) if ev[j]["time:timestamp"] >= ev[i]["time:timestamp"]), None)
            if j is not None and (not flt or (ev[i]["concept:name"], ev[j]["concept:name"]) == cp):
                exp[ev[i]["time:timestamp"].timestamp(), ev[j]["time:timestamp"].timestamp(), ev[i]["uid"], ev[j]["uid"], c] += 1
    for nm, o, kw in h.both(rng, al, alt=False):
        par = {"filter_activity_couple": cp} if flt else {}
        r = ctx.call("intervals", open_paths.log_to_intervals, o, parameters=dict(par))
        got = Counter((a, b, x["uid"], y["uid"], t["concept:name"]) for a, b, x, y, t in r)
        ctx.eq(dict(got), dict(exp), "intervals:" + nm)
        ctx.check([(x[0], x[1]) for x in r] == sorted((x[0], x[1]) for x in r), "intervals:order", "the intervals are not sorted")
        tr = ctx.call("interval tree", open_paths.apply, o, parameters=dict(par))
        if exp:
            k = rng.choice(list(exp))
            q = rng.choice([k[0], k[1], (k[0] + k[1]) / 2])
            got = {(iv.data["source_event"]["uid"], iv.data["target_event"]["uid"]) for iv in tr[q]}
            ctx.eq(got, {(a[2], a[3]) for a in exp if a[0] <= q <= a[1]}, "interval_tree:" + nm, at=q)
        ctx.ev("tables")
    ctx.nontrivial("intervals", flt, len(exp), len(al.cases))


FAMILIES = {
    "split": (70, 800, fam_split),
    "artificial": (40, 500, fam_artificial),
    "times": (60, 700, fam_times),
    "features_log": (120, 1500, fam_features_log),
    "features_df": (90, 1000, fam_features_df),
    "events": (60, 700, fam_events),
    "temporal": (40, 500, fam_temporal),
    "intervals": (40, 400, fam_intervals),
}
