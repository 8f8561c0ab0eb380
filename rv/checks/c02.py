"""C02 log representations convert into each other without loss; format_dataframe keeps what it must"""
import copy, datetime as D, math
import pandas as pd, numpy as np
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event, EventStream
from rv import gen

RULE = "own records (case, position, attribute, value) before and after each conversion"
ASSUMPTIONS = ["traces without events and traces sharing a case identifier cannot be told in a table and are not generated",
               "an integer column with absent values may come back as equal floats (pandas)"]
MINIMUM = {"conversions": 400, "events compared": 6000, "formatted rows": 2000}
UTC = D.timezone.utc


def val(r, k):
    return {"s": lambda: r.choice(["x", "", "é", "a;b", "None", "nan", "1"]), "i": lambda: r.choice([0, 1, 2, -5, 10 ** 12]), "f": lambda: r.choice([0.5, 1.0, -2.25, 1e9]), "b": lambda: r.random() < .5,
            "d": lambda: D.datetime(2020, r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), 5, 6, r.choice([0, 123456]), UTC), "m": lambda: r.choice(["x", 1, 2.5, True])}[k]()


def mk(r):
    """list of (case id, case attrs, events)"""
    al = gen.rand_alog(r, attrs=False, ties=r.choice([0, .4]), micro=r.random() < .4, max_cases=12) if False else gen.rand_alog(r, attrs=False, ties=r.choice([0, .4]), micro=r.random() < .4)
    cols = {f"c{i}": (r.choice("sifbdm"), r.choice([0, 0, .4, .8])) for i in range(r.randint(0, 5))}
    ccols = {f"t{i}": (r.choice("sifbd"), r.choice([0, 0, .5])) for i in range(r.randint(0, 3))}
    cases = []
    for cid, _, ev in al.cases:
        ca = {k: val(r, t) for k, (t, miss) in ccols.items() if r.random() >= miss}
        evs = []
        for e in ev:
            x = {"concept:name": e["concept:name"], "time:timestamp": e["time:timestamp"], "uid": e["uid"]}
            if r.random() < .8:
                x["org:resource"] = e["org:resource"]
            x.update({k: val(r, t) for k, (t, miss) in cols.items() if r.random() >= miss})
            evs.append(x)
        if evs:
            cases.append((cid, ca, evs))
    return cases


def v(x):
    if absent(x):
        return ("nan",)
    if isinstance(x, (bool, np.bool_)):
        return ("b", bool(x))
    if isinstance(x, (int, float, np.integer, np.floating)):
        return ("n", float(x))
    if isinstance(x, D.datetime):
        return ("d", pd.Timestamp(x if x.tzinfo else x.replace(tzinfo=UTC)).tz_convert("UTC").isoformat())
    return ("s", str(x)) if isinstance(x, str) else ("?", repr(x))


def absent(x):
    return x is None or x is pd.NaT or x is pd.NA or (isinstance(x, float) and math.isnan(x))


def rec(d):
    return {k: v(x) for k, x in d.items()}


def drop(d):
    return {k: x for k, x in d.items() if x != ("nan",)}


def expect(cases):
    return [(cid, rec({**ca, "concept:name": cid}), [rec(e) for e in ev]) for cid, ca, ev in cases]


def of_log(log):
    return [(t.attributes.get("concept:name"), rec(t.attributes), [rec(dict(e)) for e in t]) for t in log]


def of_rows(rows, drop_absent=False):
    out = {}
    for x in rows:
        x = dict(x)
        if drop_absent:
            x = {k: y for k, y in x.items() if not absent(y)}
        cid = x["case:concept:name"]
        ca = rec({k[5:]: y for k, y in x.items() if k.startswith("case:")})
        ev = rec({k: y for k, y in x.items() if not k.startswith("case:")})
        c = out.setdefault(cid, (cid, ca, []))
        if c[1] != ca:
            out[cid] = (cid, {"!case attributes differ between the events of a case": (c[1], ca)}, c[2])
        c[2].append(ev)
    return list(out.values())


def to_log(cases):
    return EventLog([Trace([Event(dict(e)) for e in ev], attributes={"concept:name": cid, **ca}) for cid, ca, ev in cases], attributes={"src": "x"}, extensions={"Time": {"prefix": "time", "uri": "u"}}, classifiers={"A": ["concept:name"]}, omni_present={"event": {"concept:name": "x"}})


def to_df(cases):
    df = pd.DataFrame([{"case:concept:name": cid, **{"case:" + k: y for k, y in ca.items()}, **e} for cid, ca, ev in cases for e in ev])
    return df


def to_stream(cases):
    return EventStream([Event({"case:concept:name": cid, **{"case:" + k: y for k, y in ca.items()}, **e}) for cid, ca, ev in cases for e in ev])


def records(ctx, obj):
    if isinstance(obj, EventLog):
        return of_log(obj)
    if isinstance(obj, EventStream):
        return of_rows(obj)
    return of_rows(obj.to_dict("records"), drop_absent=True)


CONV = {"log": "convert_to_event_log", "stream": "convert_to_event_stream", "df": "convert_to_dataframe"}


def judge(ctx, got, exp, tag):
    ctx.ev("conversions")
    if [c[0] for c in got] != [c[0] for c in exp]:
        ctx.fail(f"{tag}:cases", f"{[c[0] for c in got]} expected {[c[0] for c in exp]}")
        return
    for (cid, ga, ge), (_, ea, ee) in zip(got, exp):
        ctx.ev("events compared", len(ee))
        if ga != ea:
            ctx.fail(f"{tag}:case attributes", f"case {cid}: {ga} expected {ea}")
        if len(ge) != len(ee):
            ctx.fail(f"{tag}:number of events", f"case {cid}: {len(ge)} expected {len(ee)}")
        for i, (x, y) in enumerate(zip(ge, ee)):
            if x != y:
                ctx.fail(f"{tag}:event", f"case {cid} event {i}: {[(k, x.get(k), y.get(k)) for k in sorted(set(x) | set(y)) if x.get(k) != y.get(k)][:4]}")
                break


def chains(ctx):
    r = ctx.rng
    cases = mk(r)
    if not cases:
        return
    exp = expect(cases)
    kind = r.choice(["log", "df", "stream"])
    obj = {"log": to_log, "df": to_df, "stream": to_stream}[kind](cases)
    path, nan = [kind], False
    ctx.nontrivial(len(cases), len(exp[0][2]))
    if kind == "df" and len(obj.columns) < 3:
        return
    for _ in range(r.randint(1, 4)):
        nxt = r.choice([k for k in CONV if k != kind])
        before = copy.deepcopy(obj)
        kw = {"stream_postprocessing": True} if kind == "df" and r.random() < .5 else {}
        raw = kind == "df" and not kw
        new = ctx.call(f"{kind}>{nxt}", getattr(pm4py, CONV[nxt]), obj, **kw)
        judge(ctx, records(ctx, obj), records(ctx, before), f"input of {kind}>{nxt} changed")
        nan = nan or raw
        kind, obj = nxt, new
        path.append(nxt)
        got = records(ctx, obj)
        if nan:  # without post-processing NaN/NaT mark what is absent
            got = [(c, drop(a), [drop(e) for e in l]) for c, a, l in got]
        tag = ">".join(path[-2:])
        judge(ctx, got, exp, tag)
    ctx.ev("chain lengths", len(path))
    if path[0] == "log" and kind == "log":
        ctx.ev("log to log chains")


def shuffled(ctx):
    """rows of the cases interleaved in time: the cases keep their own order"""
    r = ctx.rng
    cases = mk(r)
    if not cases:
        return
    rows = [(cid, {"case:concept:name": cid, **{"case:" + k: y for k, y in ca.items()}, **e}) for cid, ca, ev in cases for e in ev]
    # random interleaving keeping the order inside each case
    idx = [c for c, _ in rows]
    r.shuffle(idx)
    its = {}
    for c, x in rows:
        its.setdefault(c, []).append(x)
    its = {c: iter(l) for c, l in its.items()}
    order = list(dict.fromkeys(idx))
    inter = [next(its[c]) for c in idx]
    exp = {c[0]: c for c in expect(cases)}
    exp = [exp[c] for c in order]
    cid = "case:concept:name"
    if r.random() < .5:
        obj = pd.DataFrame(inter)
        if r.random() < .5:
            obj.index = r.sample(range(10 ** 4), len(obj))
        if len(obj.columns) < 3:
            return
    else:
        obj = EventStream([Event(x) for x in inter])
    log = ctx.call("interleaved>log", pm4py.convert_to_event_log, obj, stream_postprocessing=True)
    judge(ctx, of_log(log), exp, "interleaved>log")
    st = ctx.call("interleaved>stream", pm4py.convert_to_event_stream, obj, stream_postprocessing=True)
    ctx.eq([dict(e)["uid"] for e in st], [x["uid"] for x in inter], "interleaved>stream:order")
    df = ctx.call("interleaved>df", pm4py.convert_to_dataframe, st)
    ctx.eq(df["uid"].tolist(), [x["uid"] for x in inter], "interleaved>df:order")
    judge(ctx, of_log(ctx.call("stream>log", pm4py.convert_to_event_log, st)), exp, "interleaved>stream>log")


def custom_case(ctx):
    """custom case identifier column, other prefix"""
    r = ctx.rng
    cases = mk(r)
    if not cases:
        return
    df = to_df(cases).rename(columns={"case:concept:name": "Order"})
    if len(df.columns) < 3 or "org:resource" not in df:
        return
    log = ctx.call("df>log custom case id", pm4py.convert_to_event_log, df, case_id_key="Order", stream_postprocessing=True)
    got = [(c, a, [{k: x for k, x in e.items() if k != "Order"} for e in ev]) for c, a, ev in of_log(log)]
    judge(ctx, got, expect(cases), "custom case id")


def nullable(ctx):
    """pandas extension types"""
    r = ctx.rng
    cases = mk(r)
    if not cases:
        return
    df = to_df(cases)
    for c in list(df.columns):
        if c.startswith("c") and len(c) == 2 or c == "org:resource":
            vals = [x for x in df[c].tolist() if not absent(x)]
            t = {str: "string", bool: "boolean", int: "Int64"}.get(type(vals[0])) if vals and len({type(x) for x in vals}) == 1 else None
            if t == "Int64" or t == "boolean" or t == "string":
                df[c] = pd.array([None if absent(x) else x for x in df[c].tolist()], dtype=t)
                ctx.ev(f"columns of type {t}")
    if len(df.columns) < 3:
        return
    log = ctx.call("nullable df>log", pm4py.convert_to_event_log, df, stream_postprocessing=True)
    judge(ctx, of_log(log), expect(cases), "nullable df>log")


def raw_table(r):
    n = r.randint(1, 60)
    ids = r.choice([["1", "2", "3", "10"], ["2001", "2002", "1999"], [1, 2, 3, 12], ["20200101", "20200102"], ["a b", "é", "2020-01-01"], ["c1", "c2", "c3"]])
    acts = r.choice([list("abc"), ["2020", "2021"], ["Send goods", "Pay", "é"], [10, 20, 30]])
    rows = []
    t0 = D.datetime(2020, 1, 1)
    for i in range(n):
        t = t0 + D.timedelta(seconds=r.choice([0, 1, 1, 2, 60, 3600 * r.randint(0, 400)]), microseconds=r.choice([0, 0, 250000]))
        rows.append({"cid": r.choice(ids), "act": r.choice(acts), "ts": t, "row": i, "res": r.choice(["x", "y", None]), "amount": r.choice([1.5, 2.0, None])})
    miss = r.choice([0, 0, .2])
    for x in rows:
        for k in ("cid", "act", "ts"):
            if r.random() < miss / 2:
                x[k] = None
    return rows


def fmt(ctx):
    r = ctx.rng
    rows = raw_table(r)
    tzk = r.choice(["naive", "utc", "offset", "text", "textz"])
    def enc(t):
        if t is None:
            return None
        return {"naive": t, "utc": t.replace(tzinfo=UTC), "offset": t.replace(tzinfo=D.timezone(D.timedelta(hours=2))), "text": t.isoformat(), "textz": t.isoformat() + "Z"}[tzk]
    names = r.choice([("case:concept:name", "concept:name", "time:timestamp"), ("Case ID", "Activity", "Complete Timestamp"), ("concept:name", "task", "when"), ("order", "case:concept:name", "when"),
                      ("case:concept:name", "concept:name", "end"), ("concept:name", "case:concept:name", "time:timestamp")])
    stk = r.choice([None, None, "start_timestamp", "begin", "time:timestamp"])
    if stk == names[2]:
        stk = None
    data = []
    for x in rows:
        d = {names[0]: x["cid"], names[1]: x["act"], names[2]: enc(x["ts"]), "row": x["row"], "res": x["res"], "amount": x["amount"]}
        if stk:
            d[stk] = enc(x["ts"] - D.timedelta(seconds=30) if x["ts"] else x["ts"])
        data.append(d)
    df = pd.DataFrame(data)
    if df[names[2]].isna().all() or df[names[0]].isna().all() or df[names[1]].isna().all():
        return
    if r.random() < .3:
        df.index = r.sample(range(1000), len(df))
    kw = {"case_id": names[0], "activity_key": names[1], "timestamp_key": names[2]}
    if stk:
        kw["start_timestamp_key"] = stk
    out = ctx.call("format_dataframe", pm4py.format_dataframe, df.copy(), **kw)
    tag = "format"
    off = D.timedelta(hours=2) if tzk == "offset" else D.timedelta(0)
    def sid(x):
        # a column of integers with absent values is a column of floats for pandas
        return x
    keep = [x for x in rows if x["cid"] is not None and x["act"] is not None and x["ts"] is not None]
    ctx.ev("formatted rows", len(keep))
    ctx.nontrivial(len(keep), names[0], tzk)
    got = out.to_dict("records")
    if sorted(x["row"] for x in got) != sorted(x["row"] for x in keep):
        ctx.fail(f"{tag}:rows", f"kept {sorted(x['row'] for x in got)[:20]} expected {sorted(x['row'] for x in keep)[:20]}")
        return
    by = {x["row"]: x for x in rows}
    intcol = lambda k: all(isinstance(x[k], int) or x[k] is None for x in rows) and any(x[k] is None for x in rows)
    for g in got:
        o = by[g["row"]]
        for k, c in (("cid", "case:concept:name"), ("act", "concept:name")):
            want = str(o[k])
            if intcol(k):
                want = (want, want + ".0")
            ctx.check(g[c] in want if isinstance(want, tuple) else g[c] == want, f"{tag}:{k}", f"row {g['row']}: {g[c]!r} expected {want!r} (columns {names})")
        ctx.check(g["time:timestamp"].tzinfo is not None and g["time:timestamp"] == pd.Timestamp((o["ts"] - off).replace(tzinfo=UTC)), f"{tag}:timestamp", f"row {g['row']}: {g['time:timestamp']} expected {o['ts'] - off} ({tzk}, columns {names}, start {stk})")
        if stk:
            ctx.check(g["start_timestamp"] == pd.Timestamp((o["ts"] - D.timedelta(seconds=30) - off).replace(tzinfo=UTC)), f"{tag}:start timestamp", f"row {g['row']}: {g['start_timestamp']} expected {o['ts'] - off} - 30 s (columns {names}, start {stk})")
        ctx.check((absent(g["res"]) and o["res"] is None) or g["res"] == o["res"], f"{tag}:attribute", f"row {g['row']}: res {g['res']!r} expected {o['res']!r}")
        ctx.check((absent(g["amount"]) and o["amount"] is None) or g["amount"] == o["amount"], f"{tag}:attribute", f"row {g['row']}: amount {g['amount']!r} expected {o['amount']!r}")
    seq = {}
    for g in got:
        seq.setdefault(g["case:concept:name"], []).append(g["row"])
    for c, l in seq.items():
        ctx.eq(l, sorted(l, key=lambda i: (by[i]["ts"], i)), f"{tag}:order in case")
    ids = [g["case:concept:name"] for g in got]
    ctx.check(sum(1 for i in range(1, len(ids)) if ids[i] != ids[i - 1]) + 1 == len(set(ids)) or not ids, f"{tag}:cases contiguous", f"{ids[:40]}")
    ix = [g["@@index"] for g in got]
    ctx.eq(ix, list(range(len(got))), f"{tag}:index")
    m = {}
    for g in got:
        m.setdefault(g["case:concept:name"], set()).add(g["@@case_index"])
    ctx.check(all(len(x) == 1 for x in m.values()) and len(set().union(*m.values())) == len(m) if m else True, f"{tag}:case index", str(m)[:200])


def rebase(ctx):
    r = ctx.rng
    cases = [(c, {}, [{"concept:name": e["concept:name"], "time:timestamp": e["time:timestamp"], "uid": e["uid"], "Task": e["concept:name"] + "!", "org:resource": "r"} for e in ev]) for c, _, ev in mk(r)]
    if not cases:
        return
    kind = r.choice(["log", "df", "stream"])
    obj = {"log": to_log, "df": to_df, "stream": to_stream}[kind](cases)
    out = ctx.call(f"rebase:{kind}", pm4py.rebase, obj, activity_key="Task")
    ctx.ev("conversions")
    want = {}
    for c, _, ev in cases:
        ixd = {e["uid"]: i for i, e in enumerate(ev)}
        want[c] = [(e["uid"], e["Task"]) for e in sorted(ev, key=lambda e: (e["time:timestamp"], ixd[e["uid"]]))]
    got = {}
    if isinstance(out, EventLog):
        for t in out:
            got[t.attributes["concept:name"]] = [(e["uid"], e["concept:name"]) for e in t]
    else:
        for x in (out if isinstance(out, EventStream) else out.to_dict("records")):
            got.setdefault(x["case:concept:name"], []).append((x["uid"], x["concept:name"]))
    ctx.eq(got, want, f"rebase:{kind}")


FAMILIES = {"chains": (120, 3000, chains), "interleaved": (60, 1500, shuffled), "custom": (30, 500, custom_case), "nullable": (40, 600, nullable), "format": (150, 3000, fmt), "rebase": (30, 500, rebase)}
