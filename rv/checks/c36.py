"""C36: the textual abstractions state exactly what the object contains (parsed back and compared with values recomputed from the object)"""
import copy
import re
import statistics as st
from collections import Counter, defaultdict
import numpy as np
import pandas as pd
import pm4py
import pm4py.llm
from pm4py.objects.petri_net.obj import Marking, PetriNet
from pm4py.algo.querying.llm.abstractions import log_to_dfg_descr, log_to_variants_descr
from rv import gen, h, ocelgen as og
from rv.checks.c29 import mk

RULE = ("the abstraction of a log, object-centric log, net, declarative or temporal model lists exactly the paths/variants/events/objects/nodes/arcs/constraints/features of the object with the numbers recomputed "
        "from it, in the documented order; a maximum length only cuts the tail of the list; the header flag changes only the header")
ASSUMPTIONS = ["labels free of the separators of the abstraction", "with a maximum length the text may exceed the limit by at most one element"]
MINIMUM = {"lines": 4000, "texts": 600}

BIG = 10 ** 7


def alog(ctx, **kw):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6), hostile=False)
    return gen.rand_alog(r, traces=[[labs[hash_(x, labs)] for x in t] for t in gen.rand_traces(r)], **kw)


def hash_(x, labs):
    return sum(map(ord, x)) % len(labs)


def num(s):
    return float(s)


def fsplit(txt):
    """(' frequency = 3  performance = 1.000 stdev = 2.0' -> dict"""
    return {k: (v.replace("\\", "").replace("%", "")) for k, v in re.findall(r"(\w+) = (\S+)", txt)}


def body(ctx, full, bare, tag, hint):
    """the header only adds text in front (or in the middle): the lines of the bare abstraction are kept in order"""
    a, b = [x for x in full.split("\n") if x.strip()], [x for x in bare.split("\n") if x.strip()]
    it = iter(a)
    ctx.check(all(any(x == y for y in it) for x in b), f"{tag}:header", "lines of the abstraction without header are not in the one with header", missing=[x for x in b if x not in a][:4])
    ctx.check(len(a) > len(b) and hint in full, f"{tag}:header", "no header in the abstraction with header")
    ctx.ev("texts", 2)
    return b


def cut(ctx, fn, lines, tag, slack=400):
    """max_len cuts the tail only"""
    n = ctx.rng.choice([0, 30, 80, 200, 500])
    s = ctx.call(tag, fn, n)
    got = [x for x in s.split("\n") if x.strip()]
    ctx.check(got == lines[:len(got)], f"{tag}:maxlen", "not a head of the full list", got0=got[:3], full=lines[:3], n=n)
    longest = max((len(x) for x in lines), default=0)
    ctx.check(len(s) <= n + longest + 60, f"{tag}:maxlen", "much longer than the maximum length", n=n, length=len(s))
    if sum(len(x) + 12 for x in lines) + 40 < n:
        ctx.check(got == lines, f"{tag}:maxlen", "elements missing although they fit", n=n, listed=len(got), total=len(lines))


AGG = {"mean": lambda v: sum(v) / len(v), "median": st.median, "min": min, "max": max, "sum": sum}


def fam_dfg(ctx):
    r = ctx.rng
    al = alog(ctx, ties=r.choice([0, .2]))
    freq, per, once = Counter(), defaultdict(list), Counter()
    for _, _, evs in al.cases:
        ps = [(a["concept:name"], b["concept:name"], (b["time:timestamp"] - a["time:timestamp"]).total_seconds()) for a, b in zip(evs, evs[1:])]
        for a, b, d in ps:
            freq[a, b] += 1
            per[a, b].append(d)
        for p in {(a, b) for a, b, _ in ps}:
            once[p] += 1
    rel = r.random() < .3
    pa, sa = r.choice(["mean", "median", "min", "max", "sum"]), r.choice([None, "stdev", "max", "mean"])
    perf = r.random() < .7
    for name, obj, kw in h.both(r, al):
        f = lambda m=BIG, hd=False: pm4py.llm.abstract_dfg(obj, max_len=m, include_performance=perf, relative_frequency=rel, response_header=hd, primary_performance_aggregation=pa, secondary_performance_aggregation=sa, **kw)
        lines = body(ctx, ctx.call("abstract_dfg", f, BIG, True), ctx.call("abstract_dfg", f), "dfg", "flow")
        rows = [re.fullmatch(r"(.+?) -> (.+?) \((.*)\)", x) for x in lines]
        if not ctx.check(all(rows), "dfg:format", "unreadable line", lines=[x for x, y in zip(lines, rows) if not y][:3]):
            return
        got = {(m[1], m[2]): fsplit(m[3]) for m in rows}
        ctx.check(len(got) == len(rows) and set(got) == set(freq), "dfg:paths", "listed paths differ from the log's", extra=sorted(set(got) - set(freq))[:3], missing=sorted(set(freq) - set(got))[:3], view=name)
        last = None
        for m in rows:
            p = (m[1], m[2])
            if p not in freq:
                continue
            g = got[p]
            e = max(1, int(once[p] * 100.0 // len(al.cases))) if rel else freq[p]
            ctx.check(int(g["frequency"]) == e, "dfg:frequency", f"{p}: {g['frequency']} instead of {e}", view=name, rel=rel)
            ctx.check(last is None or int(g["frequency"]) <= last, "dfg:order", "paths not by decreasing frequency", lines=lines[:6])
            last = int(g["frequency"])
            if perf:
                ctx.check(abs(num(g["performance"]) - AGG[pa](per[p])) < 6e-4 + 1e-9 * abs(AGG[pa](per[p])), "dfg:performance", f"{p}: {g['performance']} for {pa} of {per[p][:8]}", view=name)
                if sa == "stdev":
                    if len(per[p]) > 1:
                        ctx.check("stdev" in g and abs(num(g["stdev"]) - st.stdev(per[p])) < 2e-3 + 1e-6 * st.stdev(per[p]), "dfg:secondary", f"{p}: {g.get('stdev')} for stdev of {per[p][:8]}")
                    else:
                        ctx.check(num(g.get("stdev", 0)) == 0, "dfg:secondary", f"{p}: standard deviation {g.get('stdev')} of a single value {per[p]}", view=name)
                elif sa:
                    ctx.check(sa in g and abs(num(g[sa]) - AGG[sa](per[p])) < 6e-4 + 1e-9 * AGG[sa](per[p]), "dfg:secondary", f"{p}: {g.get(sa)} for {sa} of {per[p][:8]}")
            else:
                ctx.check("performance" not in g, "dfg:performance", "performance although not requested")
            ctx.ev("lines")
        cut(ctx, f, lines, "dfg")
        if not rel:
            prm = {"include_frequency": False, "include_performance": False, "response_header": False, "max_len": BIG}
            if kw:
                from pm4py.utils import get_properties
                prm.update(get_properties(obj, **{k: v for k, v in kw.items()}))
            s = ctx.call("dfg_plain", log_to_dfg_descr.apply, obj, parameters=prm)
            ctx.eq(sorted(x.strip() for x in s.split("\n") if x.strip()), sorted(f"{a} -> {b}" for a, b in freq), "dfg:plain")
    ctx.nontrivial("dfg", len(freq), len(al.cases), rel, pa, sa)


def fam_variants(ctx):
    r = ctx.rng
    al = alog(ctx, ties=r.choice([0, .2]))
    v = defaultdict(list)
    for _, _, evs in al.cases:
        if evs:
            v[tuple(e["concept:name"] for e in evs)].append((evs[-1]["time:timestamp"] - evs[0]["time:timestamp"]).total_seconds())
    rel = r.random() < .3
    pa, sa = r.choice(["mean", "median", "min", "max", "sum"]), r.choice([None, "stdev", "max", "mean"])
    perf = r.random() < .7
    n = sum(map(len, v.values()))
    for name, obj, kw in h.both(r, al):
        f = lambda m=BIG, hd=False: pm4py.llm.abstract_variants(obj, max_len=m, include_performance=perf, relative_frequency=rel, response_header=hd, primary_performance_aggregation=pa, secondary_performance_aggregation=sa, **kw)
        lines = body(ctx, ctx.call("abstract_variants", f, BIG, True), ctx.call("abstract_variants", f), "variants", "variants")
        rows = [re.fullmatch(r" (.+?) \((.*)\)", x) for x in lines]
        if not ctx.check(all(rows), "variants:format", "unreadable line", lines=lines[:3]):
            return
        got = {tuple(m[1].split(" -> ")): fsplit(m[2]) for m in rows}
        ctx.check(len(got) == len(rows) and set(got) == set(v), "variants:set", "listed variants differ from the log's", extra=sorted(set(got) - set(v))[:3], missing=sorted(set(v) - set(got))[:3], view=name)
        last = None
        for w, g in got.items():
            if w not in v:
                continue
            e = max(1, int(len(v[w]) * 100.0 // n)) if rel else len(v[w])
            ctx.check(int(g["frequency"]) == e, "variants:frequency", f"{w}: {g['frequency']} instead of {e}", view=name, rel=rel)
            ctx.check(last is None or int(g["frequency"]) <= last, "variants:order", "variants not by decreasing frequency", lines=lines[:6])
            last = int(g["frequency"])
            if perf:
                x = AGG[pa](v[w])
                ctx.check(abs(num(g["performance"]) - x) < 6e-4 + 1e-9 * abs(x), "variants:performance", f"{w}: {g['performance']} for {pa} of {v[w][:8]}", view=name)
                if sa == "stdev":
                    if len(v[w]) > 1:
                        ctx.check("stdev" in g and abs(num(g["stdev"]) - st.pstdev(v[w])) < 2e-3 + 1e-6 * st.pstdev(v[w]), "variants:secondary", f"{g.get('stdev')} for stdev of {v[w][:8]}")
                elif sa:
                    ctx.check(sa in g and abs(num(g[sa]) - AGG[sa](v[w])) < 6e-4 + 1e-9 * AGG[sa](v[w]), "variants:secondary", f"{g.get(sa)} for {sa} of {v[w][:8]}")
            else:
                ctx.check("performance" not in g, "variants:performance", "performance although not requested")
            ctx.ev("lines")
        cut(ctx, f, lines, "variants")
        if not rel and not kw:
            prm = {"include_frequency": False, "include_performance": False, "response_header": False, "max_len": BIG}
            s = ctx.call("variants_plain", log_to_variants_descr.apply, obj, parameters=prm)
            ctx.eq(sorted(x.strip() for x in s.split("\n") if x.strip()), sorted(" -> ".join(w) for w in v), "variants:plain")
    ctx.nontrivial("variants", len(v), n, rel, pa, sa)


def fam_ocel(ctx):
    r = ctx.rng
    a = mk(ctx)
    oc = a.build()
    ts = r.random() < .6
    e_objs, o_evs = a.e_objs(), a.o_evs()
    typ = {o["oid"]: o["type"] for o in a.objects} if isinstance(a.objects[0], dict) else {o[0]: o[1] for o in a.objects}
    evs = {e["eid"]: e for e in a.events} if isinstance(a.events[0], dict) else {e[0]: e for e in a.events}
    s = ctx.call("abstract_ocel", pm4py.llm.abstract_ocel, oc, include_timestamps=ts)
    ctx.ev("texts")
    lines = [x for x in s.split("\n") if x.strip()]
    i, j = lines.index("events:"), lines.index("objects:")
    E, O = lines[i + 1:j], lines[j + 1:]
    ctx.eq(len(E), len(oc.events), "ocel:events")
    ctx.eq(len(O), len(oc.objects), "ocel:objects")
    rel = defaultdict(list)
    life = defaultdict(list)
    for d in oc.relations.to_dict("records"):
        rel[d["ocel:eid"]].append(d["ocel:oid"])
        life[d["ocel:oid"]].append(d["ocel:timestamp"])
    want = Counter()
    for d in oc.events.to_dict("records"):
        want[d["ocel:activity"], tuple(sorted(rel[d["ocel:eid"]])), str(d["ocel:timestamp"]) if ts else ""] += 1
    got, tss = Counter(), []
    for x in E:
        m = re.fullmatch(r"(.+?) \( related objects: (.*?) \) ?(?: timestamp: (.*))?", x)
        if not ctx.check(m is not None, "ocel:format", "unreadable line", line=x):
            return
        got[m[1], tuple(sorted(y for y in m[2].split(", ") if y)), m[3] or ""] += 1
        tss.append(m[3] or "")
        ctx.ev("lines")
    ctx.check(got == want, "ocel:events", "events differ", extra=list((got - want))[:3], missing=list((want - got))[:3], ts=ts)
    if ts:
        ctx.check([pd.Timestamp(x) for x in tss] == sorted(pd.Timestamp(x) for x in tss), "ocel:order", "events not in time order")
    want = {}
    for d in oc.objects.to_dict("records"):
        o = d["ocel:oid"]
        l = life.get(o)
        want[o] = (d["ocel:type"], min(l) if ts and l else None, max(l) if ts and l else None)
    for x in O:
        m = re.fullmatch(r"(.+?) object type: (.+?)(?: \( lifecycle start: (.*?) ; lifecycle end: (.*?) ; lifecycle duration: (.*?) \))?", x)
        if not ctx.check(m is not None and m[1] in want, "ocel:format", "unreadable line", line=x):
            return
        t, b, e = want.pop(m[1])
        ctx.check(m[2] == t, "ocel:type", f"{m[1]}: type {m[2]} instead of {t}")
        if b is None:
            ctx.check(m[3] is None or not ts or m[3] in ("None", "NaT", "nan"), "ocel:lifecycle", "lifecycle of an object without events", line=x)
        else:
            ok = m[3] is not None and pd.Timestamp(m[3]) == b and pd.Timestamp(m[4]) == e and abs(float(m[5]) - (e - b).total_seconds()) < 1e-5
            ctx.check(ok, "ocel:lifecycle", "wrong lifecycle", line=x, start=str(b), end=str(e))
        ctx.ev("lines")
    ctx.check(not want, "ocel:objects", "objects not listed", missing=list(want)[:3])
    ctx.nontrivial("ocel", len(E), len(O), ts)


def fam_ocdfg(ctx):
    r = ctx.rng
    a = mk(ctx)
    oc = a.build()
    typ = dict(zip(oc.objects["ocel:oid"], oc.objects["ocel:type"]))
    hist = defaultdict(list)
    pos = {e: i for i, e in enumerate(oc.events["ocel:eid"])}
    ev = {d["ocel:eid"]: d for d in oc.events.to_dict("records")}
    for e, o in {(d["ocel:eid"], d["ocel:oid"]) for d in oc.relations.to_dict("records")}:
        hist[o].append(e)
    couples, objs, durs = defaultdict(set), defaultdict(set), defaultdict(list)
    for o, l in hist.items():
        l.sort(key=lambda e: (ev[e]["ocel:timestamp"], pos[e]))
        for x, y in zip(l, l[1:]):
            k = (typ[o], ev[x]["ocel:activity"], ev[y]["ocel:activity"])
            couples[k].add((x, y))
            objs[k].add(o)
            durs[k].append((ev[y]["ocel:timestamp"] - ev[x]["ocel:timestamp"]).total_seconds())
    ts = r.random() < .6
    f = lambda m=BIG, hd=False: pm4py.llm.abstract_ocel_ocdfg(oc, include_header=hd, include_timestamps=ts, max_len=m)
    lines = body(ctx, ctx.call("abstract_ocel_ocdfg", f, BIG, True), ctx.call("abstract_ocel_ocdfg", f), "ocdfg", "object-centric")
    got, cur, order = {}, None, defaultdict(list)
    for x in lines:
        m = re.fullmatch(r"Object type: (.*)", x)
        if m:
            cur = m[1]
            continue
        m = re.fullmatch(r'\s*"(.+?)" -> "(.+?)" \(frequency \(number of events\) = (\d+), frequency \(number of objects\) = (\d+)(?:, duration = (.+))?\)', x)
        if not ctx.check(m is not None, "ocdfg:format", "unreadable line", line=x):
            return
        ctx.check((cur, m[1], m[2]) not in got, "ocdfg:twice", "path listed twice", line=x)
        got[cur, m[1], m[2]] = (int(m[3]), int(m[4]), None if m[5] is None else float(m[5]))
        order[cur].append(int(m[3]))
        ctx.ev("lines")
    ctx.check(set(got) == set(couples), "ocdfg:paths", "listed paths differ from the log's", extra=sorted(set(got) - set(couples))[:3], missing=sorted(set(couples) - set(got))[:3])
    for k, (n, m, d) in got.items():
        if k in couples:
            ctx.check(n == len(couples[k]) and m == len(objs[k]), "ocdfg:frequency", f"{k}: {n} events, {m} objects instead of {len(couples[k])}, {len(objs[k])}")
            ctx.check((d is not None) == ts, "ocdfg:timestamps", "durations do not follow include_timestamps", ts=ts)
            if d is not None:
                ref = [(ev[y]["ocel:timestamp"] - ev[x]["ocel:timestamp"]).total_seconds() for x, y in couples[k]]
                ctx.check(abs(d - sum(ref) / len(ref)) < 6e-3 + 1e-9 * abs(sum(ref)), "ocdfg:duration", f"{k}: {d}, durations {ref[:6]}")
    ctx.check(all(l == sorted(l, reverse=True) for l in order.values()), "ocdfg:order", "paths not by decreasing frequency")
    # the limit keeps the most frequent paths
    n = r.choice([0, 100, 300, 600])
    s = ctx.call("ocdfg", f, n)
    c2 = [x for x in s.split("\n") if '" -> "' in x]
    ctx.check(not (Counter(c2) - Counter(x for x in lines if '" -> "' in x)), "ocdfg:maxlen", "paths not in the full list")
    if c2 and len(c2) < len(got):
        fr = sorted((v[0] for v in got.values()), reverse=True)
        mine = sorted((int(re.search(r"events\) = (\d+)", x)[1]) for x in c2), reverse=True)
        ctx.eq(mine, fr[:len(mine)], "ocdfg:maxlen")
    ctx.nontrivial("ocdfg", len(got), ts)


def quant(v):
    return [float(np.quantile(v, q)) for q in (0, .25, .5, .75, 1)]


def judge_fea(ctx, lines, tab, tag):
    """tab: {column: values}; every column with positive values is one line"""
    want = Counter()
    for c, v in tab.items():
        p = [float(x) for x in v if x == x and x > 0]
        if p:
            want[(len(p),) + tuple(round(x, 4) for x in quant(p))] += 1
    got, ns, names = Counter(), [], []
    for x in lines:
        m = re.fullmatch(r"\s*(.+?):    number of non-zero values: (\d+) ; quantiles of the non-zero: (\{.*\})", x)
        if not ctx.check(m is not None, f"{tag}:format", "unreadable line", line=x):
            return
        d = {float(a): float(b) for a, b in re.findall(r"([\d.]+): (?:np\.float64\()?([-\d.e+]+)\)?", m[3])}
        got[(int(m[2]),) + tuple(round(d[q], 4) for q in (0, .25, .5, .75, 1))] += 1
        ns.append(int(m[2]))
        names.append(m[1])
        ctx.ev("lines")
    ctx.check(got == want, f"{tag}:values", "feature lines differ from the feature table", extra=list(got - want)[:3], missing=list(want - got)[:3])
    ctx.check(ns == sorted(ns, reverse=True), f"{tag}:order", "not by decreasing number of non-zero values")
    return names


def fam_features(ctx):
    r = ctx.rng
    if r.random() < .5:
        a = mk(ctx)
        oc = a.build()
        ots = sorted(set(oc.objects["ocel:type"]))
        ot = r.choice(ots)
        paths = r.random() < .5
        try:
            tab = pm4py.extract_ocel_features(oc, ot, include_obj_id=False, debug=False, enable_object_lifecycle_paths=paths)
        except Exception:
            return ctx.ev("no features")
        f = lambda m=BIG, hd=False: pm4py.llm.abstract_ocel_features(oc, ot, include_header=hd, max_len=m, debug=False, enable_object_lifecycle_paths=paths)
        tag, hint = "oceletures", "features"
        lines = body(ctx, ctx.call("abstract_ocel_features", f, BIG, True), ctx.call("abstract_ocel_features", f), tag, hint)
        names = judge_fea(ctx, lines, {c: tab[c].tolist() for c in tab.columns}, tag)
        if names is not None:
            mine = Counter()
            for c in tab.columns:
                if (tab[c] > 0).any():
                    if c.startswith("@@ocel_lif_activity_"):
                        mine["Number of occurrences of the activity " + c[len("@@ocel_lif_activity_"):]] += 1
            ctx.check(not (mine - Counter(names)), f"{tag}:names", "activity features not listed", missing=list(mine - Counter(names))[:3])
            if (tab.get("@@object_lifecycle_length", pd.Series([0])) > 0).any():
                ctx.check("Number of events in the lifecycle of the object" in names, f"{tag}:names", "lifecycle length not listed")
        cut(ctx, f, lines, tag)
        ctx.nontrivial("ocfea", len(lines))
        return
    al = alog(ctx)
    for name, obj, kw in h.both(r, al):
        if kw:
            continue
        from pm4py.algo.transformation.log_to_features import algorithm as l2f
        log = pm4py.convert_to_event_log(obj)
        data, cols = l2f.apply(log)
        f = lambda m=BIG, hd=False: pm4py.llm.abstract_log_features(obj, max_len=m, include_header=hd)
        lines = body(ctx, ctx.call("abstract_log_features", f, BIG, True), ctx.call("abstract_log_features", f), "logfeatures", "features")
        names = judge_fea(ctx, lines, {c: [row[i] for row in data] for i, c in enumerate(cols)}, "logfeatures")
        cut(ctx, f, lines, "logfeatures")
        ctx.nontrivial("logfea", len(lines))


def has(text, q):
    v = re.findall(r": (?:Timestamp\('(.*?)'|([-\d.e+]+))", text)
    return len(v) == len(q) and all(pd.Timestamp(a) == x if a else abs(float(b) - x) <= 1e-9 * abs(x) for (a, b), x in zip(v, q))


def fam_stream(ctx):
    r = ctx.rng
    al = alog(ctx, distinct_time=True)
    evs = sorted((e["time:timestamp"], e["concept:name"], e["uid"]) for _, _, es in al.cases for e in es)
    if not evs:
        return
    kind = r.choice(["log", "df", "stream"])
    obj = al.to_log() if kind != "df" else al.to_df()
    if kind == "stream":
        obj = pm4py.convert_to_event_stream(obj)
        before = [dict(e) for e in obj]
    n = r.choice([BIG, BIG, 0, 300, 1000, 3000])
    hd = r.random() < .5
    s = ctx.call("abstract_event_stream", pm4py.llm.abstract_event_stream, obj, max_len=n, response_header=hd)
    ctx.ev("texts")
    if kind == "stream":
        ctx.check([dict(e) for e in obj] == before, "stream:mutation", "the event stream given as input was changed")
    lines = [x for x in s.split("\n") if x.strip()]
    if hd:
        ctx.check(lines and "stream" in lines[0], "stream:header", "no header")
        lines = lines[1:]
    got = []
    for x in lines:
        m = re.search(r"(?<!:)'?concept:name'?: '(.*?)'", x), re.search(r"'?uid'?: (?:np\.int64\()?(\d+)", x)
        if not ctx.check(all(m), "stream:format", "unreadable line", line=x):
            return
        got.append((m[0][1], int(m[1][1])))
    want = [(a, u) for _, a, u in evs]
    ctx.check(got == want[len(want) - len(got):], "stream:events", "not the last events of the stream in time order", first=got[:3], kind=kind)
    if n == BIG:
        ctx.eq(len(got), len(want), "stream:count")
    else:
        ctx.check(len(s) <= n + max(map(len, lines), default=0) + 60, "stream:maxlen", "much longer than the maximum length", n=n, length=len(s))
        ctx.check(len(got) == len(want) or len(s) >= n - 60, "stream:maxlen", "events missing although they fit", n=n, length=len(s))
    ctx.ev("lines", len(got))
    ctx.nontrivial("stream", kind, len(got), hd)


def fam_models(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6), hostile=False)
    kind = r.choice(["net", "declare", "skeleton", "temporal", "case", "attributes"])
    if kind == "net":
        places, trans = gen.rand_free_net(r, labs=labs)
        net, po = gen.build_net(places, trans)
        im, fm = (Marking({po[p]: r.choice([1, 1, 2]) for p in places if r.random() < .3}) for _ in range(2))
        f = lambda hd: pm4py.llm.abstract_petri_net(net, im, fm, response_header=hd)
        lines = body(ctx, ctx.call("abstract_petri_net", f, True), ctx.call("abstract_petri_net", f, False), "net", "Petri net")
        s = "\n".join(lines)
        m = re.search(r"places: \[(.*?)\]\ntransitions: \[(.*)\]\narcs: \[(.*)\]\ninitial marking: \[?(.*?)\]?\nfinal marking: \[?(.*?)\]?$", s, re.S) or re.search(r"places: \[(.*?)\]\s*transitions: \[(.*)\]\s*arcs: \[(.*)\]\s*initial marking: \[?(.*?)\]?\s*final marking: \[?(.*?)\]?\s*$", s, re.S)
        if not ctx.check(m is not None, "net:format", "unreadable abstraction", text=s[:300]):
            return
        P = Counter(x.strip() for x in m[1].split(",") if x.strip())
        ctx.eq(P, Counter(str(p.name) for p in net.places), "net:places")
        T = Counter(re.findall(r"\((.*?), ('.*?'|None)\)", m[2]))
        ctx.eq(T, Counter((t.name, "None" if t.label is None else f"'{t.label}'") for t in net.transitions), "net:transitions")
        nd = r"((?:\([^()]*?, (?:'[^']*'|None)\)|[^,\s()]+))"
        nm = lambda x: str(x.name) if isinstance(x, PetriNet.Place) else f"({x.name}, " + ("None" if x.label is None else f"'{x.label}'") + ")"
        ctx.eq(Counter(re.findall(nd + "->" + nd, m[3])), Counter((nm(x.source), nm(x.target)) for x in net.arcs), "net:arcs")
        for what, t, mk_ in (("im", m[4], im), ("fm", m[5], fm)):
            g = Counter()
            for p in t.split(","):
                q = re.fullmatch(r"\s*'?(.+?)'?:\s*(\d+)'?\s*", p)
                if q:
                    g[q[1].strip().strip("'")] += int(q[2])
            ctx.eq(g, Counter({str(p.name): n for p, n in mk_.items()}), f"net:{what}")
        ctx.ev("lines", len(lines))
        return ctx.nontrivial("net", len(net.places), len(net.transitions), len(net.arcs))
    if kind == "temporal":
        prof = {(r.choice(labs), r.choice(labs)): (r.random() * 10 ** r.randint(0, 6), r.choice([0.0, r.random() * 1000])) for _ in range(r.randint(0, 12))}
        f = lambda hd: pm4py.llm.abstract_temporal_profile(prof, include_header=hd)
        lines = body(ctx, ctx.call("abstract_temporal_profile", f, True), ctx.call("abstract_temporal_profile", f, False), "temporal", "temporal profile")
        got = {}
        for x in lines:
            m = re.fullmatch(r"(.+?) -> (.+?) :  AVG: (\S+) s  STD: (\S+) s", x)
            if not ctx.check(m is not None, "temporal:format", "unreadable line", line=x):
                return
            got[m[1], m[2]] = (float(m[3]), float(m[4]))
            ctx.ev("lines")
        ctx.check(set(got) == set(prof) and len(lines) == len(prof) and all(abs(got[k][i] - prof[k][i]) < 6e-3 for k in prof for i in (0, 1)), "temporal:values", "different profile", got_=got, prof=str(prof)[:300])
        return ctx.nontrivial("temporal", len(prof))
    al = alog(ctx)
    if not any(es for _, _, es in al.cases):
        return
    if kind == "declare":
        tr = al.to_log()
        mdl = pm4py.discover_declare(tr, min_support_ratio=r.choice([None, .3, .8]), min_confidence_ratio=r.choice([None, .5]))
        f = lambda hd: pm4py.llm.abstract_declare(mdl, include_header=hd)
        lines = body(ctx, ctx.call("abstract_declare", f, True), ctx.call("abstract_declare", f, False), "declare", "DECLARE")
        got = {}
        for x in lines[1:]:
            t, _, cs = x.partition(": ")
            ctx.check(t not in got, "declare:twice", "template twice", line=x)
            got[t.lower().replace(" ", "").replace("-", "")] = cs
            ctx.ev("lines")
        norm = {"exactly_one": "exactly1", "init": "initialization", "altresponse": "alternateresponse", "altprecedence": "alternateprecedence", "altsuccession": "alternatesuccession",
                "noncoexistence": "noncoexistence"}
        want = {norm.get(t, t).replace("_", ""): t for t in mdl}
        ctx.check(set(got) == set(want), "declare:templates", "templates differ", got_=sorted(got), want=sorted(want))
        for t in set(got) & set(want):
            ctx.eq(Counter(got[t].split(", ")) if "(" not in got[t] else Counter(re.findall(r"\('.*?', '.*?'\)", got[t])), Counter(str(x) for x in mdl[want[t]]) if mdl[want[t]] else Counter([""]), "declare:constraints", template=t)
        return ctx.nontrivial("declare", len(got), sum(map(len, mdl.values())))
    if kind == "skeleton":
        mdl = pm4py.discover_log_skeleton(al.to_log(), noise_threshold=r.choice([0, 0, .1, .3]))
        f = lambda hd: pm4py.llm.abstract_log_skeleton(mdl, include_header=hd)
        lines = body(ctx, ctx.call("abstract_log_skeleton", f, True), ctx.call("abstract_log_skeleton", f, False), "skeleton", "Log Skeleton")
        names = {"equivalence": "Equivalence", "always_before": "Always Before", "always_after": "Always After", "never_together": "Never Together", "directly_follows": "Directly-Follows Constraints", "activ_freq": "Activity Occurrences"}
        got = dict(x.partition(": ")[::2] for x in lines)
        ctx.check(set(got) == set(names.values()), "skeleton:relations", "relations differ", got_=sorted(got))
        for k, nm_ in names.items():
            if nm_ not in got:
                continue
            if k == "activ_freq":
                g = {a.strip(): sorted(b.replace(" ", "").split(",")) for a, _, b in (x.partition(": ") for x in got[nm_].split(";") if x.strip())}
                ctx.eq(g, {a: sorted(str(y) for y in b) for a, b in mdl[k].items()}, "skeleton:frequencies")
            else:
                ctx.eq(Counter(re.findall(r"\('.*?', '.*?'\)", got[nm_])), Counter(str(x) for x in mdl[k]), "skeleton:" + k)
        ctx.ev("lines", len(lines))
        return ctx.nontrivial("skeleton", tuple(len(mdl[k]) for k in names))
    if kind == "case":
        log = al.to_log(h.ALT if r.random() < .3 else None)
        alt = bool(len(log)) and any("Act" in e for t in log for e in t)
        ak, tk = ("Act", "When") if alt else ("concept:name", "time:timestamp")
        case = r.choice([t for t in log if len(t)])
        ca, ea, ts = (r.random() < .6 for _ in range(3))
        f = lambda hd: pm4py.llm.abstract_case(case, include_case_attributes=ca, include_event_attributes=ea, include_timestamp=ts, include_header=hd, activity_key=ak, timestamp_key=tk)
        lines = body(ctx, ctx.call("abstract_case", f, True), ctx.call("abstract_case", f, False), "case", "case")
        k = len(case.attributes) if ca else 0
        ctx.eq(sorted(lines[:k]), sorted(f"{a} = {b}" for a, b in case.attributes.items()) if ca else [], "case:attributes")
        ctx.eq(len(lines) - k, len(case), "case:events")
        for x, e in zip(lines[k:], case):
            m = re.fullmatch(r"(.+?) (?:\((.*)\))?", x)
            if not ctx.check(m is not None, "case:format", "unreadable line", line=x):
                return
            ctx.check(m[1] == str(e[ak]), "case:activity", "wrong activity", line=x)
            g = dict(y.strip().partition(" = ")[::2] for y in (m[2] or "").split(" ; ") if y.strip())
            w = {}
            if ts:
                w["timestamp"] = str(e[tk])
            if ea:
                w.update({a: str(e[a]) for a in e if a not in (ak, tk)})
            ctx.check(g == w, "case:values", "wrong attributes", line=x, want=w)
            ctx.ev("lines")
        return ctx.nontrivial("case", ca, ea, ts, len(case))
    # attributes of a log
    for name, obj, kw in h.both(r, al, alt=0):
        df = pm4py.convert_to_dataframe(obj)
        s = ctx.call("abstract_log_attributes", pm4py.llm.abstract_log_attributes, obj, max_len=BIG, **kw)
        ctx.ev("texts")
        ck = kw.get("case_id_key", "case:concept:name")
        seen = {}
        for x in s.split("\n"):
            m = re.match(r"(\S+)  empty: (\d+) (.*)", x)
            if not ctx.check(m is not None, "attributes:format", "unreadable line", line=x[:100]):
                return
            seen[m[1]] = (int(m[2]), m[3])
            ctx.ev("lines")
        for c in df.columns:
            if c == ck:
                continue
            ty = str(df[c].dtype)
            if "float" in ty or "date" in ty:
                if not ctx.check(c in seen, "attributes:missing", "column not described", column=c):
                    continue
                q = df[c].quantile([0, .25, .5, .75, 1]).tolist()
                ctx.check(seen[c][0] == int(df[c].isna().sum()) and has(seen[c][1], q), "attributes:quantiles", "wrong quantiles", column=c, text=seen[c][1][:200])
            elif ty in ("object", "bool", "string"):
                vals = Counter(v for v in df[c].tolist() if v == v and v is not None)
                if len(vals) > 1:
                    if not ctx.check(c in seen, "attributes:missing", "column not described", column=c):
                        continue
                    g = re.findall(r"\((.*?); freq\. (\d+)\)", seen[c][1])
                    ctx.check(Counter({a: int(b) for a, b in g}) == Counter({str(a): b for a, b in vals.items()}) and len(g) == len(vals), "attributes:values", "wrong values", column=c, text=seen[c][1][:200])
                    ctx.check([int(b) for _, b in g] == sorted((int(b) for _, b in g), reverse=True), "attributes:order", "not by decreasing frequency", column=c)
                else:
                    ctx.check(c not in seen, "attributes:constant", "constant column described", column=c)
        ctx.check(set(seen) <= set(df.columns) - {ck}, "attributes:extra", "unknown columns", extra=sorted(set(seen) - set(df.columns)))
    ctx.nontrivial("attributes", len(al.cases))


FAMILIES = {"dfg": (60, 900, fam_dfg), "variants": (60, 900, fam_variants), "ocel": (60, 900, fam_ocel), "ocdfg": (60, 900, fam_ocdfg), "features": (50, 600, fam_features), "stream": (50, 700, fam_stream),
            "models": (150, 2500, fam_models)}
