"""C01 XES export + import reproduces the log, for every exporter x importer"""
import os, math, tempfile, datetime as D
import pm4py
from pm4py.objects.log.obj import EventLog, Trace, Event
from pm4py.objects.log.exporter.xes import exporter as X
from pm4py.objects.log.importer.xes import importer as I
from rv import gen, h

RULE = "attribute trees (key, type, value, children) of the log written vs. of the log read"
ASSUMPTIONS = ["concept:name is a string; characters XML 1.0 cannot hold, nanoseconds, and None values (exported as absent) are not part of the claim",
               "line_by_line and chunk_regex importers: only 'simple attributes', as their documentation says; rustxes: strings, floats, booleans and dates of traces and events",
               "naive datetimes mean UTC"]
MINIMUM = {"files": 300, "events compared": 3000, "attributes compared": 15000}

FULL = ["iterparse", "iterparse_20", "iterparse_mem_compressed"]
HARD = ["a & b", "<x>", 'say "hi"', "it's", "both ' and \"", "tab\there", "line\nbreak", "cr\rx", " lead", "trail ", "", "  ", "ünïcödé", "日本語 プロセス", "😀 emoji", "a=b/", "/", "]]>", "&amp;", "&#10;",
        "key=\"x\"", "x,y;z", "%s", "null", "None", "nan", "true", "1", "1.0", "2020-01-01", "string", "date event trace", "éé" * 40, "back\\slash", "<!-- c -->", "{'a': 1}"]
UTC = D.timezone.utc


def text(r, latin=False):
    s = r.choice(HARD) if r.random() < .5 else "".join(r.choice("abcXYZ 09_-:.é") for _ in range(r.randint(1, 9)))
    return s.encode("latin-1", "ignore").decode("latin-1") if latin else s


def instant(r):
    t = D.datetime(r.choice([1970, 1999, 2020, 2024, 2051]), r.randint(1, 12), r.randint(1, 28), r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 0, 1, 123000, 999999, r.randint(0, 999999)]))
    k = r.random()
    if k < .6:
        return t.replace(tzinfo=UTC)
    if k < .85:
        return t.replace(tzinfo=D.timezone(D.timedelta(minutes=r.choice([60, 120, -300, 330, 345, -570]))))
    return t


def simple(r, latin=False):
    k = r.randrange(6)
    if k <= 1:
        return text(r, latin)
    if k == 2:
        return r.choice([0, 1, -1, 2, 10 ** 15, -7, r.randint(-10 ** 6, 10 ** 6)])
    if k == 3:
        return r.choice([0.0, 1.0, -1.0, 0.1, 1e-300, 1e300, 2.0, r.uniform(-1e6, 1e6), float("inf"), float("nan")])
    if k == 4:
        return r.random() < .5
    return instant(r)


def key(r, latin=False):
    return r.choice(["k" + str(i) for i in range(12)] + ["org:resource", "lifecycle:transition", "cost:total", "a b", "Q&A", "<k>", "it's", 'q"k', "ключ" if not latin else "clé", "value", "key", "children"])


def value(r, depth, latin=False):
    if depth <= 0 or r.random() < .8:
        return simple(r, latin)
    if r.random() < .5:
        return {"value": None, "children": [(key(r, latin), value(r, depth - 1, latin)) for _ in range(r.randint(0, 4))]}
    return {"value": simple(r, latin), "children": {key(r, latin): value(r, depth - 1, latin) for _ in range(r.randint(1, 3))}}


def attrs(r, n, depth, latin):
    return {key(r, latin): value(r, depth, latin) for _ in range(r.randint(0, n))}


def mk(r, nested=True, big=False, latin=False):
    d = r.choice([1, 2, 3]) if nested else 0
    log = EventLog(attributes=attrs(r, 3, d, latin),
                   extensions={n: {"prefix": p, "uri": u} for n, p, u in r.sample([("Time", "time", "http://x/time.xesext"), ("Concept", "concept", "http://x/c?a=1&b=2"), ('My "ext"', "my", "http://<q>"), ("Org & co", "org", "u")], r.randint(0, 3))},
                   classifiers={n: k for n, k in r.sample([("Activity", ["concept:name"]), ("Full & co", ["concept:name", "lifecycle:transition"]), ("Sp ace", ["activity name", "x"]), ("<q>", ["a&b"])], r.randint(0, 3))},
                   omni_present={s: attrs(r, 3, 0, latin) for s in r.sample(["trace", "event"], r.randint(0, 2))})
    for i in range(r.choice([0, 1, 2, 3, 8, 25]) if not big else r.randint(30, 60)):
        t = Trace(attributes={"concept:name": str(i) if r.random() < .7 else text(r, latin)} if r.random() < .9 else {})
        if t.attributes:
            t.attributes.update(attrs(r, 3, d, latin))
        for j in range(r.randint(0, 5 if not big else 14)):
            e = {"concept:name": r.choice("abcd") if r.random() < .7 else text(r, latin), "time:timestamp": instant(r)}
            e.update(attrs(r, 6, d, latin))
            if r.random() < .05:
                e = {}
            l = list(e.items())
            r.shuffle(l)
            t.append(Event(dict(l)))
        log.append(t)
    return log


def norm(v, name=None):
    """value -> comparable tree"""
    if isinstance(v, dict) and "children" in v:
        c = v["children"]
        if isinstance(c, dict):
            return ("nest", norm(v["value"], name), tuple(sorted((k, norm(x, k)) for k, x in c.items())))
        return ("list", tuple((k, norm(x, k)) for k, x in c))
    if isinstance(v, bool):
        return ("str", str(v).lower()) if name == "concept:name" else ("bool", v)
    if isinstance(v, D.datetime):
        v = v.replace(tzinfo=UTC) if v.tzinfo is None else v
        return ("date", v.astimezone(UTC).isoformat())
    if isinstance(v, int):
        return ("int", v)
    if isinstance(v, float):
        return ("float", repr(float(v)))
    if isinstance(v, str):
        return ("str", v)
    return ("?" + type(v).__name__, str(v))


def amap(d, only=None):
    return {k: norm(v, k) for k, v in d.items() if v is not None and (only is None or norm(v, k)[0] in only)}


def compare(ctx, exp, got, tag, level="full"):
    only = None if level == "full" else ({"str", "float", "bool", "date"} if level == "rust" else {"str", "int", "float", "bool", "date"})
    def same(a, b, where):
        a, b = amap(a, only), amap(b)
        ctx.ev("attributes compared", len(a))
        if only is not None:
            b = {k: v for k, v in b.items() if k in a}
        if a != b:
            for k in a:
                if a[k] != b.get(k):
                    ctx.fail(f"{tag}:{where}:{a[k][0]}", f"attribute {k!r}: wrote {a[k]!r}, read {b.get(k)!r}")
            for k in b:
                if k not in a:
                    ctx.fail(f"{tag}:{where}:extra", f"attribute {k!r} = {b[k]!r} was never written")
    ctx.check(len(exp) == len(got), f"{tag}:traces", f"wrote {len(exp)} traces, read {len(got)}")
    if level in ("full", "chunk"):
        same(exp.attributes, got.attributes, "log")
        ctx.eq(dict(got.extensions), dict(exp.extensions), f"{tag}:extensions")
        ctx.eq({k: list(v) for k, v in got.classifiers.items()}, {k: list(v) for k, v in exp.classifiers.items()}, f"{tag}:classifiers")
        ctx.eq(sorted(got.omni_present), sorted(exp.omni_present), f"{tag}:globals")
        for s in exp.omni_present:
            same(exp.omni_present[s], got.omni_present.get(s, {}), "global")
    for a, b in zip(exp, got):
        same(a.attributes, b.attributes, "trace")
        if len(a) != len(b):
            ctx.fail(f"{tag}:events", f"trace {dict(a.attributes)}: wrote {len(a)} events, read {len(b)}")
            break
        for x, y in zip(a, b):
            ctx.ev("events compared")
            same(dict(x), dict(y), "event")


def tmp(ctx, suffix):
    return os.path.join(tempfile.mkdtemp(prefix="xes"), "l" + suffix)


def write(ctx, log, r, exp, enc="utf-8"):
    """-> (kind, payload)"""
    how = r.choice(["file", "file", "gz", "compress", "string", "zstring"])
    P = {"encoding": enc, "show_progress_bar": False}
    ctx.ev("files")
    ctx.ev(f"exported with {exp} as {how}")
    v = getattr(X.Variants, exp.upper())
    if how in ("string", "zstring"):
        s = ctx.call(f"export:{exp}:string", X.serialize, log, variant=v, parameters={**P, "compress": how == "zstring"})
        return how, s
    f = tmp(ctx, ".xes" + (".gz" if how == "gz" else ""))
    ctx.call(f"export:{exp}:{how}", X.apply, log, f, variant=v, parameters={**P, **({"compress": True} if how == "compress" else {})})
    return "file", f + (".gz" if how == "compress" else "")


def read(ctx, kind, data, imp, enc="utf-8", **kw):
    v = getattr(I.Variants, imp.upper())
    P = {"encoding": enc, "show_progress_bar": False, **kw}
    ctx.ev(f"imported with {imp}")
    if kind == "file":
        return ctx.call(f"import:{imp}", I.apply, data, variant=v, parameters=P)
    return ctx.call(f"import:{imp}:string", I.deserialize, data, variant=v, parameters={**P, "decompress_serialization": kind == "zstring"})


def full(ctx):
    r = ctx.rng
    log = mk(r, big=ctx.index % 4 == 0)
    ctx.nontrivial(len(log), sum(map(len, log)))
    for exp in ("etree", "line_by_line"):
        k, d = write(ctx, log, r, exp)
        for imp in FULL:
            got = read(ctx, k, d, imp)
            compare(ctx, log, got, f"{exp}>{imp}")


def limited(ctx):
    r = ctx.rng
    log = mk(r, nested=False, big=ctx.index % 4 == 0)
    ctx.nontrivial(len(log), sum(map(len, log)))
    for exp in ("etree", "line_by_line"):
        k, d = write(ctx, log, r, exp)
        for imp in ["chunk_regex", "line_by_line"] :
            compare(ctx, log, read(ctx, k, d, imp), f"{exp}>{imp}", {"chunk_regex": "chunk", "line_by_line": "lim"}[imp])
        for imp in FULL:
            compare(ctx, log, read(ctx, k, d, imp), f"{exp}>{imp}")


def rust(ctx):
    """columns that every event has, one type per column (the importer goes through a typed table)"""
    r = ctx.rng
    cols = {f"k{i}": r.choice(["str", "float", "bool", "date"]) for i in range(r.randint(0, 4))}
    mkv = {"str": lambda: text(r) or "x", "float": lambda: r.uniform(-10, 10), "bool": lambda: r.random() < .5, "date": lambda: instant(r)}
    log = EventLog()
    for i in range(r.randint(1, 20)):
        log.append(Trace([Event({"concept:name": text(r) or "a", "time:timestamp": instant(r), **{c: mkv[t]() for c, t in cols.items()}}) for _ in range(r.randint(1, 8))], attributes={"concept:name": f"case {i}", "region": text(r) or "n"}))
    f = tmp(ctx, ".xes" + r.choice(["", ".gz"]))
    exp = r.choice(["etree", "line_by_line"])
    ctx.call("export", X.apply, log, f, variant=getattr(X.Variants, exp.upper()), parameters={"show_progress_bar": False})
    ctx.ev("files")
    got = read(ctx, "file", f, "rustxes")
    srt = sorted(got, key=lambda t: int(t.attributes["concept:name"].split()[1]))
    compare(ctx, log, EventLog(srt), f"{exp}>rustxes", "rust")


def encodings(ctx):
    r = ctx.rng
    log = mk(r, nested=False, latin=True)
    enc = r.choice(["iso-8859-1", "utf-16", "utf-8"])
    for exp in ("etree", "line_by_line"):
        if exp == "line_by_line" and enc == "utf-16":
            continue  # writes a byte order mark with every piece of text
        k, d = write(ctx, log, r, exp, enc)
        for imp in FULL + (["chunk_regex", "line_by_line"] if enc != "utf-16" else []):
            compare(ctx, log, read(ctx, k, d, imp, enc), f"{exp}>{imp}:enc", "full" if imp in FULL else "chunk" if imp == "chunk_regex" else "lim")


def facade(ctx):
    """pm4py.write_xes / read_xes on EventLog and dataframe"""
    r = ctx.rng
    al = gen.rand_alog(r, attrs=True, micro=r.random() < .5)
    for name, obj, kw in h.both(r, al, alt=r.random() < .3 or None):
        f = tmp(ctx, r.choice([".xes", ".xes.gz"]))
        P = {"case_id_key": kw["case_id_key"]} if "case_id_key" in kw and name == "df" else {}
        ctx.call(f"write_xes:{name}", pm4py.write_xes, obj, f, **P)
        ctx.ev("files")
        var = r.choice([None] + FULL)
        got = ctx.call(f"read_xes:{name}", pm4py.read_xes, f, variant=var)
        recs = got.to_dict("records")
        cid = "case:concept:name"
        ak, tk = (kw.get("activity_key", "concept:name"), kw.get("timestamp_key", "time:timestamp"))
        bycase = {}
        for x in recs:
            bycase.setdefault(x[cid], []).append((x[ak], x[tk].isoformat(), x["cost"], x["kind"], x["uid"], x["case:region"], x["case:amount"]))
        exp = {str(c): [(e["concept:name"], pm4py.utils.pd.Timestamp(e["time:timestamp"]).tz_convert("UTC").isoformat() if e["time:timestamp"].tzinfo else pm4py.utils.pd.Timestamp(e["time:timestamp"], tz="UTC").isoformat(), e["cost"], e["kind"], e["uid"], ca["region"], ca["amount"]) for e in ev] for c, ca, ev in al.cases if ev}
        ctx.ev("events compared", sum(map(len, exp.values())))
        if name == "log":
            bycase = {str(k): v for k, v in bycase.items()}
        ctx.eq(bycase, exp, f"facade:{name}")


def maxtraces(ctx):
    r = ctx.rng
    log = mk(r, nested=False)
    k, d = write(ctx, log, r, r.choice(["etree", "line_by_line"]))
    n = r.randint(0, len(log) + 1)
    for imp in FULL + ["line_by_line"]:
        got = read(ctx, k, d, imp, max_traces=n)
        sub = EventLog(list(log)[:n], attributes=log.attributes, extensions=log.extensions, classifiers=log.classifiers, omni_present=log.omni_present)
        compare(ctx, sub, got, f"max_traces>{imp}", "full" if imp in FULL else "lim")


def numpy_values(ctx):
    """values typed by numpy / pandas, as they come out of dataframes and statistics"""
    import numpy as np, pandas as pd
    r = ctx.rng
    pairs = [(np.int64(5), 5), (np.float64(1.5), 1.5), (np.bool_(True), True), (pd.Timestamp("2020-01-02 03:04:05.678901", tz="UTC"), D.datetime(2020, 1, 2, 3, 4, 5, 678901, UTC)), (np.int32(7), 7), (np.float32(0.5), 0.5), (np.datetime64("2020-01-02T03:04:05"), D.datetime(2020, 1, 2, 3, 4, 5, 0, UTC))]
    r.shuffle(pairs)
    l, e = EventLog(), EventLog()
    for i in range(3):
        ps = r.sample(pairs, 3)
        l.append(Trace([Event({"concept:name": "a", **{f"k{j}": p[0] for j, p in enumerate(ps)}})], attributes={"concept:name": str(i)}))
        e.append(Trace([Event({"concept:name": "a", **{f"k{j}": p[1] for j, p in enumerate(ps)}})], attributes={"concept:name": str(i)}))
    for exp in ("etree", "line_by_line"):
        k, d = write(ctx, l, r, exp)
        compare(ctx, e, read(ctx, k, d, r.choice(FULL)), f"numpy:{exp}")


def foreign(ctx):
    """files of other tools: namespaces, attribute order, quotes, comments, ids, containers of any width around parser buffers"""
    from xml.sax.saxutils import escape, quoteattr
    r = ctx.rng
    log = mk(r, nested=True, big=ctx.index % 2 == 0)
    pad = r.choice(["", "", " " * r.randint(1, 40000)])
    tagname = {"str": "string", "int": "int", "float": "float", "bool": "boolean", "date": "date"}
    ids = r.random() < .3
    pre = r.choice(["", "", "xes:"])

    def w(k, v, ind):
        if isinstance(v, dict):
            if isinstance(v["children"], dict):
                n = norm(v["value"], k)
                return f"{ind}<{pre}{tagname[n[0]]} {kv(k, n)}>{r.choice(['', chr(10)])}" + "".join(w(a, b, ind + " ") for a, b in v["children"].items()) + f"</{pre}{tagname[n[0]]}>\n"
            return f"{ind}<{pre}list key={quoteattr(k)}><{pre}values>" + "".join(w(a, b, ind + " ") for a, b in v["children"]) + f"</{pre}values></{pre}list>\n"
        n = norm(v, k)
        t = "id" if n[0] == "str" and ids else tagname[n[0]]
        return f"{ind}<{pre}{t} {kv(k, n)}" + (f"></{pre}{t}>" if r.random() < .2 else "/>") + r.choice(["\n", "\n", "", "<!-- note -->"])

    def kv(k, n):
        val = str(n[1]).lower() if n[0] == "bool" else str(n[1]).replace("+00:00", r.choice(["Z", "+00:00"])) if n[0] == "date" else str(n[1])
        a, b = f"key={quoteattr(k)}", f"value={quoteattr(val)}"
        return f"{b} {a}" if r.random() < .2 else f"{a} {b}"
    ns = ' xmlns:xes="http://www.xes-standard.org/"' if pre else ' xmlns="http://www.xes-standard.org/"'
    s = f'<?xml version="1.0" encoding="UTF-8"?>\n<{pre}log{ns}>{pad}\n'
    log.extensions.clear(), log.classifiers.clear()
    s += "".join(f"<{pre}global scope={quoteattr(sc)}>" + "".join(w(k, v, " ") for k, v in a.items()) + f"</{pre}global>" for sc, a in log.omni_present.items())
    s += "".join(w(k, v, " ") for k, v in log.attributes.items())
    for t in log:
        s += f"<{pre}trace>" + "".join(w(k, v, " ") for k, v in t.attributes.items())
        for e in t:
            s += f"<{pre}event>\n" + "".join(w(k, v, "  ") for k, v in e.items()) + f"</{pre}event>\n"
        s += f"</{pre}trace>\n"
    s += f"</{pre}log>\n"
    ctx.ev("files")
    f = tmp(ctx, ".xes")
    with open(f, "w", encoding="utf-8", newline="") as fh:
        fh.write(s)
    for imp in FULL:
        compare(ctx, log, read(ctx, "file", f, imp), f"foreign>{imp}")


FAMILIES = {"full": (50, 1200, full), "rust": (25, 300, rust), "limited": (40, 900, limited), "encodings": (20, 300, encodings), "facade": (40, 600, facade), "maxtraces": (20, 300, maxtraces), "numpy": (10, 40, numpy_values), "foreign": (40, 900, foreign)}
