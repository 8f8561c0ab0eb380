"""C04 OCEL files round-trip object-centric logs"""
import functools
import inspect
import os
import shutil
import tempfile
import warnings
from rv import ocelgen as og

RULE = "a case is non-trivial when the log has at least two events and two relations; distinct by (events, relations, format)"
ASSUMPTIONS = ["every event is related to an object and every object to an event (the importers drop the others)",
               "date attributes may come back as ISO text of the same instant in the formats without typed values (JSON, SQLite, CSV)",
               "changes of object attributes concern attributes the object has an initial value for, at a time other than the epoch",
               "integers and booleans may come back as their text (the writers distinguish texts, floats and dates)",
               "the Rust-based readers are an external library: object changes and surrounding blanks are not judged for them",
               "CSV: texts that look like numbers/dates/missing values are not generated (the format is untyped); object attributes are in the separate objects file"]


def same(a, b, lax):
    if a == b:
        return True
    if a[0] == "n" and b[0] == "n":
        return abs(a[1] - b[1]) <= 1e-12 * max(1, abs(a[1]))
    if lax and a[0] == "t" and b[0] == "s":
        try:
            return og.inst(b[1]) == a[1]
        except Exception:
            return False
    if a[0] == "b":
        return b[0] == "n" and float(a[1]) == b[1] or b == ("s", str(a[1]))
    if a[0] == "n" and b[0] == "s" and a[1] == int(a[1]):
        return b[1] in (str(int(a[1])), str(float(a[1])))
    return False


def attrs(exp, got, lax):
    out = []
    for k in sorted(set(exp) | set(got)):
        if k not in got:
            out.append(f"{k} lost (was {exp[k]})")
        elif k not in exp:
            out.append(f"{k}={got[k]} appeared")
        elif not same(exp[k], got[k], lax):
            out.append((f"{k}: {exp[k]} became {got[k]}"))
    return out


def compare(ctx, tag, exp, got, lax=True, ocel2=False, eattr=True, oattr=True, **d):
    if got["dup"]:
        ctx.fail(f"{tag}:duplicates", f"{got['dup'][:5]}", **d)
    if set(exp["events"]) != set(got["events"]):
        return ctx.fail(f"{tag}:event-ids", f"missing {sorted(set(exp['events']) - set(got['events']))[:5]}, extra {sorted(set(got['events']) - set(exp['events']))[:5]}", **d)
    for e, (a, t, at) in exp["events"].items():
        ga, gt, gat = got["events"][e]
        if a != ga:
            ctx.fail(f"{tag}:activity", f"{e}: {a!r} became {ga!r}", **d)
        if t != gt:
            ctx.fail(f"{tag}:timestamp", f"{e}: {t} became {gt} (microseconds)", **d)
        if eattr:
            for x in attrs(at, gat, lax):
                ctx.fail(f"{tag}:event-attribute", f"{e}: {x}", **d)
    if set(exp["objects"]) != set(got["objects"]):
        return ctx.fail(f"{tag}:object-ids", f"missing {sorted(set(exp['objects']) - set(got['objects']))[:5]}, extra {sorted(set(got['objects']) - set(exp['objects']))[:5]}", **d)
    for o, (t, at) in exp["objects"].items():
        gt, gat = got["objects"][o]
        if t != gt:
            ctx.fail(f"{tag}:object-type", f"{o}: {t!r} became {gt!r}", **d)
        if oattr:
            for x in attrs(at, gat, lax):
                ctx.fail(f"{tag}:object-attribute", f"{o}: {x}", **d)
    if ocel2:
        ctx.check(exp["rels"] == got["rels"], f"{tag}:relations", f"{[x for x in exp['rels'] if x not in got['rels']][:4]} lost, {[x for x in got['rels'] if x not in exp['rels']][:4]} new", **d)
        ctx.check(exp["o2o"] == got["o2o"], f"{tag}:o2o", f"{exp['o2o'][:6]} vs {got['o2o'][:6]}", **d)
        norm = lambda c: [(o, t, f) for o, t, f, v in c]
        if norm(exp["changes"]) != norm(got["changes"]):
            ctx.fail(f"{tag}:changes", f"{exp['changes'][:4]} vs {got['changes'][:4]}", **d)
        else:
            for a, b in zip(exp["changes"], got["changes"]):
                if a != b and not same(eval(a[3]), eval(b[3]), lax):
                    ctx.fail(f"{tag}:change-value", f"{a} vs {b}", **d)
    else:
        er, gr = sorted({x[:2] for x in exp["rels"]}), sorted(x[:2] for x in got["rels"])
        ctx.check(er == gr, f"{tag}:relations", f"{[x for x in er if x not in gr][:4]} lost, {[x for x in gr if x not in er][:4]} new; {len(er)} vs {len(gr)}", **d)
    ctx.ev("tables compared", 3 if not ocel2 else 5)
    ctx.ev("events compared", len(exp["events"]))
    ctx.ev("relations compared", len(exp["rels"]))


def run(ctx, tag, a, ocel, write, read, suffix, sources=1, changes=True, **kw):
    d = tempfile.mkdtemp()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            p = os.path.join(d, "log" + suffix)
            q = os.path.join(d, "objects.csv")
            args = (p, q) if sources == 2 else (p,)
            if "sqlite" not in tag and ctx.rng.random() < .2 and all("encoding" in inspect.signature(f).parameters for f in (write, read)):
                e = ctx.rng.choice(["utf-16", "utf-8", "utf-16-le"] if sources == 2 else ["utf-16", "utf-8"])
                write, read = functools.partial(write, encoding=e), functools.partial(read, encoding=e)
                tag += ":encoding"
                ctx.ev("round trips in an explicit encoding")
            ctx.call(f"{tag}:write", write, ocel, *args)
            if ctx.rng.random() < .1:
                # writing again over the existing file
                ctx.call(f"{tag}:rewrite", write, ocel, *args)
            got = ctx.call(f"{tag}:read", read, *args)
        gv = og.view(got)
        exp = a.view()
        if not changes:
            exp["changes"] = gv["changes"] = []
        compare(ctx, tag, exp, gv, **kw)
        bad = og.consistent(got)
        ctx.check(not bad, f"{tag}:inconsistent", f"{bad[:3]}")
        order = [x for x in got.events[got.event_timestamp]]
        ctx.check(all(order[i] <= order[i + 1] for i in range(len(order) - 1)), f"{tag}:event-order", "events are not ordered by timestamp")
        ctx.check(og.view(ocel)["events"] == a.view()["events"] and og.view(ocel)["rels"] == og.AOcel.view(a)["rels"], f"{tag}:writing-changes-log", "the log changed while it was written")
        if len(a.events) > 1 and len(a.rels) > 1:
            ctx.nontrivial(tag, repr(a.events), repr(a.rels))
        ctx.sample(f"{tag}: {len(a.events)} events {len(a.objects)} objects {len(a.rels)} relations {len(a.o2o)} o2o {len(a.changes)} changes")
        return got
    finally:
        shutil.rmtree(d, ignore_errors=True)


def names(r):
    if r.random() < .5:
        return None
    k = r.choice(["ü{p}-{i}", "{p} {i}", "{p}&<{i}>", "{p}'{i}", '{p}"{i}', "http://x/{p}#{i}", "{p}_{i}"])
    return lambda p, i: k.format(p=p, i=i)


def mk(r, ocel2, **kw):
    cols = kw.pop("cols", None) or r.choice([("s", "f", "t"), ("s", "f", "t"), ("s", "f", "t", "i", "b")])
    a = og.rand(r, ocel2=ocel2, names=names(r), cols=cols, **kw)
    return a


def json1(ctx):
    import pm4py
    r = ctx.rng
    a = mk(r, False)
    w, rd = r.choice([(pm4py.write_ocel, pm4py.read_ocel), (pm4py.write_ocel_json, pm4py.read_ocel_json)])
    run(ctx, "json1", a, a.build(r, shuffle=r.random() < .5, naive=r.random() < .2), w, rd, ".jsonocel")


def json1q(ctx):
    """OCEL 2.0 content through the OCEL 1.0 writer (legacy extension)"""
    import pm4py
    r = ctx.rng
    a = mk(r, True)
    run(ctx, "jsonlegacy", a, a.build(r), pm4py.write_ocel_json, pm4py.read_ocel_json, ".jsonocel", ocel2=True)


def xml1(ctx):
    import pm4py
    r = ctx.rng
    a = mk(r, False)
    w, rd = r.choice([(pm4py.write_ocel, pm4py.read_ocel), (pm4py.write_ocel_xml, pm4py.read_ocel_xml)])
    run(ctx, "xml1", a, a.build(r, shuffle=r.random() < .5, naive=r.random() < .2), w, rd, ".xmlocel", lax=False)


def sqlite1(ctx):
    import pm4py
    r = ctx.rng
    a = mk(r, False)
    w, rd = r.choice([(pm4py.write_ocel, pm4py.read_ocel), (pm4py.write_ocel_sqlite, pm4py.read_ocel_sqlite)])
    run(ctx, "sqlite1", a, a.build(r, shuffle=r.random() < .5, naive=r.random() < .2), w, rd, ".sqlite")


def csv1(ctx):
    import pm4py
    r = ctx.rng
    a = mk(r, False)
    w, rd = r.choice([(pm4py.write_ocel, pm4py.read_ocel), (pm4py.write_ocel_csv, pm4py.read_ocel_csv)])
    run(ctx, "csv1", a, a.build(r, shuffle=r.random() < .5, naive=r.random() < .2), w, rd, ".csv", sources=2)


def json2(ctx):
    import pm4py
    r = ctx.rng
    a = mk(r, True, dupq=True)
    w, rd, s = r.choice([(pm4py.write_ocel2, pm4py.read_ocel2, ".jsonocel"), (pm4py.write.write_ocel2_json, pm4py.read.read_ocel2_json, ".json"), (pm4py.write.write_ocel2_json, pm4py.read_ocel2, ".json")])
    run(ctx, "json2", a, a.build(r, shuffle=r.random() < .5), w, rd, s, ocel2=True)


def xml2(ctx):
    import pm4py
    r = ctx.rng
    a = mk(r, True, dupq=True)
    w, rd, s = r.choice([(pm4py.write_ocel2, pm4py.read_ocel2, ".xmlocel"), (pm4py.write.write_ocel2_xml, pm4py.read.read_ocel2_xml, ".xml"), (pm4py.write_ocel2, pm4py.read_ocel2, ".xml")])
    run(ctx, "xml2", a, a.build(r, shuffle=r.random() < .5), w, rd, s, lax=False, ocel2=True)


def sqlite2(ctx):
    import pm4py
    r = ctx.rng
    a = mk(r, True, dupq=True)
    w, rd = r.choice([(pm4py.write_ocel2, pm4py.read_ocel2), (pm4py.write.write_ocel2_sqlite, pm4py.read.read_ocel2_sqlite)])
    run(ctx, "sqlite2", a, a.build(r, shuffle=r.random() < .5), w, rd, ".sqlite", ocel2=True)


def chain(ctx):
    """a log that was read from one format is written in another one"""
    import pm4py
    r = ctx.rng
    a = mk(r, True, cols=("s", "f"))
    fm = {"json": (pm4py.write.write_ocel2_json, pm4py.read.read_ocel2_json, ".jsonocel"), "xml": (pm4py.write.write_ocel2_xml, pm4py.read.read_ocel2_xml, ".xml"), "sqlite": (pm4py.write.write_ocel2_sqlite, pm4py.read.read_ocel2_sqlite, ".sqlite")}
    k1, k2 = r.choice(list(fm)), r.choice(list(fm))
    o1 = run(ctx, k1 + "2", a, a.build(r), *fm[k1], ocel2=True)
    run(ctx, f"{k2}2:after-{k1}", a, o1, *fm[k2], ocel2=True)


def late(ctx):
    """changes of attributes the object has no initial value for"""
    import pm4py
    r = ctx.rng
    a = mk(r, True, cols=("s", "f"))
    has = {o[0]: set(o[2]) for o in a.objects}
    types = {o[0]: o[1] for o in a.objects}
    t0 = a.events[0][2]
    from datetime import timedelta
    free = []
    for _ in range(r.randint(1, 4)):
        o = r.choice(sorted(has))
        f = r.choice(["os", "of", "late"])
        if f not in has[o]:
            free.append((o, t0 - timedelta(days=r.randint(1, 900)), f, 2.5 if f == "of" else "v1"))
    seen = {(c[0], c[1], c[2]) for c in a.changes}
    a.changes += [c for c in free if (c[0], c[1], c[2]) not in seen and not seen.add((c[0], c[1], c[2]))]
    k = r.choice(["json", "xml", "sqlite"])
    fm = {"json": (pm4py.write.write_ocel2_json, pm4py.read.read_ocel2_json, ".jsonocel"), "xml": (pm4py.write.write_ocel2_xml, pm4py.read.read_ocel2_xml, ".xml"), "sqlite": (pm4py.write.write_ocel2_sqlite, pm4py.read.read_ocel2_sqlite, ".sqlite")}[k]
    run(ctx, k + "2-late", a, a.build(r), *fm, ocel2=True)


def rust2(ctx):
    """the alternative (Rust) readers of the OCEL 2.0 JSON and XML files"""
    import pm4py
    r = ctx.rng
    a = mk(r, True, cols=("s", "f"))
    for x in a.events:
        x[3].update({k: v.strip() for k, v in x[3].items() if isinstance(v, str)})
    for x in a.objects:
        x[2].update({k: v.strip() for k, v in x[2].items() if isinstance(v, str)})
    k = r.choice(["json", "xml"])
    if k == "json":
        run(ctx, "rustjson2", a, a.build(r), pm4py.write.write_ocel2_json, lambda p: pm4py.read.read_ocel2_json(p, variant_str="ocel20_rustxes"), ".json", ocel2=True, changes=False)
    else:
        run(ctx, "rustxml2", a, a.build(r), pm4py.write.write_ocel2_xml, lambda p: pm4py.read.read_ocel2_xml(p, variant_str="ocel20_rustxes"), ".xml", ocel2=True, changes=False)


FAMILIES = {"json1": (100, 2000, json1), "json1q": (70, 1500, json1q), "xml1": (100, 2000, xml1), "sqlite1": (80, 1500, sqlite1), "csv1": (80, 1500, csv1),
            "json2": (120, 2500, json2), "xml2": (120, 2500, xml2), "sqlite2": (100, 1800, sqlite2), "chain": (60, 1200, chain), "late": (60, 1000, late), "rust2": (50, 900, rust2)}
MINIMUM = {"tables compared": 1000}
