"""C31: streaming analyses equal their batch counterparts."""
import collections, copy, csv, io, logging, os, random, tempfile, threading

import pandas as pd
import pm4py
from pm4py.objects.log.obj import Event, EventLog, Trace
from pm4py.streaming.algo.discovery.dfg import algorithm as s_dfg
from pm4py.streaming.algo.conformance.footprints import algorithm as s_fp
from pm4py.streaming.algo.conformance.tbr import algorithm as s_tbr
from pm4py.streaming.algo.conformance.temporal import algorithm as s_tmp
from pm4py.streaming.importer.xes import importer as s_xes
from pm4py.streaming.importer.csv import importer as s_csv
from pm4py.streaming.conversion import from_pandas, ocel_flatts_distributor
from pm4py.streaming.stream.live_event_stream import LiveEventStream
from pm4py.streaming.stream.live_trace_stream import LiveTraceStream
from pm4py.streaming.util.dictio import generator as G
from pm4py.objects.ocel.util import ocel_iterator
from pm4py.objects.petri_net.obj import Marking
from pm4py.algo.conformance.temporal_profile import algorithm as b_tmp
from rv import gen, h, ref, ocelgen
from rv.checks import c01

RULE = "after every prefix of the stream: state of the streaming algorithm = definition (and batch algorithm) on the events received so far; streamed events/traces = content of the source"
ASSUMPTIONS = [
    "streaming token replay is greedy: the token counts are judged on nets without invisible transitions and duplicate labels; on state machines with invisible transitions the fitness verdict is exact; on other nets only 'fit => in the language'",
    "activities outside of the model are only reported by a message in the streaming token replay (they do not count as tokens)",
    "streaming footprints: minimum trace length and always-happening activities are not checked (only start/end activities, relations, unknown activities)",
    "events without case/activity (or timestamp) are reported and ignored",
    "the redis dictionary is not available offline",
    "the acceptance condition of the XES event stream sees the event without the case attributes",
]
MINIMUM = {"events streamed": 4000, "prefixes compared": 600, "oracle_checks": 3000}


class Msgs:
    """collects the messages that the algorithms send through the logging module"""
    def __enter__(self):
        self.recs = []
        root = logging.getLogger()
        self.old = root.handlers[:], root.level
        hd = logging.Handler()
        hd.emit = lambda rec: self.recs.append(rec.getMessage())
        root.handlers = [hd]
        return self

    def __exit__(self, *a):
        logging.getLogger().handlers = self.old[0]
        logging.getLogger().setLevel(self.old[1])


def stream_of(rng, al, ck="case:concept:name", rename=None):
    rows = al.rows(rename, ck)
    by = {}
    for r in rows:
        by.setdefault(r[ck], []).append(r)
    mode = rng.choice(["cases", "interleave", "interleave", "round"])
    if mode == "cases":
        out = rows
    elif mode == "interleave":
        out = gen.interleave(rng, list(by.values()))
    else:
        out = []
        q = [list(x) for x in by.values()]
        while q:
            for x in q:
                out.append(x.pop(0))
            q = [x for x in q if x]
    return [Event(r) for r in out]


def variant(rng, params, extra=None):
    v = rng.choice([None, G.Variants.CLASSIC, G.Variants.THREAD_SAFE])
    if v is not None:
        params["dict_variant"] = v
    return params


def feed(ctx, rng, algo, events, at, every=None):
    """sends the events to the algorithm, one by one (as a live stream would do), and calls at(i) after some of them"""
    snap = [dict(e) for e in events]
    marks = {0, len(events)} | {rng.randrange(0, len(events) + 1) for _ in range(4)}
    live = rng.random() < 0.15
    if live:
        s = LiveEventStream(parameters={"thread_pool_size": rng.choice([1, 6])})
        s.register(algo)
        s.start()
        for e in events:
            s.append(e)
        s.stop()
        at(len(events))
        ctx.ev("prefixes compared")
    else:
        for i in range(len(events) + 1):
            if i in marks or (every and i % every == 0):
                at(i)
                ctx.ev("prefixes compared")
            if i < len(events):
                algo.receive(events[i])
    ctx.ev("events streamed", len(events))
    ctx.check([dict(e) for e in events] == snap, "events-changed", "the algorithm changed the events that it received")


def group(events, ck, ak):
    d = {}
    for e in events:
        if ck in e and ak in e:
            d.setdefault(str(e[ck]), []).append(str(e[ak]))
    return d


def incomplete(rng, events, keys):
    """inserts events without one of the keys"""
    out = list(events)
    for _ in range(rng.choice([0, 0, 1, 3])):
        if out:
            e = dict(rng.choice(out))
            e.pop(rng.choice(keys), None)
            e = Event(e)
            out.insert(rng.randrange(len(out) + 1), e)
    return out


def f_dfg(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng)
    alt = rng.random() < 0.3
    ck, ak = ("Cid", "Act") if alt else ("case:concept:name", "concept:name")
    events = incomplete(rng, stream_of(rng, al, ck, {"concept:name": "Act"} if alt else None), [ck, ak])
    P = variant(rng, {"pm4py:param:activity_key": ak, "pm4py:param:case_id_key": ck} if alt else {})
    from pm4py.streaming.algo.discovery.dfg.variants import frequency as F
    P = {({"pm4py:param:activity_key": F.Parameters.ACTIVITY_KEY, "pm4py:param:case_id_key": F.Parameters.CASE_ID_KEY, "dict_variant": F.Parameters.DICT_VARIANT}[k]): v for k, v in P.items()}
    with Msgs() as ms:
        algo = ctx.call("dfg:apply", s_dfg.apply, **({"parameters": P} if P else {}))

        def at(i):
            tr = group(events[:i], ck, ak)
            g = algo.get()
            if not ctx.check(g is not None, "dfg:no-result"):
                return
            dfg, act, sa, ea = g
            ctx.eq(dict(dfg), h.dfg_of(tr.values()), "dfg:dfg")
            ctx.eq(dict(act), dict(collections.Counter(a for t in tr.values() for a in t)), "dfg:activities")
            ctx.eq(dict(sa), dict(collections.Counter(t[0] for t in tr.values())), "dfg:start")
            ctx.eq(dict(ea), dict(collections.Counter(t[-1] for t in tr.values())), "dfg:end")
            if tr and rng.random() < 0.3:
                df = pd.DataFrame([{"case:concept:name": c, "concept:name": a, "time:timestamp": pd.Timestamp(0, tz="UTC") + pd.Timedelta(seconds=j)} for c, t in tr.items() for j, a in enumerate(t)])
                b = pm4py.discover_dfg(df)
                ctx.eq([dict(x) for x in (dfg, sa, ea)], [dict(x) for x in b], "dfg:batch")
        feed(ctx, rng, algo, events, at)
    ctx.check(len(ms.recs) == sum(1 for e in events if ck not in e or ak not in e), "dfg:messages", str(ms.recs[:3]))
    ctx.nontrivial("dfg", [tuple(sorted(map(str, e.items()))) for e in events][:30])
    ctx.sample(dict(family="dfg", events=len(events), cases=len(al.cases), keys=[ck, ak]))


def fp_fit(tr, F, ended):
    start, end, acts, rel = F["start_activities"], F["end_activities"], F["activities"], set(F["sequence"]) | set(F["parallel"])
    if any(a not in acts for a in tr):
        return False
    if tr[0] not in start:
        return False
    if any((x, y) not in rel for x, y in zip(tr, tr[1:])):
        return False
    return not ended or tr[-1] in end


def f_footprints(ctx):
    rng = ctx.rng
    labs = gen.labels(rng, rng.randint(2, 6))
    tree = gen.rand_tree(rng, labs, depth=2)
    base = [gen.play_tree(rng, tree) for _ in range(6)]
    src = rng.choice(["tree", "log"])
    pt = gen.to_pt(tree)
    if src == "tree":
        fps = pm4py.discover_footprints(pt)
    else:
        b = [t for t in base if t] or [[labs[0]]]
        fps = pm4py.discover_footprints(EventLog([Trace([Event({"concept:name": a}) for a in t], attributes={"concept:name": str(i)}) for i, t in enumerate(b)]))
        if isinstance(fps, list):
            from pm4py.algo.discovery.footprints import algorithm as fpd
            fps = fpd.apply(EventLog([Trace([Event({"concept:name": a}) for a in t], attributes={"concept:name": str(i)}) for i, t in enumerate(b)]), variant=fpd.Variants.ENTIRE_EVENT_LOG)
    if not fps.get("activities"):
        return
    traces = []
    for _ in range(rng.randint(1, 7)):
        t = list(gen.play_tree(rng, tree))
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.random()
            if k < 0.35 and t:
                del t[rng.randrange(len(t))]
            elif k < 0.7:
                t.insert(rng.choice([0, len(t), rng.randrange(len(t) + 1)]), rng.choice(labs + ["UNKNOWN", "UNK2"]))
            elif len(t) > 1:
                i = rng.randrange(len(t) - 1)
                t[i], t[i + 1] = t[i + 1], t[i]
        if t:
            traces.append(t)
    if not traces:
        return
    al = gen.rand_alog(rng, traces=traces)
    ints = rng.random() < 0.25
    if ints:
        al = gen.ALog([(i, a, e) for i, (_, a, e) in enumerate(al.cases)])
    events = incomplete(rng, stream_of(rng, al), ["case:concept:name", "concept:name"])
    P = variant(rng, {})
    with Msgs() as ms:
        algo = ctx.call("footprints:apply", s_fp.apply, fps, **({"parameters": P} if P else {}))
        ids = {str(c[0]): c[0] for c in al.cases}

        def at(i):
            tr = group(events[:i], "case:concept:name", "concept:name")
            df = algo.get()
            if not ctx.check(df is not None, "footprints:no-result"):
                return
            got = dict(zip(df["case"], df["is_fit"])) if len(df) else {}
            exp = {c: fp_fit(t, fps, False) for c, t in tr.items()}
            ctx.eq(got, exp, "footprints:fit", traces=tr)
            for c in tr:
                ctx.eq(algo.get_status(ids[c]), exp[c], "footprints:status", trace=tr[c])
        feed(ctx, rng, algo, events, at)
        tr = group(events, "case:concept:name", "concept:name")
        order = sorted(tr)
        rng.shuffle(order)
        half = order[:rng.randrange(len(order) + 1)] if order else []
        for c in half:
            r = ctx.call("footprints:terminate", algo.terminate, ids[c])
            ctx.eq(r, fp_fit(tr[c], fps, True), "footprints:terminate", trace=tr[c])
        df = algo.get()
        got = dict(zip(df["case"], df["is_fit"])) if len(df) else {}
        ctx.eq(got, {c: fp_fit(t, fps, False) for c, t in tr.items() if c not in half}, "footprints:fit-after-termination")
        # a terminated identifier that comes back is a new case
        if half:
            c = half[0]
            algo.receive(Event({"case:concept:name": ids[c], "concept:name": tr[c][-1]}))
            ctx.eq(algo.get_status(ids[c]), fp_fit(tr[c][-1:], fps, False), "footprints:restarted-case")
        ctx.call("footprints:terminate_all", algo.terminate_all)
        ctx.eq(len(algo.get()), 0, "footprints:terminate-all")
    ctx.nontrivial("fp", sorted(map(tuple, tr.values()))[:6], src)


class Replay:
    """definition of token replay on a net with unique visible labels and without invisible transitions"""
    def __init__(self, trans, im, fm):
        self.t = {lab: (i, o) for _, lab, i, o in trans}
        self.im, self.fm = im, fm

    def run(self, tr):
        m = collections.Counter(self.im)
        missing = 0
        for a in tr:
            if a not in self.t:
                continue
            i, o = self.t[a]
            for p, w in i.items():
                if m[p] < w:
                    missing += w - m[p]
                    m[p] = w
            for p, w in i.items():
                m[p] -= w
            for p, w in o.items():
                m[p] += w
        return +m, missing

    def end(self, tr):
        m, missing = self.run(tr)
        fm = collections.Counter(self.fm)
        return m, missing + sum((fm - m).values()), sum((m - fm).values())


def tbr_stream(ctx, rng, net, im, fm, traces, at, done, P=None):
    al = gen.rand_alog(rng, traces=traces)
    if rng.random() < 0.25:
        al = gen.ALog([(i, a, e) for i, (_, a, e) in enumerate(al.cases)])
    events = incomplete(rng, stream_of(rng, al), ["case:concept:name", "concept:name"])
    ids = {str(c[0]): c[0] for c in al.cases}
    im0, fm0 = copy.copy(im), copy.copy(fm)
    P = variant(rng, P or {})
    with Msgs():
        algo = ctx.call("tbr:apply", s_tbr.apply, net, im, fm, **({"parameters": P} if P else {}))

        def at2(i):
            df = algo.get()
            if ctx.check(df is not None, "tbr:no-result"):
                at(algo, df, group(events[:i], "case:concept:name", "concept:name"), ids)
        feed(ctx, rng, algo, events, at2)
        tr = group(events, "case:concept:name", "concept:name")
        order = sorted(tr)
        rng.shuffle(order)
        for c in order[:rng.randint(0, len(order)) or len(order)]:
            r = ctx.call("tbr:terminate", algo.terminate, ids[c])
            done(r, tr[c])
        ctx.call("tbr:terminate_all", algo.terminate_all)
        ctx.eq(len(algo.get()), 0, "tbr:terminate-all")
    ctx.check(im == im0 and fm == fm0, "tbr:markings-changed")
    return tr


def f_tbr_plain(ctx):
    """nets without invisible transitions and duplicate labels: exact token counts"""
    rng = ctx.rng
    labs = gen.labels(rng, rng.randint(1, 6))
    places, trans = gen.rand_free_net(rng, labs=labs, np_=rng.randint(1, 5), nt_=len(labs), weights=rng.random() < 0.3, tau=0, dup=False)
    trans = [(n, lab, i, o) for (n, _, i, o), lab in zip(trans, labs)]
    net, po = gen.build_net(places, trans)
    im = {p: rng.randint(1, 2) for p in rng.sample(places, rng.randint(0, min(2, len(places))))}
    fm = {p: rng.randint(1, 2) for p in rng.sample(places, rng.randint(0, min(2, len(places))))}
    R = Replay(trans, im, fm)
    used = [lab for _, lab, _, _ in trans]
    N = ref.Net(net, Marking({po[p]: n for p, n in im.items()}), Marking({po[p]: n for p, n in fm.items()}))
    traces = []
    for _ in range(rng.randint(1, 6)):
        t = []
        m = collections.Counter(im)
        for _ in range(rng.randint(1, 8)):
            en = [(lab, i, o) for _, lab, i, o in trans if all(m[p] >= w for p, w in i.items())]
            if en and rng.random() < 0.85:
                lab, i, o = rng.choice(en)
                m.subtract(i); m.update(o)
                t.append(lab)
            else:
                t.append(rng.choice(used + ["UNKNOWN"]))
        traces.append(t)

    def at(algo, df, tr, ids):
        known = {c: [a for a in t if a in used] for c, t in tr.items()}
        got = {r["case"]: (bool(r["is_fit"]), int(r["missing"])) for r in df.to_dict("records")}
        exp = {c: (R.run(t)[1] == 0, R.run(t)[1]) for c, t in known.items() if t}
        ctx.eq(got, exp, "tbr:missing", trans=trans, im=im, tr=tr)
        for c, t in known.items():
            if t:
                st = algo.get_status(ids[c])
                if ctx.check(st is not None, "tbr:status"):
                    ctx.eq(({p.name: n for p, n in st["marking"].items() if n}, st["missing"]), (dict(R.run(t)[0]), R.run(t)[1]), "tbr:marking", trans=trans, im=im, tr=t)

    def done(r, t):
        t = [a for a in t if a in used]
        if not t:
            ctx.check(r is None, "tbr:terminate-unknown-case")
            return
        m, miss, rem = R.end(t)
        if ctx.check(r is not None, "tbr:terminate-none"):
            ctx.eq((r["missing"], r["remaining"], bool(r["is_fit"])), (miss, rem, miss == 0 and rem == 0), "tbr:terminated", trans=trans, im=im, fm=fm, tr=t)
    tr = tbr_stream(ctx, rng, net, Marking({po[p]: n for p, n in im.items()}), Marking({po[p]: n for p, n in fm.items()}), traces, at, done)
    ctx.nontrivial("tbr", trans, im, fm, sorted(tr.items())[:4])


def f_tbr_sm(ctx):
    """state machines with invisible transitions (unique labels): exact fitness"""
    rng = ctx.rng
    labs = gen.labels(rng, rng.randint(1, 6))
    places = ["source"] + [f"p{i}" for i in range(rng.randint(0, 4))] + ["sink"]
    trans = []
    for a in labs:
        trans.append((f"t_{len(trans)}", a, {rng.choice(places[:-1]): 1}, {rng.choice(places[1:]): 1}))
    for k in range(rng.randint(0, 4)):
        i, o = rng.choice(places[:-1]), rng.choice(places[1:])
        if i != o:
            trans.append((f"i_{k}", None, {i: 1}, {o: 1}))
    net, po = gen.build_net(places, trans)
    im, fm = Marking({po["source"]: 1}), Marking({po["sink"]: 1})
    N = ref.Net(net, im, fm)
    traces = []
    words = [list(w) for w in sorted(N.lang(5, cap=3000))] or [[labs[0]]]
    for _ in range(rng.randint(1, 6)):
        t = list(rng.choice(words))
        for _ in range(rng.choice([0, 0, 0, 1])):
            if rng.random() < 0.5 and t:
                del t[rng.randrange(len(t))]
            else:
                t.insert(rng.randrange(len(t) + 1), rng.choice(labs))
        if t:
            traces.append(t)
    if not traces:
        return

    def prefix_ok(t):
        S = N.closure({N.mk(im)})
        for a in t:
            nxt = set()
            for m in S:
                for tt, m2 in N.succ(m):
                    if tt[1] == a:
                        nxt.add(m2)
            if not nxt:
                return False
            S = N.closure(nxt)
        return True

    def at(algo, df, tr, ids):
        got = {r["case"]: bool(r["is_fit"]) for r in df.to_dict("records")}
        ctx.eq(got, {c: prefix_ok(t) for c, t in tr.items()}, "tbr:state-machine-prefix", trans=trans, tr=tr)

    def done(r, t):
        if ctx.check(r is not None, "tbr:terminate-none"):
            ctx.eq(bool(r["is_fit"]), N.accepts(tuple(t)), "tbr:state-machine-fit", trans=trans, tr=t, r=r)
    tr = tbr_stream(ctx, rng, net, im, fm, traces, at, done)
    ctx.nontrivial("sm", trans, sorted(tr.items())[:4])


def f_tbr_any(ctx):
    """any workflow net: a case reported as fit is a trace of the model; without invisible transitions on the way, also conversely"""
    rng = ctx.rng
    labs = gen.labels(rng, rng.randint(2, 6))
    net, im, fm, spec = gen.rand_wfnet(rng, labs=labs, depth=2)
    N = ref.Net(net, im, fm)
    tree = spec[2]
    traces = []
    for _ in range(rng.randint(1, 6)):
        t = list(gen.play_tree(rng, tree))
        for _ in range(rng.choice([0, 0, 1, 2])):
            if rng.random() < 0.5 and t:
                del t[rng.randrange(len(t))]
            else:
                t.insert(rng.randrange(len(t) + 1), rng.choice(labs))
        if t:
            traces.append(t[:14])
    if not traces:
        return
    used = {t.label for t in net.transitions if t.label is not None}
    n_cases = []

    def at(algo, df, tr, ids):
        exp = {c for c, t in tr.items() if any(a in used for a in t)}
        ctx.eq(set(df["case"]) if len(df) else set(), exp, "tbr:cases")

    def done(r, t):
        t = [a for a in t if a in used]
        if not t:
            return
        if ctx.check(r is not None, "tbr:terminate-none"):
            ctx.check(r["missing"] >= 0 and r["remaining"] >= 0, "tbr:negative-tokens", str(r))
            ctx.check(bool(r["is_fit"]) == (r["missing"] == 0 and r["remaining"] == 0), "tbr:fit-vs-tokens", str(r))
            if r["is_fit"]:
                ctx.check(N.accepts(tuple(t)), "tbr:fit-but-not-in-language", str(t))
                ctx.ev("fitting cases")
    tr = tbr_stream(ctx, rng, net, im, fm, traces, at, done)
    ctx.nontrivial("any", str(spec[2]), sorted(tr.items())[:4])


def f_temporal(ctx):
    rng = ctx.rng
    st = rng.random() < 0.4
    al = gen.rand_alog(rng, ties=0.2, micro=rng.random() < 0.3)
    if st:
        for _, _, ev in al.cases:
            for e in ev:
                e["start_timestamp"] = e["time:timestamp"] - pd.Timedelta(seconds=rng.choice([0, 1, 60, 4000]))
                e["start_timestamp"] = e["start_timestamp"].to_pydatetime() if hasattr(e["start_timestamp"], "to_pydatetime") else e["start_timestamp"]
    alt = rng.random() < 0.3
    ck, ak, tk = ("Cid", "Act", "When") if alt else ("case:concept:name", "concept:name", "time:timestamp")
    events = incomplete(rng, stream_of(rng, al, ck, {"concept:name": "Act", "time:timestamp": "When"} if alt else None), [ck, ak, tk] + (["start_timestamp"] if st else []))
    acts = sorted({e[ak] for e in events if ak in e})
    prof = {}
    for a in acts:
        for b in acts:
            if rng.random() < 0.7:
                prof[(a, b)] = (rng.choice([0.0, 1.0, 60.0, 3600.0, 40000.0]), rng.choice([0.0, 0.0, 1.0, 500.0, 20000.0]))
    zeta = rng.choice([None, 0.5, 1, 2, 6])
    from pm4py.streaming.algo.conformance.temporal.variants import classic as T
    P = variant(rng, {})
    P = {T.Parameters.DICT_VARIANT: v for v in P.values()}
    if alt:
        P.update({T.Parameters.CASE_ID_KEY: ck, T.Parameters.ACTIVITY_KEY: ak, T.Parameters.TIMESTAMP_KEY: tk})
    if st:
        P[T.Parameters.START_TIMESTAMP_KEY] = "start_timestamp"
    if zeta is not None:
        P[T.Parameters.ZETA] = zeta
    z = 6.0 if zeta is None else zeta

    def expected(evs):
        per = {}
        dev = {}
        for e in evs:
            if ck not in e or ak not in e or tk not in e or (st and "start_timestamp" not in e):
                continue
            c = str(e[ck])
            s, t = (e["start_timestamp"] if st else e[tk]).timestamp(), e[tk].timestamp()
            for (ps, pt, pa) in per.get(c, []):
                if s >= pt and (pa, e[ak]) in prof:
                    mean, std = prof[(pa, e[ak])]
                    d = s - pt
                    if d < mean - z * std or d > mean + z * std:
                        dev.setdefault(c, []).append((c, pa, e[ak], d))
            per.setdefault(c, []).append((s, t, e[ak]))
        return dev
    with Msgs() as ms:
        algo = ctx.call("temporal:apply", s_tmp.apply, prof, **({"parameters": P} if P else {}))

        def at(i):
            g = algo.get()
            if not ctx.check(g is not None, "temporal:no-result"):
                return
            exp = expected(events[:i])
            got = {c: [(x[0], x[1], x[2], x[3]) for x in d] for c, d in g.items()}
            ctx.eq(got, exp, "temporal:deviations")
            for d in g.values():
                for c, a, b, diff, zz in d:
                    mean, std = prof[(a, b)]
                    ctx.check(std == 0 or h.close(zz, abs(diff - mean) / std), "temporal:zeta", f"{zz} {mean} {std} {diff}")
        feed(ctx, rng, algo, events, at)
    # the batch conformance checking on the same events (same order within the cases)
    full = [e for e in events if not (ck not in e or ak not in e or tk not in e or (st and "start_timestamp" not in e))]
    by = {}
    for e in full:
        by.setdefault(str(e[ck]), []).append(e)
    log = EventLog([Trace([Event({"concept:name": e[ak], "time:timestamp": e[tk], **({"start_timestamp": e["start_timestamp"]} if st else {})}) for e in ev], attributes={"concept:name": c}) for c, ev in by.items()])
    batch = b_tmp.apply(log, prof, parameters={**({"zeta": zeta} if zeta is not None else {}), **({"pm4py:param:start_timestamp_key": "start_timestamp"} if st else {})}) if len(log) else []
    exp = expected(events)
    for c, d in zip(by, batch):
        ctx.eq(sorted((x[0], x[1], x[2]) for x in d), sorted(x[1:] for x in exp.get(c, [])), "temporal:batch")
    ctx.ev("deviations", sum(map(len, exp.values())))
    ctx.nontrivial("temporal", sorted(map(str, exp.items()))[:10], z)


class Sink:
    def __init__(self):
        self.items = []

    def append(self, x):
        self.items.append(x)


def consume(ctx, rng, reader, how, label):
    if how == "iter":
        return ctx.call(label, list, reader)
    kind = LiveTraceStream if "trace" in how else LiveEventStream
    s = Sink()
    ctx.call(label, getattr(reader, "to_trace_stream" if "trace" in how else "to_event_stream"), s)
    return s.items


def f_xes(ctx):
    rng = ctx.rng
    log = c01.mk(rng, nested=rng.random() < 0.7, big=rng.random() < 0.4)
    d = tempfile.mkdtemp(prefix="c31")
    try:
        f = os.path.join(d, "l.xes")
        from pm4py.objects.log.exporter.xes import exporter as X
        X.apply(log, f, variant=X.Variants.ETREE, parameters={"show_progress_bar": False})
        # event stream
        rd = ctx.call("xes:event:open", s_xes.apply, f, variant=s_xes.Variants.XES_EVENT_STREAM)
        exp = [(t.attributes, e) for t in log for e in t]
        for round in range(2 if rng.random() < 0.3 else 1):
            got = consume(ctx, rng, rd, rng.choice(["iter", "stream"]), "xes:event")
            ctx.eq(len(got), len(exp), "xes:event:count")
            for (ta, e), g in zip(exp, got):
                want = dict(e)
                want.update({"case:" + k: v for k, v in ta.items()})
                a, b = cmap(want), cmap(dict(g))
                if not ctx.check(a == b, "xes:event:attributes", lambda: diff(a, b)):
                    break
            ctx.ev("events streamed", len(got))
            rd.reset()
        # trace stream
        rd = ctx.call("xes:trace:open", s_xes.apply, f, variant=s_xes.Variants.XES_TRACE_STREAM)
        for round in range(2 if rng.random() < 0.3 else 1):
            got = consume(ctx, rng, rd, rng.choice(["iter", "trace"]), "xes:trace")
            ctx.eq(len(got), len(log), "xes:trace:count")
            for t, g in zip(log, got):
                a, b = (cmap(dict(t.attributes)), [cmap(dict(e)) for e in t]), (cmap(dict(g.attributes)), [cmap(dict(e)) for e in g])
                if not ctx.check(a == b, "xes:trace:content", lambda: str(diff(a[0], b[0])) + str([diff(x, y) for x, y in zip(a[1], b[1]) if x != y])[:600]):
                    break
            ctx.ev("prefixes compared")
            rd.reset()
        # acceptance conditions
        rd = s_xes.apply(f, variant=s_xes.Variants.XES_EVENT_STREAM, parameters={"acceptance_condition": lambda e: e.get("concept:name") == "a"})
        ctx.eq(len(ctx.call("xes:condition", list, rd)), sum(1 for _, e in exp if e.get("concept:name") == "a"), "xes:event:condition")
        rd = s_xes.apply(f, variant=s_xes.Variants.XES_TRACE_STREAM, parameters={"acceptance_condition": lambda t: len(t) > 2})
        ctx.eq([len(t) for t in ctx.call("xes:condition", list, rd)], [len(t) for t in log if len(t) > 2], "xes:trace:condition")
        ctx.nontrivial("xes", len(log), sum(map(len, log)), os.path.getsize(f))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def cmap(d):
    return c01.amap(d)


def diff(a, b):
    return {k: (a.get(k), b.get(k)) for k in set(a) | set(b) if a.get(k) != b.get(k)}.__repr__()[:900]


def f_csv(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng)
    cols = ["case:concept:name", "concept:name", "time:timestamp", "cost", "note"]
    notes = ["", "x", "a,b", 'say "hi"', "line\nbreak", " sp ", "é日本", "crlf\r\nx", "0012", "None", "1e5", "=1"]
    rows = [{"case:concept:name": r["case:concept:name"], "concept:name": r["concept:name"], "time:timestamp": str(r["time:timestamp"]), "cost": str(r["cost"]), "note": rng.choice(notes)} for r in al.rows()]
    d = tempfile.mkdtemp(prefix="c31")
    try:
        f = os.path.join(d, "l.csv")
        with open(f, "w", newline="", encoding="utf-8") as fo:
            w = csv.DictWriter(fo, fieldnames=cols, quoting=rng.choice([csv.QUOTE_MINIMAL, csv.QUOTE_ALL]), lineterminator=rng.choice(["\n", "\r\n"]))
            w.writeheader()
            for r in rows:
                w.writerow(r)
        batch = pd.read_csv(f, dtype=str, keep_default_na=False).to_dict("records")
        rd = ctx.call("csv:open", s_csv.apply, f)
        for round in range(2):
            got = consume(ctx, rng, rd, rng.choice(["iter", "stream"]), "csv:read")
            ctx.eq(got, rows, "csv:rows")
            ctx.eq(got, batch, "csv:batch")
            ctx.ev("events streamed", len(got))
            rd.reset()
        acts = sorted({r["concept:name"] for r in rows})
        a = rng.choice(acts) if acts else "a"
        P = {"acceptance_condition": lambda e: e["concept:name"] == a, "transformation_function": lambda e: dict(e, extra=e["cost"] + "!")}
        rd = ctx.call("csv:open", s_csv.apply, f, parameters=P)
        ctx.eq(ctx.call("csv:condition", list, rd), [dict(r, extra=r["cost"] + "!") for r in rows if r["concept:name"] == a], "csv:condition")
        ctx.nontrivial("csv", str(rows[:5]))
        ctx.ev("prefixes compared")
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def f_pandas(ctx):
    rng = ctx.rng
    al = gen.rand_alog(rng, ties=0.3)
    alt = rng.random() < 0.3
    rn, ck = ({"concept:name": "Act", "time:timestamp": "When"}, "Cid") if alt else (None, "case:concept:name")
    df = al.to_df(rn, ck, order=rng.choice([None, "interleave", "time"]), index=rng.choice([None, "shuffled"]), rng=rng)
    if rng.random() < 0.4 and not alt:
        df = pm4py.format_dataframe(df, case_id="case:concept:name", activity_key="concept:name", timestamp_key="time:timestamp")
    before = df.copy(deep=True)
    P = {"pm4py:param:case_id_key": ck, "pm4py:param:activity_key": "Act", "pm4py:param:timestamp_key": "When"} if alt else {}
    P = {getattr(from_pandas.Parameters, {"pm4py:param:case_id_key": "CASE_ID_KEY", "pm4py:param:activity_key": "ACTIVITY_KEY", "pm4py:param:timestamp_key": "TIMESTAMP_KEY"}[k]): v for k, v in P.items()}
    it = ctx.call("pandas:open", from_pandas.apply, df, **({"parameters": P} if P else {}))
    for round in range(2):
        got = consume(ctx, rng, it, rng.choice(["iter", "trace"]), "pandas:read")
        exp = {c: [e["concept:name"] for e in ev] for c, _, ev in al.cases if ev}
        ctx.eq({t.attributes["concept:name"]: [e["concept:name"] for e in t] for t in got}, exp, "pandas:traces")
        ctx.eq(len(got), len(exp), "pandas:count")
        tim = {c: [pd.Timestamp(e["time:timestamp"]).value for e in ev] for c, _, ev in al.cases if ev}
        ctx.eq({t.attributes["concept:name"]: [pd.Timestamp(e["time:timestamp"]).value for e in t] for t in got}, tim, "pandas:timestamps")
        it.reset()
        ctx.ev("events streamed", sum(map(len, got)))
        ctx.ev("prefixes compared")
    ctx.check(before.equals(df), "pandas:dataframe-changed")
    ctx.nontrivial("pandas", sorted(exp.items())[:5])


def f_ocel(ctx):
    rng = ctx.rng
    ao = ocelgen.rand(rng)
    oc = ao.build(rng)
    types = sorted({o[1] for o in ao.objects})
    dist = ocel_flatts_distributor.OcelFlattsDistributor()
    sinks = {}
    for ot in types:
        if rng.random() < 0.8:
            sinks[ot] = [Sink() for _ in range(rng.choice([1, 1, 2]))]
            for s in sinks[ot]:
                dist.register(ot, s)
    n = 0
    for ev in ctx.call("ocel:iterate", lambda: list(ocel_iterator.apply(oc))):
        n += 1
        ctx.call("ocel:append", dist.append, ev)
    ctx.eq(n, len(ao.events), "ocel:events")
    otype = {o[0]: o[1] for o in ao.objects}
    E = {e[0]: e for e in ao.events}
    for ot, ss in sinks.items():
        exp = collections.Counter()
        rel = {(e, o) for e, o, _ in ao.rels}
        for e, o in rel:
            if otype[o] == ot:
                exp[(e, o, E[e][1], pd.Timestamp(E[e][2]).value, tuple(sorted((k, str(v)) for k, v in ocelgen.amap(E[e][3]).items())))] += 1
        for s in ss:
            got = collections.Counter((x["ocel:eid"], x["case:concept:name"], x["concept:name"], pd.Timestamp(x["time:timestamp"]).value,
                                       tuple(sorted((k, str(v)) for k, v in ocelgen.amap({a: b for a, b in x.items() if a not in ("ocel:eid", "case:concept:name", "concept:name", "time:timestamp")}).items()))) for x in s.items)
            ctx.eq(got, exp, "ocel:flattened", ot=ot)
            ts = [pd.Timestamp(x["time:timestamp"]).value for x in s.items]
            ctx.check(ts == sorted(ts), "ocel:order")
            ctx.ev("events streamed", len(s.items))
        fl = pm4py.ocel_flattening(oc, ot) if exp else None
        if fl is not None:
            ctx.eq(collections.Counter(zip(fl["ocel:eid"], fl["case:concept:name"])), collections.Counter((k[0], k[1]) for k in exp.elements()), "ocel:batch", ot=ot)
    ctx.ev("prefixes compared")
    ctx.nontrivial("ocel", len(ao.events), sorted(map(str, ao.rels))[:10])


FAMILIES = {
    "dfg": (90, 1500, f_dfg),
    "footprints": (90, 1500, f_footprints),
    "tbr_plain": (90, 1500, f_tbr_plain),
    "tbr_sm": (80, 1500, f_tbr_sm),
    "tbr_any": (60, 1000, f_tbr_any),
    "temporal": (80, 1500, f_temporal),
    "xes": (40, 500, f_xes),
    "csv": (30, 400, f_csv),
    "pandas": (40, 600, f_pandas),
    "ocel": (50, 700, f_ocel),
}
