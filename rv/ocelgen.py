"""Abstract object-centric logs, their pm4py OCEL form, and canonical views of an OCEL."""
import math
from datetime import datetime, timedelta, timezone

EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
UTC = timezone.utc


class AOcel:
    """events: [(eid, act, time, {attr: v})], objects: [(oid, type, {attr: v})], rels: [(eid, oid, qual)],
    o2o: [(oid, oid2, qual)], changes: [(oid, time, field, value)]"""

    def __init__(self, events, objects, rels, o2o=(), changes=(), e2e=()):
        self.events, self.objects, self.rels, self.o2o, self.changes, self.e2e = list(events), list(objects), list(rels), list(o2o), list(changes), list(e2e)

    def build(self, rng=None, shuffle=False, naive=False, keys=None):
        import pandas as pd
        from pm4py.objects.ocel.obj import OCEL
        ty = {o[0]: o[1] for o in self.objects}
        ev = {e[0]: e for e in self.events}
        tt = (lambda t: t.replace(tzinfo=None)) if naive else (lambda t: t)
        E = [{"ocel:eid": e, "ocel:activity": a, "ocel:timestamp": tt(t), **at} for e, a, t, at in self.events]
        O = [{"ocel:oid": o, "ocel:type": t, **at} for o, t, at in self.objects]
        R = [{"ocel:eid": e, "ocel:activity": ev[e][1], "ocel:timestamp": tt(ev[e][2]), "ocel:oid": o, "ocel:type": ty[o], "ocel:qualifier": q} for e, o, q in self.rels]
        if shuffle and rng is not None:
            rng.shuffle(O)
            R2 = R[:]
            rng.shuffle(R2)
            R = sorted(R2, key=lambda x: x["ocel:timestamp"])
        kw = {}
        if self.o2o:
            kw["o2o"] = pd.DataFrame([{"ocel:oid": a, "ocel:oid_2": b, "ocel:qualifier": q} for a, b, q in self.o2o])
        if self.e2e:
            kw["e2e"] = pd.DataFrame([{"ocel:eid": a, "ocel:eid_2": b, "ocel:qualifier": q} for a, b, q in self.e2e])
        if self.changes:
            kw["object_changes"] = pd.DataFrame([{"ocel:oid": o, "ocel:type": ty[o], "ocel:timestamp": tt(t), "ocel:field": f, f: v} for o, t, f, v in self.changes])
        E = pd.DataFrame(E, columns=None if E else ["ocel:eid", "ocel:activity", "ocel:timestamp"])
        O = pd.DataFrame(O, columns=None if O else ["ocel:oid", "ocel:type"])
        R = pd.DataFrame(R, columns=None if R else ["ocel:eid", "ocel:activity", "ocel:timestamp", "ocel:oid", "ocel:type", "ocel:qualifier"])
        if E.shape[0]:
            E["ocel:timestamp"] = pd.to_datetime(E["ocel:timestamp"], utc=not naive)
        if R.shape[0]:
            R["ocel:timestamp"] = pd.to_datetime(R["ocel:timestamp"], utc=not naive)
        return OCEL(events=E, objects=O, relations=R, **kw)

    # ------------------------------------------------------------ views
    def view(self):
        return dict(events={e: (a, inst(t), amap(at)) for e, a, t, at in self.events},
                    objects={o: (t, amap(at)) for o, t, at in self.objects},
                    rels=sorted((e, o, q or "") for e, o, q in self.rels),
                    o2o=sorted((a, b, q or "") for a, b, q in self.o2o),
                    changes=sorted((o, inst(t), f, repr(val(v))) for o, t, f, v in self.changes))

    def e_objs(self):
        d = {e[0]: [] for e in self.events}
        for e, o, _ in self.rels:
            d[e].append(o)
        return d

    def o_evs(self):
        """events of every object, in (timestamp, position) order"""
        pos = {e[0]: (e[2], i) for i, e in enumerate(self.events)}
        d = {o[0]: [] for o in self.objects}
        for e, o, _ in self.rels:
            if e not in d[o]:
                d[o].append(e)
        for o in d:
            d[o].sort(key=lambda e: pos[e])
        return d


def inst(t):
    """microseconds since the epoch (naive = UTC)"""
    import pandas as pd
    t = pd.Timestamp(t)
    t = t.tz_localize("UTC") if t.tzinfo is None else t.tz_convert("UTC")
    return t.value // 1000


def isnull(v):
    import pandas as pd
    if v is None or v is pd.NaT or v is pd.NA:
        return True
    return isinstance(v, float) and math.isnan(v)


def val(v):
    """canonical attribute value: ('n', float) | ('t', microseconds) | ('s', text) | ('b', bool)"""
    import numpy as np
    import pandas as pd
    if isinstance(v, (bool, np.bool_)):
        return ("b", bool(v))
    if isinstance(v, (int, float, np.integer, np.floating)):
        return ("n", float(v))
    if isinstance(v, (datetime, pd.Timestamp, np.datetime64)):
        return ("t", inst(v))
    return ("s", str(v))


def amap(d):
    return {k: val(v) for k, v in d.items() if not isnull(v)}


def view(ocel):
    ei, oi, ty, ac, ts, q, cf = ocel.event_id_column, ocel.object_id_column, ocel.object_type_column, ocel.event_activity, ocel.event_timestamp, ocel.qualifier, ocel.changed_field
    ev = {}
    dup = []
    for x in ocel.events.to_dict("records"):
        if x[ei] in ev:
            dup.append(x[ei])
        ev[str(x[ei])] = (str(x[ac]), inst(x[ts]), amap({k: v for k, v in x.items() if k not in (ei, ac, ts)}))
    ob = {}
    for x in ocel.objects.to_dict("records"):
        if x[oi] in ob:
            dup.append(x[oi])
        ob[str(x[oi])] = (str(x[ty]), amap({k: v for k, v in x.items() if k not in (oi, ty)}))
    rels = sorted((str(x[ei]), str(x[oi]), "" if isnull(x.get(q)) else str(x[q])) for x in ocel.relations.to_dict("records"))
    o2o = sorted((str(x[oi]), str(x[oi + "_2"]), "" if isnull(x.get(q)) else str(x[q])) for x in ocel.o2o.to_dict("records"))
    ch = []
    for x in ocel.object_changes.to_dict("records"):
        f = x[cf]
        ch.append((str(x[oi]), inst(x[ts]), str(f), repr(val(x[f]))))
    return dict(events=ev, objects=ob, rels=rels, o2o=o2o, changes=sorted(ch), dup=dup)


def consistent(ocel):
    """referential problems of an OCEL (relations/o2o/changes point to existing events/objects, denormalised columns agree)"""
    ei, oi, ty, ac, ts = ocel.event_id_column, ocel.object_id_column, ocel.object_type_column, ocel.event_activity, ocel.event_timestamp
    bad = []
    ev = {x[ei]: x for x in ocel.events.to_dict("records")}
    ob = {x[oi]: x for x in ocel.objects.to_dict("records")}
    if len(ev) != len(ocel.events):
        bad.append("duplicate events")
    if len(ob) != len(ocel.objects):
        bad.append("duplicate objects")
    for x in ocel.relations.to_dict("records"):
        if x[ei] not in ev:
            bad.append(f"relation to missing event {x[ei]}")
        elif x[ac] != ev[x[ei]][ac] or x[ts] != ev[x[ei]][ts]:
            bad.append(f"relation of {x[ei]} disagrees with its event")
        if x[oi] not in ob:
            bad.append(f"relation to missing object {x[oi]}")
        elif x[ty] != ob[x[oi]][ty]:
            bad.append(f"relation to {x[oi]} has type {x[ty]}")
    for x in ocel.o2o.to_dict("records"):
        for k in (oi, oi + "_2"):
            if x[k] not in ob:
                bad.append(f"o2o with missing object {x[k]}")
    for x in ocel.e2e.to_dict("records"):
        for k in (ei, ei + "_2"):
            if x[k] not in ev:
                bad.append(f"e2e with missing event {x[k]}")
    for x in ocel.object_changes.to_dict("records"):
        if x[oi] not in ob:
            bad.append(f"change of missing object {x[oi]}")
    return bad


TYPES = ["order", "item", "package", "route", "order item", "Prüfung", "Order", "order-item", "製品", "注文"]
ACTS = ["place order", "pick item", "pack", "ship", "pay", "return", "Zürich & co", "Pay", "place-order", "出荷"]
QUALS = ["main", "part of", "uses", "x<y", "ü"]


def rand(rng, ocel2=False, ne=None, no=None, ties=0.2, micro=True, attrs=True, isolated=False, names=None, dupq=False, multi_per_type=True, cols=("s", "f", "t")):
    """random abstract OCEL; isolated: allow events without objects and objects without events"""
    nt = rng.randint(1, 4)
    types = rng.sample(TYPES, nt)
    acts = rng.sample(ACTS, rng.randint(1, 5))
    no = no or rng.randint(1, 8)
    ne = ne or rng.randint(1, 12)
    nm = names or (lambda p, i: f"{p}{i}")
    objects = []
    oattr = {t: {f"o{k}": k for k in cols if rng.random() < .6} for t in types}
    shared = rng.random() < .3
    eattr = {a: {f"e{k}": k for k in cols if rng.random() < .6} for a in acts}
    full = rng.random() < .5

    def value(k):
        if k == "s":
            return rng.choice(["red", "blue ", "a & b <c>", "x;y,z", 'say "hi"', "it's", "ünï", "[1]", "line", "3 pcs"])
        if k == "f":
            return rng.choice([0.1, 12.5, -3.25, 1e9, 2.0 ** -30, 1 / 3])
        if k == "i":
            return rng.choice([0, 1, -7, 123456789])
        if k == "b":
            return rng.random() < .5
        return datetime(2021, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.choice([0, 0, 250000]) if micro else 0, tzinfo=UTC)

    def at(d):
        if not attrs:
            return {}
        return {("shared" + n if shared and k == "s" else n): value(k) for n, k in d.items() if full or rng.random() < .7}
    for i in range(no):
        t = rng.choice(types)
        objects.append((nm("o", i), t, at(oattr[t])))
    t0 = datetime(2020, 1, 1, tzinfo=UTC) + timedelta(minutes=rng.randint(0, 500000))
    events, rels = [], []
    seen = set()
    for i in range(ne):
        if i and rng.random() >= ties:
            t0 += timedelta(seconds=rng.choice([1, 30, 3600, 86400])) + (timedelta(milliseconds=rng.choice([0, 1, 500])) if micro else timedelta(0))
        a = rng.choice(acts)
        events.append((nm("e", i), a, t0, at(eattr[a])))
        k = rng.randint(0 if isolated else 1, min(4, no))
        ch = rng.sample(objects, k)
        if not multi_per_type:
            kk = {}
            for o in ch:
                kk.setdefault(o[1], o)
            ch = list(kk.values())
        for o in ch:
            rels.append((events[-1][0], o[0], rng.choice(QUALS) if ocel2 else None))
            if ocel2 and dupq and rng.random() < .1:
                q2 = rng.choice([q for q in QUALS if q != rels[-1][2]])
                rels.append((events[-1][0], o[0], q2))
            seen.add(o[0])
    if not isolated:
        objects = [o for o in objects if o[0] in seen]
    o2o, changes = [], []
    if ocel2:
        ids = [o[0] for o in objects]
        for _ in range(rng.randint(0, 5)):
            a, b = rng.choice(ids), rng.choice(ids)
            q = rng.choice(QUALS)
            if (a, b, q) not in o2o:
                o2o.append((a, b, q))
        for _ in range(rng.randint(0, 6)):
            o = rng.choice(objects)
            if not o[2]:
                continue
            f = rng.choice(sorted(o[2]))
            v = value(f[-1])
            changes.append((o[0], t0 - timedelta(seconds=rng.randint(1, 10 ** 6)), f, v))
        ks = set()
        changes = [c for c in changes if (c[0], c[1], c[2]) not in ks and not ks.add((c[0], c[1], c[2]))]
    return AOcel(events, objects, rels, o2o, changes)
