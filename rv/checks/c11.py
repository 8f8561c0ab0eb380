"""C11 the Petri-net token game and its state space follow the firing rule"""
import copy
import random
from collections import Counter
from rv import gen, ref

RULE = "a case is non-trivial when at least one transition was enabled and at least one was disabled somewhere along the walk (or the state space has at least 3 markings); distinct by net structure"
ASSUMPTIONS = ["reset/inhibitor arcs only in ResetInhibitorNet objects, as the API demands", "state spaces above the cap are only walked, not enumerated"]
CAP = 400


def build(r, kind=None):
    """-> (net, {name: place}, marking dict by name, kind)"""
    from pm4py.objects.petri_net.obj import ResetInhibitorNet, PetriNet
    from pm4py.objects.petri_net.utils import petri_utils as pu
    from pm4py.objects.petri_net import properties as pp
    kind = kind or r.choice(["plain", "plain", "ri"])
    if r.random() < 0.35:
        places, trans = None, None
        net, im, fm, (places, trans, _t) = gen.rand_wfnet(r)
        m = {"source": 1}
        if r.random() < 0.3:
            m = {p: r.randint(1, 2) for p in r.sample(list(places), min(3, len(places)))}
    else:
        places, trans = gen.rand_free_net(r)
        m = {p: r.randint(1, 3) for p in r.sample(places, r.randint(0, len(places)))}
    ren = {p: f"p{i}" for i, p in enumerate(places)}
    inv = {}
    net = (ResetInhibitorNet if kind == "ri" else PetriNet)("n")
    for p in places:
        inv[ren[p]] = pu.add_place(net, ren[p])
    for j, (n, l, i, o) in enumerate(trans):
        t = pu.add_transition(net, f"t{j}", l)
        for p, w in i.items():
            pu.add_arc_from_to(inv[ren[p]], t, net, w)
        for p, w in o.items():
            pu.add_arc_from_to(t, inv[ren[p]], net, w)
        if kind == "ri":
            for ty in (pp.INHIBITOR_ARC, pp.RESET_ARC):
                if r.random() < 0.3:
                    q = r.choice(list(inv.values()))
                    if ty == pp.INHIBITOR_ARC and any(a.source is q for a in t.in_arcs):
                        continue
                    pu.add_arc_from_to(q, t, net, type=ty)
    return net, inv, {ren[p]: n for p, n in m.items()}, kind


def mk(inv, m):
    from pm4py.objects.petri_net.obj import Marking
    return Marking({inv[p]: n for p, n in m.items()})


def plain(m):
    return {p.name: n for p, n in m.items()}


def own(N, m):
    return {N.places[p].name: n for p, n in m}


def shape(net):
    pa = sorted(p.name for p in net.places)
    tr = sorted((t.name, t.label) for t in net.transitions)
    ar = sorted((a.source.name, a.target.name, a.weight, type(a).__name__) for a in net.arcs)
    ia = sorted((t.name, a.source.name, a.weight, type(a).__name__) for t in net.transitions for a in t.in_arcs)
    oa = sorted((t.name, a.target.name, a.weight, type(a).__name__) for t in net.transitions for a in t.out_arcs)
    pi = sorted((p.name, a.source.name, a.weight) for p in net.places for a in p.in_arcs)
    po = sorted((p.name, a.target.name, a.weight) for p in net.places for a in p.out_arcs)
    return pa, tr, ar, ia, oa, pi, po


def semantics(kind):
    from pm4py.objects.petri_net import semantics as cs
    from pm4py.objects.petri_net.inhibitor_reset import semantics as ris
    out = [("ri_module", ris, ris.InhibitorResetSemantics())]
    if kind == "plain":
        out.append(("classic", cs, cs.ClassicSemantics()))
    return out


def fam_walk(ctx):
    import pm4py
    from pm4py.objects.petri_net.semantics import PetriNetSemantics
    from pm4py.objects.petri_net.obj import PetriNet
    r = ctx.rng
    net, inv, m0, kind = build(r)
    N = ref.Net(net)
    foreign = PetriNet.Transition("foreign", "a")
    before = shape(net)
    dis = en = 0
    for name, mod, obj in semantics(kind):
        m = N.mk(mk(inv, m0))
        for step in range(12):
            mark = mk(inv, own(N, m))
            if any(n > 60 for _, n in m):
                break
            snap = plain(mark)
            exp_en = {t[0] for t in N.trans if N.enabled(m, t)}
            ctx.eq({t.name for t in ctx.call(name + ".enabled_transitions", mod.enabled_transitions, net, mark)}, exp_en, f"enabled:{name}:module")
            ctx.eq({t.name for t in obj.enabled_transitions(net, mark)}, exp_en, f"enabled:{name}:object")
            if kind == "plain":
                ctx.eq({t.name for t in ctx.call("get_enabled_transitions", pm4py.get_enabled_transitions, net, mark)}, exp_en, "enabled:api")
            ctx.check(not mod.is_enabled(foreign, net, mark), "foreign:enabled", "a transition that is not part of the net is reported enabled")
            ctx.check(mod.execute(foreign, net, mark) is None, "foreign:fired", "a foreign transition was fired")
            for t, o in zip(N.trans, N.obj):
                e = t[0] in exp_en
                en += e
                dis += not e
                ctx.eq(bool(mod.is_enabled(o, net, mark)), e, f"is_enabled:{name}:module")
                ctx.eq(bool(obj.is_enabled(o, net, mark)), e, f"is_enabled:{name}:object")
                if kind == "plain":
                    ctx.eq(bool(PetriNetSemantics.is_enabled(net, o, mark)), e, "is_enabled:PetriNetSemantics")
                res = [(f"{name}:module", mod.execute(o, net, mark)), (f"{name}:object", obj.execute(o, net, mark))]
                if e:
                    exp = own(N, N.fire(m, t))
                    res.append((f"{name}:weak", mod.weak_execute(o, mark)))
                    res.append((f"{name}:weakobj", obj.weak_execute(o, net, mark)))
                    if kind == "plain":
                        res.append(("PetriNetSemantics", PetriNetSemantics.fire(net, o, mark)))
                    expm = mk(inv, exp)
                    for k, g in res:
                        ctx.ev("firings")
                        if not ctx.check(g is not None, f"fire:{k}", "enabled transition refused"):
                            continue
                        ctx.eq(plain(g), exp, f"fire:{k}")
                        ctx.check(g == expm and not g != expm and hash(g) == hash(expm), f"fire:{k}:cmp", "reached marking is not equal to the expected marking object")
                        ctx.check(g is not mark, f"fire:{k}:alias", "firing returned the input marking object")
                else:
                    for k, g in res:
                        ctx.check(g is None, f"disabled:{k}", f"a disabled transition was fired: {g}")
                ctx.eq(plain(mark), snap, f"input:{name}")
            nx = list(N.succ(m))
            if not nx:
                break
            m = r.choice(nx)[1]
    ctx.eq(shape(net), before, "net:modified")
    if en and dis:
        ctx.nontrivial(str(before))
    ctx.sample(dict(net=str(before[2]), m0=m0, kind=kind))


def bfs(N, m0):
    seen = {m0: None}
    edges = {}
    q = [m0]
    while q:
        m = q.pop()
        edges[m] = {}
        for t, n in N.succ(m):
            edges[m][t[0]] = n
            if n not in seen:
                seen[n] = None
                q.append(n)
                if len(seen) > CAP or any(c > 9 for _, c in n):
                    return None
    return edges


def fam_reach(ctx):
    import pm4py
    from pm4py.objects.petri_net.utils import reachability_graph as rg
    from pm4py.objects.petri_net.inhibitor_reset.semantics import InhibitorResetSemantics
    r = ctx.rng
    for _ in range(10):
        net, inv, m0, kind = build(r)
        if len(inv) > 10:
            continue
        N = ref.Net(net)
        E = bfs(N, N.mk(mk(inv, m0)))
        if E is not None and len(E) > 1:
            break
    else:
        return
    im = mk(inv, m0)
    par = {}
    if kind == "ri" or r.random() < 0.3:
        par = {rg.Parameters.PETRI_SEMANTICS: InhibitorResetSemantics()}
    inc, out, _e = ctx.call("marking_flow_petri", rg.marking_flow_petri, net, im, parameters=par)
    key = lambda m: tuple(sorted(plain(m).items()))
    expk = {m: tuple(sorted(own(N, m).items())) for m in E}
    ctx.eq(sorted(key(m) for m in out), sorted(expk.values()), "flow:markings")
    ctx.eq(sorted(key(m) for m in inc), sorted(expk.values()), "flow:incoming-markings")
    got = {key(m): {t.name: key(n) for t, n in d.items()} for m, d in out.items()}
    exp = {expk[m]: {t: expk[n] for t, n in d.items()} for m, d in E.items()}
    ctx.eq(got, exp, "flow:steps")
    einc = {k: set() for k in expk.values()}
    for m, d in exp.items():
        for t, n in d.items():
            einc[n].add(t)
    ctx.eq({key(m): {t.name for t in s} for m, s in inc.items()}, einc, "flow:incoming")
    ctx.eq(plain(im), m0, "reach:input")
    byname = r.random() < 0.5
    ts = ctx.call("construct_reachability_graph", rg.construct_reachability_graph, net, im, use_trans_name=byname, parameters=par)
    ctx.ev("states", len(E))
    ctx.ev("steps", sum(map(len, E.values())))
    lab = {t[0]: (t[0] if byname else (f"({t[0]}, None)" if t[1] is None else f"({t[0]}, '{t[1]}')")) for t in N.trans}
    name = lambda k: "".join(f"{p}{n}" for p, n in k)
    ctx.eq(len(ts.states), len(E), "ts:states")
    ctx.eq(sorted(s.name for s in ts.states), sorted(map(name, expk.values())), "ts:names")
    ctx.eq(Counter((t.from_state.name, t.name, t.to_state.name) for t in ts.transitions),
           Counter((name(m), lab[t], name(n)) for m, d in exp.items() for t, n in d.items()), "ts:transitions")
    ctx.eq(Counter((s.name, t.name, t.to_state.name) for s in ts.states for t in s.outgoing),
           Counter((name(m), lab[t], name(n)) for m, d in exp.items() for t, n in d.items()), "ts:outgoing")
    ctx.eq(Counter((t.from_state.name, t.name, s.name) for s in ts.states for t in s.incoming),
           Counter((name(m), lab[t], name(n)) for m, d in exp.items() for t, n in d.items()), "ts:incoming")
    if kind == "plain" and not par:
        ts2 = ctx.call("convert_to_reachability_graph", pm4py.convert_to_reachability_graph, net, im, im)
        ctx.eq(Counter((t.from_state.name, t.to_state.name) for t in ts2.transitions),
               Counter((name(m), name(n)) for m, d in exp.items() for n in d.values()), "ts:api")
    if len(E) >= 3:
        ctx.nontrivial(str(shape(net)))
    ctx.sample(dict(states=len(E), kind=kind, net=str(shape(net)[2])))


def fam_marking(ctx):
    import pm4py
    from pm4py.objects.petri_net.obj import Marking, PetriNet
    from pm4py.objects.petri_net.utils import petri_utils as pu
    from pm4py.objects.petri_net.data_petri_nets.data_marking import DataMarking
    r = ctx.rng
    P = [PetriNet.Place(f"p{i}") for i in range(4)]
    nz = lambda c: {p: n for p, n in c.items() if n}
    for _ in range(30):
        a = {p: r.randint(1, 3) for p in r.sample(P, r.randint(0, 4))}
        b = dict(a) if r.random() < 0.3 else {p: r.randint(1, 3) for p in r.sample(P, r.randint(0, 4))}
        items = list(b.items())
        r.shuffle(items)
        b = dict(items)
        A, B = Marking(a), Marking(b)
        ctx.ev("pairs")
        ctx.eq(A == B, a == b, "eq")
        ctx.eq(A != B, a != b, "ne")
        if a == b:
            ctx.eq(hash(A), hash(B), "hash")
            ctx.eq(repr(A), repr(B), "repr")
            ctx.check(len({A, B}) == 1, "set", "equal markings are distinct set members")
        ctx.eq(A <= B, all(n <= b.get(p, 0) for p, n in a.items()), "le")
        ctx.eq(A >= B, all(n <= a.get(p, 0) for p, n in b.items()), "ge")
        ctx.eq(dict(A + B), {p: a.get(p, 0) + b.get(p, 0) for p in {**a, **b}}, "add")
        s = Marking(b)
        ctx.eq(nz((A + B) - B), a, "sub")
        ctx.eq(dict((A + B) - B), a, "sub:zeros")
        ctx.eq(nz(A - B), nz({p: a.get(p, 0) - b.get(p, 0) for p in {**a, **b}}), "sub:any")
        ctx.eq((dict(A), dict(B)), (a, b), "operands")
        ctx.eq(bool(pu.is_sub_marking(A, B)), all(n <= b.get(p, 0) for p, n in a.items()), "is_sub_marking")
        c = copy.copy(A)
        c[P[0]] += 1
        ctx.eq(dict(A), a, "copy")
        d = copy.deepcopy(A)
        ctx.eq(sorted((p.name, n) for p, n in d.items()), sorted((p.name, n) for p, n in a.items()), "deepcopy")
        if a and b and a != b:
            ctx.nontrivial(str(sorted((p.name, n) for p, n in a.items())), str(sorted((p.name, n) for p, n in b.items())))
    net = PetriNet("x")
    for p in P:
        net.places.add(p)
    a = {p: r.randint(1, 3) for p in r.sample(P, r.randint(1, 4))}
    p = r.choice(P)
    ctx.eq(dict(pm4py.generate_marking(net, p)), {p: 1}, "generate:place")
    ctx.eq(dict(pm4py.generate_marking(net, p.name)), {p: 1}, "generate:name")
    ctx.eq(dict(pm4py.generate_marking(net, a)), a, "generate:places")
    ctx.eq(dict(pm4py.generate_marking(net, {q.name: n for q, n in a.items()})), a, "generate:names")
    ctx.eq(dict(pu.place_set_as_marking(list(a))), {q: 1 for q in a}, "place_set")


def fam_matrices(ctx):
    from pm4py.objects.petri_net.utils import incidence_matrix, consumption_matrix
    r = ctx.rng
    net, inv, m0, kind = build(r, "plain")
    N = ref.Net(net)
    I = ctx.call("incidence_matrix.construct", incidence_matrix.construct, net)
    C = ctx.call("consumption_matrix.construct", consumption_matrix.construct, net)
    ctx.eq(sorted(p.name for p in I.places), sorted(inv), "incidence:places")
    ctx.eq(sorted(I.places.values()), list(range(len(inv))), "incidence:place-index")
    ctx.eq(sorted(I.transitions.values()), list(range(len(N.trans))), "incidence:trans-index")
    for t, o in zip(N.trans, N.obj):
        for p, po in enumerate(N.places):
            ctx.ev("cells")
            ctx.eq(int(I.a_matrix[I.places[po]][I.transitions[o]]), t[3].get(p, 0) - t[2].get(p, 0), "incidence:cell")
            ctx.eq(int(C.c_matrix[C.places[po]][C.transitions[o]]), -t[2].get(p, 0), "consumption:cell")
    mv = I.encode_marking(mk(inv, m0))
    ctx.eq([int(x) for x in mv], [m0.get(p.name, 0) for p in sorted(I.places, key=I.places.get)], "incidence:encode")
    # state equation along a walk
    m = N.mk(mk(inv, m0))
    vec = [int(x) for x in mv]
    for _ in range(8):
        nx = list(N.succ(m))
        if not nx:
            break
        t, m = r.choice(nx)
        o = N.obj[N.trans.index(t)]
        vec = [v + int(I.a_matrix[i][I.transitions[o]]) for i, v in enumerate(vec)]
        ctx.eq(vec, [dict(own(N, m)).get(p.name, 0) for p in sorted(I.places, key=I.places.get)], "incidence:state-equation")
        ctx.ev("firings")
        ctx.nontrivial(str(shape(net)[2]))


def fam_copy(ctx):
    from pm4py.objects.petri_net.utils import petri_utils as pu
    r = ctx.rng
    net, inv, m0, kind = build(r)
    s0 = shape(net)
    im = mk(inv, m0)
    n2, m2 = copy.deepcopy([net, im])
    ctx.eq(shape(n2), s0, "deepcopy:structure")
    ctx.eq(type(n2), type(net), "deepcopy:type")
    ctx.check(not (set(map(id, n2.places)) & set(map(id, net.places))) and not (set(map(id, n2.transitions)) & set(map(id, net.transitions))), "deepcopy:shared", "copy shares nodes")
    ctx.eq(plain(m2), m0, "deepcopy:marking")
    ctx.check(all(any(p is q for q in n2.places) for p in m2), "deepcopy:marking-places", "the copied marking does not refer to the places of the copied net")
    # the copy plays the same token game
    N1, N2 = ref.Net(net), ref.Net(n2)
    m = N1.mk(im)
    ctx.eq(N2.mk(m2), m, "deepcopy:mk")
    for _ in range(6):
        nx = list(N1.succ(m))
        ctx.eq(sorted((t[0], n) for t, n in N2.succ(m)), sorted((t[0], n) for t, n in nx), "deepcopy:steps")
        if not nx:
            break
        m = r.choice(nx)[1]
    # editing the copy: no dangling arcs, the original is untouched
    for _ in range(r.randint(1, 4)):
        k = r.choice(["t", "p", "a"])
        before = shape(n2)
        if k == "t" and n2.transitions:
            x = r.choice(sorted(n2.transitions, key=lambda z: z.name))
            pu.remove_transition(n2, x)
            gone = lambda a: x.name in a[:2]
            e = [before[0], [t for t in before[1] if t[0] != x.name]]
        elif k == "p" and n2.places:
            x = r.choice(sorted(n2.places, key=lambda z: z.name))
            pu.remove_place(n2, x)
            gone = lambda a: x.name in a[:2]
            e = [[p for p in before[0] if p != x.name], before[1]]
        elif n2.arcs:
            x = r.choice(sorted(n2.arcs, key=lambda z: (z.source.name, z.target.name, z.weight, type(z).__name__)))
            pu.remove_arc(n2, x)
            full = (x.source.name, x.target.name, x.weight, type(x).__name__)
            e = [before[0], before[1]]
            lst = list(before[2])
            lst.remove(full)
            got = shape(n2)
            ctx.eq((got[0], got[1], got[2]), (e[0], e[1], lst), "edit:arc")
            gone = None
        else:
            continue
        got = shape(n2)
        if gone:
            ctx.eq((got[0], got[1], got[2]), (e[0], e[1], [a for a in before[2] if not gone(a)]), f"edit:{k}")
        pn = {p for p in got[0]}
        ctx.eq(sorted((s, t, w, c) for t, s, w, c in got[3]), sorted(a for a in got[2] if a[0] in pn), "edit:in_arcs")
        ctx.eq(sorted(got[4]), sorted(a for a in got[2] if a[0] not in pn), "edit:out_arcs")
        ctx.eq(sorted(got[5]), sorted((t, s, w) for s, t, w, c in got[2] if t in pn), "edit:place-in")
        ctx.eq(sorted(got[6]), sorted((s, t, w) for s, t, w, c in got[2] if s in pn), "edit:place-out")
        ctx.ev("edits")
    ctx.eq(shape(net), s0, "deepcopy:original-touched")
    ctx.nontrivial(str(s0[2]))


def fam_data(ctx):
    """data Petri nets (guards, data propagation) and stochastic nets (probabilities)"""
    from pm4py.objects.petri_net.obj import PetriNet
    from pm4py.objects.petri_net.utils import petri_utils as pu
    from pm4py.objects.petri_net.data_petri_nets import semantics as ds
    from pm4py.objects.petri_net.data_petri_nets.data_marking import DataMarking
    from pm4py.objects.petri_net import properties as pp
    from pm4py.objects.petri_net.stochastic.obj import StochasticPetriNet
    from pm4py.objects.petri_net.stochastic.semantics import StochasticPetriNetSemantics as SS
    r = ctx.rng
    net, inv, m0, _k = build(r, "plain")
    N = ref.Net(net)
    G = {}
    for t in N.obj:
        if r.random() < 0.7:
            v, c, op = r.choice("xy"), r.randint(0, 5), r.choice(["<", ">=", "=="])
            g = [(v, op, c)]
            txt = f"{v} {op} {c}"
            if r.random() < 0.4:
                v2, c2, op2, con = r.choice("xy"), r.randint(0, 5), r.choice(["<", ">="]), r.choice(["&&", "||"])
                g += [(con,), (v2, op2, c2)]
                txt = f"{txt} {con} {v2} {op2} {c2}"
            t.properties[pp.TRANS_GUARD] = txt
            t.properties[pp.READ_VARIABLE] = sorted({x[0] for x in g if len(x) == 3})
            G[t.name] = g

    def holds(g, d):
        def at(x):
            if d.get(x[0]) is None:
                if x[1] == "==":
                    return False
                raise KeyError
            a = d[x[0]]
            return a < x[2] if x[1] == "<" else a >= x[2] if x[1] == ">=" else a == x[2]
        try:
            if len(g) == 1:
                return at(g[0])
            return (at(g[0]) and at(g[2])) if g[1][0] == "&&" else (at(g[0]) or at(g[2]))
        except KeyError:
            return False
    m = N.mk(mk(inv, m0))
    data = {v: r.randint(0, 5) for v in "xy" if r.random() < 0.8}
    dm = DataMarking(mk(inv, m0))
    dm.data_dict.update(data)
    sem = ds.DataPetriNetSemantics()
    fired = 0
    for _ in range(10):
        ev = {v: r.randint(0, 5) for v in "xy" if r.random() < 0.4}
        now = {**data, **ev}
        exp = {t[0] for t in N.trans if N.enabled(m, t) and (t[0] not in G or holds(G[t[0]], now))}
        got = {t.name for t in ctx.call("data.enabled", sem.enabled_transitions, net, dm, e=ev)}
        ctx.eq(got, exp, "data:enabled")
        ctx.eq(dm.data_dict, data, "data:input-data")
        for t, o in zip(N.trans, N.obj):
            ctx.eq(bool(sem.is_enabled(o, net, dm, e=ev)), t[0] in exp, "data:is_enabled")
            if t[0] not in exp:
                ctx.check(sem.execute(o, net, dm, e=ev) is None, "data:refuse", "disabled transition fired in data net")
        if not exp:
            if not any(N.enabled(m, t) for t in N.trans):
                break
            continue
        n = r.choice(sorted(exp))
        i = [t[0] for t in N.trans].index(n)
        old = (plain(dm), dict(dm.data_dict))
        nm = ctx.call("data.execute", sem.execute, N.obj[i], net, dm, e=ev)
        ctx.eq((plain(dm), dm.data_dict), old, "data:input")
        m = N.fire(m, N.trans[i])
        data = now
        ctx.eq(plain(nm), own(N, m), "data:fire")
        ctx.eq(nm.data_dict, data, "data:data")
        dm = nm
        fired += 1
        ctx.ev("firings")
        if any(c > 60 for _, c in m):
            break
    # stochastic net
    sn = StochasticPetriNet("s")
    pl = {p.name: pu.add_place(sn, p.name) for p in N.places}
    W = {}
    for t in N.trans:
        w = r.choice([0.5, 1.0, 2.0, 5.0])
        o = StochasticPetriNet.Transition(t[0], t[1], weight=w)
        sn.transitions.add(o)
        W[t[0]] = w
        for p, c in t[2].items():
            pu.add_arc_from_to(pl[N.places[p].name], o, sn, c)
        for p, c in t[3].items():
            pu.add_arc_from_to(o, pl[N.places[p].name], sn, c)
    S = ref.Net(sn)
    m = S.mk(mk(pl, m0))
    for _ in range(8):
        mark = mk(pl, own(S, m))
        en = {t[0]: n for t, n in S.succ(m)}
        tot = sum(W[x] for x in en)
        for t, o in zip(S.trans, S.obj):
            p = ctx.call("probability", SS.probability_of_transition, sn, o, mark)
            ctx.check(abs(p - (W[t[0]] / tot if t[0] in en else 0.0)) < 1e-9, "stochastic:probability", f"{p}")
            ctx.ev("probabilities")
        if not en:
            break
        st = random.getstate()
        o = SS.sample_enabled_transition(sn, mark, seed=r.randrange(1000))
        random.setstate(st)
        ctx.check(o.name in en, "stochastic:sample", "sampled a disabled transition")
        nm = SS.fire(sn, o, mark)
        m = en[o.name]
        ctx.eq(plain(nm), own(S, m), "stochastic:fire")
        if any(c > 60 for _, c in m):
            break
    if fired and G:
        ctx.nontrivial(str(shape(net)[2]), str(G))


FAMILIES = {"walk": (120, 3000, fam_walk), "reach": (100, 2500, fam_reach), "marking": (20, 300, fam_marking),
            "matrices": (60, 1500, fam_matrices), "copy": (80, 2000, fam_copy), "data": (80, 2000, fam_data)}
