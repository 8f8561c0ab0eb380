"""C13: conversions between model types preserve the language (exact comparison of determinised state spaces)"""
import re
import pm4py
from pm4py.objects.bpmn.obj import BPMN
from pm4py.objects.petri_net.obj import Marking
from pm4py.objects.process_tree.obj import Operator
from rv import gen, ref
from rv.ref import RawNet, lang_diff, model_net, Net, BpmnNet

RULE = ("the language (visible-label sequences from start to completion) of every converted model equals the language of its source, decided exactly by a "
        "synchronous walk over the determinised state spaces of both (own token game, own BPMN flow semantics, own construction for trees / partial orders / DFGs); "
        "nets obtained from trees, POWL models and structured BPMN diagrams are sound workflow nets")
ASSUMPTIONS = ["conversions that refuse a model (exception) are not judged, except for nets and diagrams that pm4py itself produced from a tree, which must be convertible to BPMN / Petri nets",
               "a BPMN task has one outgoing flow; data objects, message flows and boundary events are not generated",
               "POWL models with frequent transitions are not judged (the frequency is part of the label by design)",
               "workflow nets are ordinary (arc weights 1) and their markings are the source / the sink"]
MINIMUM = {"oracle_checks": 400, "languages compared": 300}


def same(ctx, key, got, exp, cap=800, **detail):
    try:
        d = lang_diff(got, exp, cap, 500)
    except ref.TooBig:
        ctx.ev("comparisons beyond the reference bound")
        if isinstance(got, Net) and got.unbounded(1500) and exp.unbounded(1500) is False:
            ctx.fail(f"{key}:unbounded", f"{key}: the result is unbounded, the source is not", **detail)
        return
    ctx.ev("languages compared")
    ctx.check(d is None, key, lambda: f"{key}: trace {list(d[0])} accepted by the result: {d[1]}, by the source: {d[2]}", **detail)


def wf(ctx, key, net, im, fm, **detail):
    N = Net(net, im, fm)
    if not ctx.check(N.is_wf(), f"{key}:not-workflow-net", "the converted net is not a workflow net", **detail):
        return
    s = N.sound(1500, decide_unbounded=True)
    if s is None:
        return ctx.ev("soundness undecided")
    ctx.ev("soundness decided")
    ctx.check(s, f"{key}:not-sound", "the converted net is not sound", **detail)


def attempt(ctx, fn, *a, **kw):
    try:
        return fn(*a, **kw)
    except Exception as e:
        if type(e).__name__ == "CaseTimeout":
            raise
        ctx.ev("conversions refused")
        return None


def flat_ast(t):
    return t[0] in ("a", "tau") or all(flat_ast(c) for c in t[1])


# ------------------------------------------------------------------ trees
def fam_trees(ctx):
    r = ctx.rng
    ops = r.choice([("->", "X", "+", "*"), ("->", "X", "*"), ("->", "X", "+"), ("X", "*"), ("+", "->"), ("->", "X", "+", "*", "O"), ("->", "X", "+", "<>")])
    labs = gen.labels(r, r.randint(1, 7))
    t = gen.rand_tree(r, labs, ops=ops, depth=r.choice([1, 2, 3, 4]), dup=r.choice([0, 0, .4]), tau=r.choice([0, .12, .4]), maxleaf=r.choice([3, 5, 7]))
    if r.random() < .15:
        t = r.choice([("*", [t, ("tau",)]), ("*", [("tau",), t]), ("->", [t, ("tau",)]), ("X", [t, ("tau",)]), ("+", [t, ("tau",)])])
    has = gen.tree_ops(t)
    ctx.nontrivial(gen.tree_str(t))
    ctx.sample(gen.tree_str(t))
    src = model_net(t)
    s = gen.tree_str(t)
    tree = gen.to_pt(t)
    net, im, fm = ctx.call("tree to net", pm4py.convert_to_petri_net, tree)
    same(ctx, "tree-to-net", Net(net, im, fm), src, tree=s)
    wf(ctx, "tree-to-net", net, im, fm, tree=s)
    if not has & {"O", "<>"}:
        from pm4py.objects.conversion.process_tree import converter as ptc
        n2 = ctx.call("tree to transition bordered net", ptc.apply, tree, variant=ptc.Variants.TO_PETRI_NET_TRANSITION_BORDERED)
        same(ctx, "tree-to-bordered-net", Net(*n2), src, tree=s)
        wf(ctx, "tree-to-bordered-net", *n2, tree=s)
        p = ctx.call("tree to POWL", ptc.apply, tree, variant=ptc.Variants.TO_POWL)
        same(ctx, "tree-to-powl", model_net(powl_ast(p)), src, tree=s)
        n3 = ctx.call("POWL to net", pm4py.convert_to_petri_net, p)
        same(ctx, "powl-to-net", Net(*n3), src, tree=s)
        wf(ctx, "powl-to-net", *n3, tree=s)
        b = ctx.call("tree to BPMN", pm4py.convert_to_bpmn, tree)
        same(ctx, "tree-to-bpmn", BpmnNet(b), src, tree=s)
        n4 = ctx.call("BPMN to net", pm4py.convert_to_petri_net, b)
        same(ctx, "bpmn-to-net", Net(*n4), src, tree=s)
        wf(ctx, "bpmn-to-net", *n4, tree=s)
        b2 = ctx.call("net to BPMN", pm4py.convert_to_bpmn, net, im, fm)
        same(ctx, "net-to-bpmn", BpmnNet(b2), src, tree=s)
        back(ctx, (net, im, fm), src, s)
        t2 = attempt(ctx, pm4py.convert_to_process_tree, b)
        if t2 is not None:
            ctx.ev("trees recovered")
            same(ctx, "bpmn-to-tree", model_net(gen.from_pt(t2)), src, tree=s, found=str(t2))
        rg = ctx.call("tree to reachability graph", pm4py.convert_to_reachability_graph, tree)
        ctx.check(len(rg.states) > 1 and bool(rg.transitions), "tree-to-reachability-graph", "")


def back(ctx, tup, src, s):
    from pm4py.objects.conversion.wf_net import converter as wfc
    for fold in (True, False):
        t2 = attempt(ctx, wfc.apply, *tup, variant=wfc.Variants.TO_PROCESS_TREE, parameters={"fold": fold})
        if t2 is not None:
            ctx.ev("trees recovered")
            same(ctx, "net-to-tree", model_net(gen.from_pt(t2)), src, tree=s, found=str(t2), fold=fold)


# ------------------------------------------------------------------ workflow nets
def fam_nets(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6))
    if r.random() < .5:
        net, im, fm, _ = gen.rand_wfnet(r, labs=labs, depth=r.choice([1, 2, 2, 3]), dup=r.choice([0, .3]), extra=r.choice([0, .4, .6]), maxleaf=5, tau=r.choice([0, .12]))
    else:
        net, im, fm = lean(r, labs)
    N = Net(net, im, fm)
    if not N.is_wf():
        return ctx.ev("not a workflow net")
    try:
        states, edges = N.reach(400)
    except ref.TooBig:
        return
    desc = [(t[1], {N.places[p].name: w for p, w in t[2].items()}, {N.places[p].name: w for p, w in t[3].items()}) for t in N.trans]
    ctx.nontrivial(repr(desc))
    ctx.sample({"net": repr(desc)})
    b = ctx.call("net to BPMN", pm4py.convert_to_bpmn, net, im, fm)
    same(ctx, "net-to-bpmn", BpmnNet(b), N, net=desc)
    n2 = ctx.call("BPMN to net", pm4py.convert_to_petri_net, b)
    same(ctx, "bpmn-to-net", Net(*n2), BpmnNet(b), net=desc)
    back(ctx, (net, im, fm), N, desc)
    # reachability graph
    rg = ctx.call("net to reachability graph", pm4py.convert_to_reachability_graph, net, im, fm)
    ctx.eq(len(rg.states), len(states), "reachability-graph:states")
    got = sorted((t.name, sum(1 for _ in [0])) for t in rg.transitions)
    exp = sorted((repr(N.obj[i]), 1) for m, i, n in edges)
    ctx.eq(got, exp, "reachability-graph:transitions")
    lab = {}
    for o in N.obj:
        lab.setdefault(repr(o), o.label)
    if len(lab) == len(N.obj):
        # the initial state is identified through its name
        from pm4py.objects.petri_net.utils import reachability_graph as rgu
        byname = {}
        for st in rg.states:
            byname.setdefault(st.name, []).append(st)
        si, sf = byname.get(rgu.staterep(repr(im)), []), byname.get(rgu.staterep(repr(fm)), [])
        ctx.check(bool(si), "reachability-graph:initial", "no state for the initial marking")
        if len(si) == 1 and len(sf) <= 1:
            ids = {id(st): i for i, st in enumerate(rg.states)}
            R = RawNet([(f"t{k}", lab[t.name], {ids[id(t.from_state)]: 1}, {ids[id(t.to_state)]: 1}) for k, t in enumerate(rg.transitions)], {ids[id(si[0])]: 1}, {(ids[id(sf[0])] if sf else -1): 1})
            same(ctx, "reachability-graph:language", R, N, net=desc)
            arcs_in = sum(len(st.incoming) for st in rg.states)
            ctx.eq((arcs_in, sum(len(st.outgoing) for st in rg.states)), (len(rg.transitions),) * 2, "reachability-graph:arcs")
    for ty in ("inhibitor", "reset", "reset_inhibitor"):
        n3 = ctx.call("net type conversion", pm4py.convert_petri_net_type, net, im, fm, type=ty)
        same(ctx, f"net-type:{ty}", Net(*n3), N, net=desc)


def lean(r, labs):
    """workflow nets without the silent scaffolding: labelled splits/joins, shared places, extra synchronisation"""
    places, trans = ["source", "sink"], []
    c = [0]

    def np():
        c[0] += 1
        places.append(f"p{c[0]}")
        return f"p{c[0]}"

    def nt(i, o, l=0):
        trans.append((f"t{len(trans)}", (r.choice(labs) if r.random() < .75 else None) if l == 0 else l, {p: 1 for p in i}, {p: 1 for p in o}))

    def rec(a, b, d):
        k = r.random()
        if d == 0 or k < .2:
            nt([a], [b])
        elif k < .4:
            m = np()
            rec(a, m, d - 1)
            rec(m, b, d - 1)
        elif k < .55:
            for _ in range(r.choice([2, 2, 3])):
                rec(a, b, d - 1)
        elif k < .8:
            n = r.choice([2, 2, 3])
            xs, ys = [np() for _ in range(n)], [np() for _ in range(n)]
            nt([a], xs)
            nt(ys, [b])
            for x, y in zip(xs, ys):
                rec(x, y, d - 1)
            if r.random() < .3:
                # one more synchronisation: the first branch waits for / releases the last
                x1, y1 = np(), np()
                nt([xs[0], xs[-1]], [x1])
                nt([x1], [ys[0], ys[-1]])
        else:
            x, y = np(), np()
            nt([a], [x])
            nt([y], [b])
            rec(x, y, d - 1)
            rec(y, x, d - 1) if r.random() < .8 else nt([y], [x])
            if r.random() < .3:
                rec(x, x2 := np(), 0)
                nt([x2], [y])
    rec("source", "sink", r.choice([1, 2, 2, 3]))
    net, po = gen.build_net(places, trans)
    return net, Marking({po["source"]: 1}), Marking({po["sink"]: 1})


# ------------------------------------------------------------------ BPMN
def build_bpmn(r, t, contract=True, multi_end=False):
    b = BPMN()
    flows = []
    st, en = BPMN.StartEvent(name="start", isInterrupting=True), BPMN.NormalEndEvent(name="end")
    nodes = [st, en]

    def link(a, c):
        if r.random() < .08:
            m = r.choice([BPMN.ExclusiveGateway, BPMN.ParallelGateway])()
            nodes.append(m)
            flows.append([a, m])
            a = m
        elif r.random() < .04:
            m = BPMN.IntermediateThrowEvent(name="ev")
            nodes.append(m)
            flows.append([a, m])
            a = m
        flows.append([a, c])

    def rec(t):
        """(entry node, exit node)"""
        op = t[0]
        if op == "a":
            n = r.choice([BPMN.Task, BPMN.Task, BPMN.UserTask])(name=t[1])
            nodes.append(n)
            return n, n
        if op == "tau":
            n = r.choice([BPMN.ExclusiveGateway, BPMN.ParallelGateway])()
            nodes.append(n)
            return n, n
        if op == "->":
            ps = [rec(c) for c in t[1]]
            for x, y in zip(ps, ps[1:]):
                link(x[1], y[0])
            return ps[0][0], ps[-1][1]
        G = {"X": r.choice([BPMN.ExclusiveGateway] * 4 + [BPMN.EventBasedGateway]), "+": BPMN.ParallelGateway, "*": BPMN.ExclusiveGateway, "O": BPMN.InclusiveGateway}[op]
        s, j = G(), G()
        nodes.extend([s, j])
        if op == "*":
            e, x = rec(t[1][0])
            link(s, e)
            link(x, j)
            for c in t[1][1:]:
                e, x = rec(c)
                link(j, e)
                link(x, s)
        else:
            for c in t[1]:
                e, x = rec(c)
                link(s, e)
                link(x, j)
        return s, j
    e, x = rec(t)
    link(st, e)
    link(x, en)
    if contract:
        # an exclusive join in front of a task, an event or an exclusive gateway may be left out; two adjacent parallel gateways may be one
        for n in list(nodes):
            inn, out = [f for f in flows if f[1] is n], [f for f in flows if f[0] is n]
            if len(out) == 1 and out[0][1] is not n and r.random() < .5:
                tgt = out[0][1]
                if isinstance(n, BPMN.ExclusiveGateway) and isinstance(tgt, (BPMN.Task, BPMN.ExclusiveGateway, BPMN.EndEvent)):
                    for f in inn:
                        f[1] = tgt
                    flows.remove(out[0])
                    nodes.remove(n)
                elif isinstance(n, BPMN.ParallelGateway) and isinstance(tgt, BPMN.ParallelGateway) and len([f for f in flows if f[1] is tgt]) == 1:
                    for f in inn:
                        f[1] = tgt
                    flows.remove(out[0])
                    nodes.remove(n)
    if multi_end:
        fs = [f for f in flows if f[1] is en]
        for f in fs[1:]:
            e2 = BPMN.NormalEndEvent(name="end")
            nodes.append(e2)
            f[1] = e2
    for n in nodes:
        b.add_node(n)
    for a, c in flows:
        b.add_flow(BPMN.SequenceFlow(a, c))
    return b


def fam_bpmn(ctx):
    from pm4py.objects.conversion.bpmn import converter as bc
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6))
    t = gen.rand_tree(r, labs, depth=r.choice([1, 2, 3]), dup=r.choice([0, .3]), tau=r.choice([0, .12]), maxleaf=6)
    b = build_bpmn(r, t, multi_end=r.random() < .3)
    src = BpmnNet(b)
    same(ctx, "harness:diagram", src, model_net(t), tree=gen.tree_str(t))     # the generated diagram is what it should be
    ctx.nontrivial(gen.tree_str(t), len(b.get_nodes()), len(b.get_flows()))
    ctx.sample({"tree": gen.tree_str(t), "flows": len(b.get_flows())})
    for red in (True, False):
        net, im, fm = ctx.call("BPMN to net", bc.apply, b, parameters={"enable_reduction": red})
        same(ctx, "bpmn-to-net", Net(net, im, fm), src, tree=gen.tree_str(t), reduction=red)
        wf(ctx, "bpmn-to-net", net, im, fm, tree=gen.tree_str(t))
    net, im, fm, fp, tm = ctx.call("BPMN to net with map", bc.apply, b, parameters={"return_flow_trans_map": True})
    same(ctx, "bpmn-to-net", Net(net, im, fm), src, tree=gen.tree_str(t))
    ctx.check(all(f in fp for f in b.get_flows()) and all(n in tm for n in b.get_nodes()), "bpmn-to-net:map", "flows or nodes missing in the returned maps")
    net, im, fm = ctx.call("BPMN to net by id", bc.apply, b, parameters={"use_id": True})
    ids = {str(n.get_id()): n for n in b.get_nodes()}
    for x in net.transitions:
        if x.label in ids:
            n = ids[x.label]
            x.label = n.get_name() if isinstance(n, BPMN.Task) else None
    same(ctx, "bpmn-to-net:by-id", Net(net, im, fm), src, tree=gen.tree_str(t))
    t2 = attempt(ctx, pm4py.convert_to_process_tree, b)
    if t2 is not None:
        ctx.ev("trees recovered")
        same(ctx, "bpmn-to-tree", model_net(gen.from_pt(t2)), src, tree=gen.tree_str(t), found=str(t2))


# ------------------------------------------------------------------ inclusive gateways
def fam_inclusive(ctx):
    """one inclusive block per diagram; the listed finding is that the net may skip every branch: any other difference is reported apart"""
    r = ctx.rng
    labs = gen.labels(r, 6, hostile=False)
    part = lambda l, d: gen.rand_tree(r, l, depth=d, maxleaf=2, tau=0)
    blk = ("O", [part([labs[i]], 0) for i in range(r.choice([2, 2, 3]))])
    if r.random() < .3:
        blk[1][0] = ("->", [("a", labs[0]), ("a", labs[3])])
    shape = r.choice(["plain", "seq", "choice", "parallel", "loop"])
    wrap = {"plain": lambda b: b, "seq": lambda b: ("->", [("a", labs[4]), b, ("a", labs[5])]), "choice": lambda b: ("X", [b, ("a", labs[4])]),
            "parallel": lambda b: ("+", [b, ("a", labs[4])]), "loop": lambda b: ("*", [b, ("a", labs[4])])}[shape]
    t = wrap(blk)
    s = gen.tree_str(t)
    b = ctx.call("tree to BPMN", pm4py.convert_to_bpmn, gen.to_pt(t))
    net, im, fm = ctx.call("BPMN to net", pm4py.convert_to_petri_net, b)
    ctx.nontrivial(s)
    ctx.sample(s)
    N = Net(net, im, fm)
    try:
        d = lang_diff(N, model_net(t), 1500, 600)
        if d is not None:
            d2 = lang_diff(N, model_net(wrap(("X", [blk, ("tau",)]))), 1500, 600)
            if d2 is None:
                ctx.ev("inclusive blocks that may be skipped altogether")
                ctx.fail("inclusive-block:all-branches-skipped", f"{s}: the net of the diagram accepts {list(d[0])}, skipping every branch of the inclusive block", tree=s)
            else:
                ctx.fail("inclusive-block:language", f"{s}: trace {list(d2[0])} accepted by the net: {d2[1]}", tree=s)
        ctx.ev("languages compared")
    except ref.TooBig:
        pass
    wf(ctx, "inclusive-block", net, im, fm, tree=s)


# ------------------------------------------------------------------ POWL
def powl_ast(p):
    from pm4py.objects.powl.obj import StrictPartialOrder, OperatorPOWL, Transition, SilentTransition
    if isinstance(p, SilentTransition):
        return ("tau",)
    if isinstance(p, Transition):
        return ("tau",) if p.label is None else ("a", p.label)
    if isinstance(p, StrictPartialOrder):
        ch = list(p.children)
        return ("PO", [powl_ast(c) for c in ch], {(i, j) for i in range(len(ch)) for j in range(len(ch)) if p.order.is_edge(ch[i], ch[j])})
    return ({Operator.XOR: "X", Operator.LOOP: "*"}[p.operator], [powl_ast(c) for c in p.children])


def rand_powl(r, labs, d=2, closed=True):
    from pm4py.objects.powl.obj import StrictPartialOrder, OperatorPOWL, Transition, SilentTransition, Sequence
    if d == 0 or r.random() < .2:
        return SilentTransition() if r.random() < .15 else Transition(r.choice(labs))
    k = r.random()
    if k < .25:
        return OperatorPOWL(Operator.XOR, [rand_powl(r, labs, d - 1) for _ in range(r.choice([2, 2, 3]))])
    if k < .45:
        return OperatorPOWL(Operator.LOOP, [rand_powl(r, labs, d - 1) for _ in range(2)])
    ch = [rand_powl(r, labs, d - 1) for _ in range(r.choice([2, 3, 3, 4] if d < 2 else [2, 3]))]
    if k < .55:
        return Sequence(ch)
    p = StrictPartialOrder(ch)
    n = len(ch)
    e = {(i, j) for i in range(n) for j in range(i + 1, n) if r.random() < .45}
    while closed:
        f = {(i, k) for i, j in e for j2, k in e if j == j2} - e
        if not f:
            break
        e |= f
    for i, j in e:
        p.order.add_edge(ch[i], ch[j])
    return p


def fam_powl(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6))
    p = rand_powl(r, labs, r.choice([1, 2, 2]))
    a = powl_ast(p)
    ctx.nontrivial(repr(a))
    ctx.sample(repr(a))
    src = model_net(a)
    net, im, fm = ctx.call("POWL to net", pm4py.convert_to_petri_net, p)
    same(ctx, "powl-to-net", Net(net, im, fm), src, powl=repr(a))
    wf(ctx, "powl-to-net", net, im, fm, powl=repr(a))
    ctx.eq(repr(powl_ast(p)), repr(a), "powl-to-net:source-modified")
    from pm4py.objects.powl.parser import parse_powl_model_string
    b = attempt(ctx, pm4py.convert_to_bpmn, *(net, im, fm))
    if b is not None:
        same(ctx, "powl-to-bpmn", BpmnNet(b), src, powl=repr(a))
    t = attempt(ctx, pm4py.convert_to_process_tree, net, im, fm)
    if t is not None:
        ctx.ev("trees recovered")
        same(ctx, "powl-net-to-tree", model_net(gen.from_pt(t)), src, powl=repr(a), found=str(t))


# ------------------------------------------------------------------ DFG
def fam_dfg(ctx):
    from pm4py.objects.conversion.dfg import converter as dc
    r = ctx.rng
    labs = gen.labels(r, r.randint(1, 6))
    if r.random() < .3:
        tr = gen.rand_traces(r, labs=labs, n=r.randint(1, 5), maxlen=5)
        tr = [x for x in tr if x] or [[labs[0]]]
        D = {}
        for x in tr:
            for p in zip(x, x[1:]):
                D[p] = D.get(p, 0) + 1
        S, E = {x[0]: 1 for x in tr}, {x[-1]: 1 for x in tr}
    else:
        D = {(a, b): r.randint(1, 9) for a in labs for b in labs if r.random() < .3}
        S = {a: r.randint(1, 5) for a in labs if r.random() < .4} or {labs[0]: 1}
        E = {a: r.randint(1, 5) for a in labs if r.random() < .4} or {labs[-1]: 1}
    ctx.nontrivial(repr(sorted(D)), repr(sorted(S)), repr(sorted(E)))
    ctx.sample({"dfg": repr(D), "start": repr(S), "end": repr(E)})
    raw = [("s" + a, a, {"#S": 1}, {"@" + a: 1}) for a in S] + [("e" + a, None, {"@" + a: 1}, {"#E": 1}) for a in E] + [(f"d{a}/{b}", b, {"@" + a: 1}, {"@" + b: 1}) for a, b in D]
    src = RawNet(raw, {"#S": 1}, {"#E": 1})
    for name, fn in (("default", lambda: pm4py.convert_to_petri_net(dict(D), dict(S), dict(E))),
                     ("activity-defines-place", lambda: dc.apply(dict(D), variant=dc.Variants.VERSION_TO_PETRI_NET_ACTIVITY_DEFINES_PLACE, parameters={"start_activities": dict(S), "end_activities": dict(E)})),
                     ("invisibles", lambda: dc.apply(dict(D), variant=dc.Variants.VERSION_TO_PETRI_NET_INVISIBLES_NO_DUPLICATES, parameters={"start_activities": dict(S), "end_activities": dict(E)}))):
        n = ctx.call(f"DFG to net {name}", fn)
        same(ctx, f"dfg-to-net:{name}", Net(*n), src, dfg=D, start=S, end=E)


FAMILIES = {"trees": (160, 4000, fam_trees), "nets": (160, 4000, fam_nets), "bpmn": (120, 3000, fam_bpmn), "inclusive": (24, 300, fam_inclusive), "powl": (120, 3000, fam_powl), "dfg": (80, 1500, fam_dfg)}
