"""C14: simplifications (net reductions, tree folding / normalisation, BPMN gateway reduction, POWL simplification) preserve behaviour"""
import copy
import pm4py
from pm4py.objects.petri_net.obj import Marking
from rv import gen, ref
from rv.ref import RawNet, lang_diff, model_net, Net, BpmnNet
from rv.checks.c13 import lean, build_bpmn, rand_powl, powl_ast, same

RULE = ("after every simplification the language is the one before (exact comparison of determinised state spaces; for arbitrary nets the set of firing sequences), "
        "the result is well formed and has no more nodes than the original; the relation 'structurally language-equal' holds only between trees with equal languages")
ASSUMPTIONS = ["the removal of silent transitions is judged on workflow nets (the API receives no marking)",
               "the removal of implicit places is judged on the accepted language of sound workflow nets and on the firing sequences of arbitrary bounded nets",
               "loops of trees have at least a body and a redo part"]
MINIMUM = {"oracle_checks": 400, "languages compared": 300}


def wellformed(ctx, key, t, parent=None, **detail):
    """children point back to their parent, inner nodes have an operator"""
    st = [(t, parent)]
    ids = set()
    while st:
        n, p = st.pop()
        ctx.check(n.parent is p, f"{key}:parent", f"a node of {t} does not refer to its parent", **detail)
        ctx.check(id(n) not in ids, f"{key}:shared", f"a node of {t} occurs twice", **detail)
        ids.add(id(n))
        ctx.check((n.operator is None) == (len(n.children) == 0), f"{key}:operator", f"{t}", **detail)
        ctx.check(n.operator is None or n.label is None, f"{key}:label", f"{t}", **detail)
        st.extend((c, n) for c in n.children)


def fam_trees(ctx):
    from pm4py.objects.process_tree.utils import generic as tu, bottomup as bu
    r = ctx.rng
    ops = r.choice([("->", "X", "+", "*"), ("->", "X"), ("X", "+"), ("->", "+"), ("->", "X", "*"), ("->", "X", "+", "*", "O"), ("->", "<>", "X"), ("O", "X")])
    labs = gen.labels(r, r.randint(1, 6))
    dup = r.choice([0, 0, .4, .7])
    t = gen.rand_tree(r, labs, ops=ops, depth=r.choice([1, 2, 3, 4]), dup=dup, tau=r.choice([0, .2, .5]), maxleaf=r.choice([2, 4, 6]))
    if r.random() < .25:
        # several redo parts
        t = ("*", [t] + [gen.rand_tree(r, labs, ops=ops, depth=1, dup=.5, tau=.3, maxleaf=3) for _ in range(r.choice([1, 2, 3]))])
    s = gen.tree_str(t)
    src = model_net(t)
    ctx.nontrivial(s)
    ctx.sample(s)
    f = ctx.call("fold", tu.fold, gen.to_pt(t))
    F = gen.from_pt(f)
    same(ctx, "fold", model_net(F), src, tree=s, found=str(f))
    ctx.check(gen.tree_size(F) <= gen.tree_size(t), "fold:size", f"{s} became {f}")
    wellformed(ctx, "fold", f, tree=s)
    f2 = ctx.call("fold again", tu.fold, f)
    ctx.check(gen.tree_size(gen.from_pt(f2)) <= gen.tree_size(F), "fold:size-again", "")
    same(ctx, "fold:again", model_net(gen.from_pt(f2)), src, tree=s)
    q = ctx.call("reduce_tau_leafs", tu.reduce_tau_leafs, gen.to_pt(t))
    Q = gen.from_pt(q)
    ctx.check(gen.tree_size(Q) <= gen.tree_size(t), "reduce_tau_leafs:size", "")
    # a loop that lost its silent redo part or body is only meaningful once folded: single-child nodes are collapsed
    def collapse(x):
        if x[0] in ("a", "tau"):
            return x
        ch = [collapse(c) for c in x[1]]
        return ch[0] if len(ch) == 1 else (x[0], ch)
    same(ctx, "reduce_tau_leafs", model_net(collapse(Q)), src, tree=s, found=str(q))
    g = gen.to_pt(t)
    ctx.call("tree_sort", tu.tree_sort, g)
    same(ctx, "tree_sort", model_net(gen.from_pt(g)), src, tree=s, found=str(g))
    ctx.eq(gen.tree_size(gen.from_pt(g)), gen.tree_size(t), "tree_sort:size")
    ctx.eq(sorted(gen.tree_labels(gen.from_pt(g))), sorted(gen.tree_labels(t)), "tree_sort:labels")
    wellformed(ctx, "tree_sort", g, tree=s)
    b = ctx.call("to binary", tu.process_tree_to_binary_process_tree, gen.to_pt(t))
    same(ctx, "to-binary", model_net(gen.from_pt(b)), src, tree=s, found=str(b))
    wellformed(ctx, "to-binary", b, tree=s)
    if "<>" not in gen.tree_ops(t):
        def arity(n):
            return max([len(n.children)] + [arity(c) for c in n.children])
        ctx.check(arity(b) <= 2, "to-binary:arity", f"{b}")
    # equality of trees up to reordering
    u = shuffle(r, t) if r.random() < .7 else gen.rand_tree(r, labs[:2], depth=2, dup=.7, tau=.2, maxleaf=3)
    try:
        d = lang_diff(model_net(u), src, 800, 400)
        e = ctx.call("structurally_language_equal", tu.structurally_language_equal, gen.to_pt(t), gen.to_pt(u))
        if e:
            ctx.ev("structurally equal pairs")
            ctx.check(d is None, "structurally-equal:languages-differ", lambda: f"{s} and {gen.tree_str(u)} differ on {d}")
        e2 = tu.structurally_language_equal(gen.to_pt(u), gen.to_pt(t))
        ctx.eq(bool(e), bool(e2), "structurally-equal:asymmetric", tree=s, other=gen.tree_str(u))
        if not gen.tree_ops(t) & {"<>"}:
            ctx.check(tu.structurally_language_equal(gen.to_pt(t), gen.to_pt(t)), "structurally-equal:reflexive", s)
            if gen.tree_str(u) == s:
                ctx.check(e, "structurally-equal:identical", s)
    except ref.TooBig:
        pass
    # lengths of the traces
    if "<>" not in gen.tree_ops(t):
        tree = gen.to_pt(t)
        lo, hi = bounds(t)
        ctx.eq(ctx.call("min length", bu.get_min_trace_length, tree), lo, "min-trace-length", tree=s)
        mx = ctx.call("max length", bu.get_max_trace_length, tree)
        if hi is not None:
            if "*" not in gen.tree_ops(t):
                ctx.eq(mx, hi, "max-trace-length", tree=s)
            else:
                ctx.check(mx >= hi, "max-trace-length", f"{mx} for {s}")
        else:
            ctx.check(mx > 10 ** 6, "max-trace-length:loop", f"{mx} for {s}")


def bounds(t):
    op = t[0]
    if op == "a":
        return 1, 1
    if op == "tau":
        return 0, 0
    ch = [bounds(c) for c in t[1]]
    if op in ("->", "+", "<>"):
        return sum(c[0] for c in ch), None if any(c[1] is None for c in ch) else sum(c[1] for c in ch)
    if op == "X":
        return min(c[0] for c in ch), None if any(c[1] is None for c in ch) else max(c[1] for c in ch)
    if op == "O":
        return min(c[0] for c in ch), None if any(c[1] is None for c in ch) else sum(c[1] for c in ch)
    return ch[0][0], (0 if all(c[1] == 0 for c in ch) else None)


def shuffle(r, t):
    if t[0] in ("a", "tau"):
        return t
    ch = [shuffle(r, c) for c in t[1]]
    if t[0] in ("X", "+", "O") or (r.random() < .1):
        r.shuffle(ch)
    if r.random() < .1:
        return (r.choice(["->", "X", "+"]), ch)
    return (t[0], ch)


def fam_reducer(ctx):
    """the tree reduced for a trace accepts the same words over the activities of that trace"""
    from pm4py.algo.reduction.process_tree import reducer
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 7))
    t = gen.rand_tree(r, labs, depth=r.choice([2, 3, 4]), dup=r.choice([0, .4]), tau=r.choice([.1, .4]), maxleaf=8)
    tr = gen.play_tree(r, t) if r.random() < .6 else [r.choice(labs) for _ in range(r.randint(0, 5))]
    if r.random() < .3 and tr:
        tr = list(tr)
        tr[r.randrange(len(tr))] = "another"
    s = gen.tree_str(t)
    ctx.nontrivial(s, tuple(tr))
    ctx.sample({"tree": s, "trace": tr})
    al = gen.rand_alog(r, traces=[list(tr)], empty=True)
    log = al.to_log()
    if not len(log):
        return
    red = ctx.call("tree reducer", reducer.apply, gen.to_pt(t), log[0], variant=reducer.Variants.TREE_TR_BASED)
    R = gen.from_pt(red)
    ctx.check(gen.tree_size(R) <= gen.tree_size(t), "reducer:size", s)
    A = set(tr)
    only = lambda N: RawNet([(x[0], x[1], {("p", k): v for k, v in x[2].items()}, {("p", k): v for k, v in x[3].items()}) for x in N.trans if x[1] is None or x[1] in A],
                            {("p", k): v for k, v in N.im}, {("p", k): v for k, v in N.fm})
    same(ctx, "reducer", only(model_net(R)), only(model_net(t)), tree=s, trace=tr, found=str(red))


def size(net):
    return len(net.places), len(net.transitions)


def spec(N):
    return [(t[1], {N.places[p].name: w for p, w in t[2].items()}, {N.places[p].name: w for p, w in t[3].items()}) for t in N.trans]


def consistent(ctx, key, net, **detail):
    """arcs of the net are the arcs of its nodes, every end belongs to the net"""
    a = {id(x) for x in net.arcs}
    nodes = set(map(id, net.places)) | set(map(id, net.transitions))
    b = {id(x) for n in list(net.places) + list(net.transitions) for x in list(n.in_arcs) + list(n.out_arcs)}
    ctx.check(a == b and all(id(x.source) in nodes and id(x.target) in nodes for x in net.arcs), f"{key}:dangling-arcs", "the arcs of the net and of its nodes differ", **detail)


def fam_nets(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 5))
    if r.random() < .5:
        net, im, fm, _ = gen.rand_wfnet(r, labs=labs, depth=r.choice([1, 2, 3]), dup=r.choice([0, .3]), extra=r.choice([0, .5, .7]), maxleaf=5, tau=r.choice([.1, .5]))
    else:
        net, im, fm = lean(r, labs)
    if r.random() < .5:
        more_places(r, net)
    weights = r.random() < .2
    if weights:
        for a in sorted(net.arcs, key=lambda a: (str(a.source.name), str(a.target.name))):
            if r.random() < .15:
                a.weight = 2
    N = Net(net, im, fm)
    if not N.is_wf():
        return ctx.ev("not a workflow net")
    try:
        N.reach(300)
    except ref.TooBig:
        return
    desc = spec(N)
    ctx.nontrivial(repr(desc))
    ctx.sample(repr(desc))
    old = size(net)
    n1 = copy.deepcopy(net)
    name = lambda n, m: Marking({[p for p in n.places if p.name == q.name][0]: c for q, c in m.items()})
    n1 = ctx.call("reduce invisibles", pm4py.reduce_petri_net_invisibles, n1)
    ctx.check(size(n1)[0] <= old[0] and size(n1)[1] <= old[1], "invisibles:size", "")
    consistent(ctx, "invisibles", n1, model=desc)
    same(ctx, "invisibles" + (":weights" if weights else ""), Net(n1, name(n1, im), name(n1, fm)), N, model=desc)
    ctx.eq(sorted(str(t.label) for t in n1.transitions if t.label is not None), sorted(str(t.label) for t in net.transitions if t.label is not None), "invisibles:visible-transitions")
    if size(n1) != old:
        ctx.ev("nets reduced")
    # implicit places
    n2 = copy.deepcopy(net)
    i2, f2 = name(n2, im), name(n2, fm)
    n2, i2, f2 = ctx.call("reduce implicit places", pm4py.reduce_petri_net_implicit_places, n2, i2, f2)
    ctx.check(size(n2)[0] <= old[0] and size(n2)[1] == old[1], "implicit:size", "")
    consistent(ctx, "implicit", n2, model=desc)
    ctx.check(all(p in n2.places for p in list(i2) + list(f2)), "implicit:marking", "a marking refers to a removed place")
    if size(n2) != old:
        ctx.ev("places removed")
    R2 = Net(n2, i2, f2)
    firing(ctx, "implicit:firing-sequences", R2, N, model=desc)
    if not weights and N.sound(300):
        same(ctx, "implicit:language", R2, N, model=desc)
    # reset/inhibitor reduction of a net without such arcs
    n3 = copy.deepcopy(net)
    from pm4py.objects.petri_net.utils import reduction
    n3, i3, f3 = ctx.call("reset/inhibitor reduction", reduction.apply_reset_inhibitor_net_reduction, n3, name(n3, im), name(n3, fm))
    ctx.check(size(n3)[0] <= old[0] and size(n3)[1] <= old[1], "rules:size", "")
    consistent(ctx, "rules", n3, model=desc)
    ctx.check(all(p in n3.places for p in list(i3) + list(f3)), "rules:marking", "a marking refers to a removed place", model=desc)
    firing(ctx, "rules:firing-sequences" + (":weights" if weights else ""), Net(n3, i3, {p: c for p, c in f3.items() if p in n3.places}), N, model=desc)
    if not weights and N.sound(300):
        same(ctx, "rules", Net(n3, i3, f3), N, model=desc)
    if size(n3) != old:
        ctx.ev("nets reduced by rules")


def firing(ctx, key, A, B, **detail):
    try:
        d = lang_diff(A, B, 800, 500, prefix=True)
    except ref.TooBig:
        return
    ctx.ev("languages compared")
    ctx.check(d is None, key, lambda: f"firing sequence {list(d[0])}: possible in the result: {d[1]}, in the source: {d[2]}", **detail)


def more_places(r, net):
    """copies of places (implicit), self-loop places, silent chains"""
    from pm4py.objects.petri_net.obj import PetriNet
    from pm4py.objects.petri_net.utils import petri_utils as pu
    ps = sorted(net.places, key=lambda p: p.name)
    ts = sorted(net.transitions, key=lambda t: t.name)
    for k in range(r.choice([1, 1, 2])):
        c = r.random()
        inner = [p for p in ps if p.in_arcs and p.out_arcs]
        if c < .6 and inner:
            p = r.choice(inner)
            q = PetriNet.Place(f"copy{k}")
            net.places.add(q)
            for a in list(p.in_arcs):
                pu.add_arc_from_to(a.source, q, net)
            for a in list(p.out_arcs):
                pu.add_arc_from_to(q, a.target, net)
        elif inner:
            p = r.choice(inner)
            t = PetriNet.Transition(f"selfloop{k}", None)
            net.transitions.add(t)
            pu.add_arc_from_to(p, t, net)
            pu.add_arc_from_to(t, p, net)
    # splitting an arc with a silent transition
    for k in range(r.choice([0, 1, 2])):
        a = r.choice(sorted(net.arcs, key=lambda a: (str(a.source.name), str(a.target.name))))
        s, t = a.source, a.target
        if isinstance(s, PetriNet.Transition):
            p, x = PetriNet.Place(f"q{k}"), PetriNet.Transition(f"silent{k}", None)
            net.places.add(p)
            net.transitions.add(x)
            pu.remove_arc(net, a)
            pu.add_arc_from_to(s, p, net)
            pu.add_arc_from_to(p, x, net)
            pu.add_arc_from_to(x, t, net)


def fam_free(ctx):
    """implicit places of arbitrary bounded nets (weights, several tokens): the firing sequences stay"""
    r = ctx.rng
    places, trans = gen.rand_free_net(r, weights=r.random() < .6)
    if r.random() < .6:
        # places that repeat (a multiple of) another one
        p = r.choice(places)
        k = r.choice([1, 1, 2])
        places.append("dup")
        for n, l, i, o in trans:
            if p in i:
                i["dup"] = i[p] * k
            if p in o:
                o["dup"] = o[p] * k
    else:
        p, k = None, 1
    net, po = gen.build_net(places, trans)
    im = Marking({po[q]: r.choice([1, 1, 2]) for q in places if r.random() < .5})
    if p and p in po and po[p] in im:
        im[po["dup"]] = im[po[p]] * k + r.choice([0, 0, 1])
    fm = Marking({po[q]: 1 for q in places if r.random() < .2})
    N = Net(net, im, fm)
    try:
        N.reach(200)
    except ref.TooBig:
        return ctx.ev("unbounded or too large")
    desc = (spec(N), {q.name: c for q, c in im.items()}, [q.name for q in fm])
    ctx.nontrivial(repr(desc))
    ctx.sample(repr(desc))
    old = size(net)
    n2, i2, f2 = ctx.call("reduce implicit places", pm4py.reduce_petri_net_implicit_places, net, Marking(im), Marking(fm))
    ctx.check(size(n2)[1] == old[1], "implicit:size", "")
    consistent(ctx, "implicit", n2, model=desc)
    ctx.check(all(q in n2.places for q in list(i2) + list(f2)), "implicit:marking", "a marking refers to a removed place")
    if size(n2) != old:
        ctx.ev("places removed")
    firing(ctx, "implicit:firing-sequences", Net(n2, i2, f2), N, model=desc)


def fam_bpmn(ctx):
    from pm4py.objects.bpmn.util import reduction
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6))
    t = gen.rand_tree(r, labs, depth=r.choice([1, 2, 3]), dup=r.choice([0, .3]), tau=r.choice([0, .2]), maxleaf=6)
    b = build_bpmn(r, t)
    n0 = len(b.get_nodes())
    s = gen.tree_str(t)
    src = BpmnNet(b)
    ctx.nontrivial(s, n0)
    ctx.sample(s)
    b = ctx.call("BPMN reduction", reduction.apply, b)
    ctx.check(len(b.get_nodes()) <= n0, "bpmn-reduction:size", s)
    if len(b.get_nodes()) < n0:
        ctx.ev("diagrams reduced")
    same(ctx, "bpmn-reduction", BpmnNet(b), src, tree=s)
    ns = set(map(id, b.get_nodes()))
    ctx.check(all(id(f.get_source()) in ns and id(f.get_target()) in ns for f in b.get_flows()), "bpmn-reduction:dangling-flow", s)


def fam_powl(ctx):
    r = ctx.rng
    p = rand_powl(r, gen.labels(r, r.randint(2, 5)), r.choice([1, 2, 2, 3]))
    a = powl_ast(p)
    ctx.nontrivial(repr(a))
    ctx.sample(repr(a))
    src = model_net(a)
    q = ctx.call("POWL simplify", p.simplify)
    same(ctx, "powl-simplify", model_net(powl_ast(q)), src, powl=repr(a), found=repr(q))
    net = ctx.call("POWL to net", pm4py.convert_to_petri_net, q)
    same(ctx, "powl-simplify:net", Net(*net), src, powl=repr(a), found=repr(q))
    ctx.check(gen_size(powl_ast(q)) <= gen_size(a), "powl-simplify:size", lambda: f"{a!r} became {q!r}")
    f = ctx.call("POWL frequent transitions", p.simplify_using_frequent_transitions)
    same(ctx, "powl-frequent", model_net(freq_ast(f)), src, powl=repr(a), found=repr(f))
    c = ctx.call("POWL copy", p.copy)
    ctx.eq(repr(powl_ast(c)), repr(a), "powl-copy")
    ctx.check(p.equal_content(p), "powl-equal", repr(a))


def gen_size(t):
    return 1 if t[0] in ("a", "tau") else 1 + sum(gen_size(c) for c in t[1])


def freq_ast(p):
    from pm4py.objects.powl.obj import FrequentTransition, StrictPartialOrder, OperatorPOWL
    if isinstance(p, FrequentTransition):
        b = ("tau",) if p.activity is None else ("a", p.activity)
        if p.selfloop:
            b = ("*", [b, ("tau",)])
        return ("X", [b, ("tau",)]) if p.skippable else b
    if isinstance(p, StrictPartialOrder):
        ch = list(p.children)
        return ("PO", [freq_ast(c) for c in ch], {(i, j) for i in range(len(ch)) for j in range(len(ch)) if p.order.is_edge(ch[i], ch[j])})
    if isinstance(p, OperatorPOWL):
        return ({"X": "X", "*": "*"}[p.operator.value], [freq_ast(c) for c in p.children])
    return powl_ast(p)


def fam_reset(ctx):
    """the reduction rules on nets with reset and inhibitor arcs"""
    from pm4py.objects.petri_net.obj import ResetInhibitorNet, PetriNet
    from pm4py.objects.petri_net.utils import petri_utils as pu, reduction
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 5), hostile=False)
    net0, im0, fm0 = lean(r, labs) if r.random() < .6 else gen.rand_wfnet(r, labs=labs, extra=.4, tau=.4)[:3]
    if r.random() < .5:
        more_places(r, net0)
    net, m = ResetInhibitorNet("x"), {}
    for p in sorted(net0.places, key=lambda p: p.name):
        m[p] = PetriNet.Place(p.name)
        net.places.add(m[p])
    for t in sorted(net0.transitions, key=lambda t: t.name):
        m[t] = PetriNet.Transition(t.name, t.label if r.random() < .6 else None)
        net.transitions.add(m[t])
    for a in net0.arcs:
        pu.add_arc_from_to(m[a.source], m[a.target], net)
    im, fm = Marking({m[p]: c for p, c in im0.items()}), Marking({m[p]: c for p, c in fm0.items()})
    ps, ts = sorted(net.places, key=lambda p: p.name), sorted(net.transitions, key=lambda t: t.name)
    for _ in range(r.choice([1, 1, 2, 3])):
        p, t = r.choice(ps), r.choice(ts)
        pu.add_arc_from_to(p, t, net, type=r.choice(["reset", "inhibitor"]))
    N = Net(net, im, fm)
    try:
        N.reach(300)
    except ref.TooBig:
        return
    desc = (spec(N), [(t[0], [N.places[p].name for p in t[4]], [N.places[p].name for p in t[5]]) for t in N.trans if t[4] or t[5]])
    ctx.nontrivial(repr(desc))
    ctx.sample(repr(desc))
    old = size(net)
    net, im, fm = ctx.call("reset/inhibitor reduction", reduction.apply_reset_inhibitor_net_reduction, net, im, fm)
    ctx.check(size(net)[0] <= old[0] and size(net)[1] <= old[1], "reset-rules:size", "")
    consistent(ctx, "reset-rules", net, model=desc)
    if size(net) != old:
        ctx.ev("reset nets reduced")
    same(ctx, "reset-rules", Net(net, im, fm), N, model=desc)


FAMILIES = {"trees": (120, 5000, fam_trees), "reducer": (60, 2000, fam_reducer), "nets": (100, 4000, fam_nets), "free nets": (120, 3000, fam_free), "bpmn": (60, 1500, fam_bpmn),
            "powl": (100, 2500, fam_powl), "reset nets": (120, 3000, fam_reset)}
