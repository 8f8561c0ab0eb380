"""C03 process models survive being written and read back"""
import os
import tempfile
from rv import gen

RULE = "a case is non-trivial when the model has at least three nodes; distinct by the written model"
ASSUMPTIONS = ["labels contain no line breaks or tabs and at least one non-blank character (the formats are line/word based); PNML ids (place/transition names) are unique inside a net",
               "BPMN: event definitions (message, error, ...) are not part of what the exporter writes; node and flow identity is by id",
               "PTML: the order of the children of commutative operators is not significant",
               "POWL: children of a partial order are pairwise different (the text identifies them by their text)"]

PIECES = ["a", "b", "Z", "7", " ", "é", "漢", "&", "<", ">", '"', "'", ",", ")", "(", ";", "=", "-", "-->", "x", "X", "tau", "+", "*", "->", "{", "}", "%", "\\", "/", "&amp;", "ß", "😀", ".", ":", "_"]


def lab(r, n=None, forbid=""):
    while True:
        if r.random() < .3:
            s = r.choice(["a", "b", "register request", "tau", "X", "O", "None", "nan", "1", "0x3", "τ", "it's", "a','b", "'q'", '"', "a & b < c", " lead", "trail ", "a  b", "X('a', 'b')", "->", "a')", "'", "''", "',", "') ", "PO=(a)", "skip", "$invisible$", "invisible"])
        else:
            s = "".join(r.choice(PIECES) for _ in range(r.randint(1, 7)))
        if s.strip() and not any(c in s for c in forbid):
            return s


def labs(r, k, forbid=""):
    out = []
    while len(out) < k:
        s = lab(r, forbid=forbid)
        if s not in out:
            out.append(s)
    return out


def roundtrip(ctx, what, write, read, suffix, enc=None):
    d = tempfile.mkdtemp()
    try:
        p = os.path.join(d, "m" + ctx.rng.choice([suffix, suffix, suffix.upper() if False else suffix]))
        ctx.call(f"{what}:write", write, p)
        ctx.check(os.path.exists(p), f"{what}:no-file", p)
        got = ctx.call(f"{what}:read", read, p)
        ctx.ev("file round trips")
        return got
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)


# ------------------------------------------------------------------ Petri nets
def net_view(net, im, fm, props=True):
    from pm4py.objects.petri_net import properties as pp
    out = {}
    for p in net.places:
        out.setdefault("places", []).append(p.name)
    out["places"] = sorted(out.get("places", []))
    out["trans"] = sorted((t.name, t.label is None, t.label or "") for t in net.transitions)
    from pm4py.objects.petri_net.obj import ResetNet, InhibitorNet

    def kind(a):
        return "reset" if isinstance(a, ResetNet.ResetArc) else "inhibitor" if isinstance(a, InhibitorNet.InhibitorArc) else "normal"
    out["arcs"] = sorted((a.source.name, a.target.name, a.weight if kind(a) == "normal" else 1, kind(a)) for a in net.arcs)
    out["connected"] = sorted((a.source.name, a.target.name) for t in net.transitions for a in list(t.in_arcs) + list(t.out_arcs))
    out["connected2"] = sorted((a.source.name, a.target.name) for t in net.places for a in list(t.in_arcs) + list(t.out_arcs))
    out["im"] = {p.name: int(n) for p, n in im.items()}
    out["fm"] = {p.name: int(n) for p, n in fm.items()}
    if props:
        out["guards"] = {t.name: (t.properties.get(pp.TRANS_GUARD), sorted(t.properties.get(pp.READ_VARIABLE, [])), sorted(t.properties.get(pp.WRITE_VARIABLE, []))) for t in net.transitions}
        out["vars"] = sorted((v["type"], v["name"]) for v in net.properties.get(pp.VARIABLES, []))
        sd = {}
        for t in net.transitions:
            rv = t.properties.get("stochastic_distribution")
            if rv is not None:
                sd[t.name] = (rv.get_distribution_type(), rv.get_distribution_parameters() if rv.get_distribution_type() != "IMMEDIATE" else None, int(rv.get_priority()), float(rv.get_weight()))
        out["stochastic"] = sd
    return out


def cmp(ctx, tag, exp, got, **d):
    for k in exp:
        if exp[k] != got.get(k):
            ctx.fail(f"{tag}:{k}", f"wrote {exp[k]!r} read {got.get(k)!r}"[:1500], **d)
    ctx.ev("models compared")


def mk_net(r, special=True):
    from pm4py.objects.petri_net.obj import PetriNet, Marking, ResetNet, InhibitorNet, ResetInhibitorNet
    from pm4py.objects.petri_net.utils.petri_utils import add_arc_from_to
    from pm4py.objects.petri_net import properties as pp
    j = r.random()
    if j < .35:
        net, im, fm, _ = gen.rand_wfnet(r, labs(r, 5), dup=.2)
        return net, im, fm
    kind = r.choice(["normal"] * 3 + (["reset", "inhibitor", "both", "data", "stochastic"] if special else []))
    cls = {"reset": ResetNet, "inhibitor": InhibitorNet, "both": ResetInhibitorNet}.get(kind, PetriNet)
    net = cls(lab(r)) if r.random() < .8 else cls("")
    names = labs(r, 12)
    ps, ts = [], []
    for i in range(r.randint(1, 5)):
        ps.append(PetriNet.Place(names.pop()))
    L = labs(r, 3)
    for i in range(r.randint(1, 5)):
        ts.append(PetriNet.Transition(names.pop(), None if r.random() < .25 else r.choice(L) if r.random() < .8 else lab(r)))
    net.places.update(ps)
    net.transitions.update(ts)
    for t in ts:
        for p in ps:
            if r.random() < .4:
                ty = None
                if kind in ("reset", "both") and r.random() < .4:
                    ty = pp.RESET_ARC
                elif kind in ("inhibitor", "both") and r.random() < .5:
                    ty = pp.INHIBITOR_ARC
                add_arc_from_to(p, t, net, weight=r.choice([1, 1, 1, 2, 3, 12]) if ty is None else 1, type=ty)
            if r.random() < .4:
                add_arc_from_to(t, p, net, weight=r.choice([1, 1, 2, 5]))
    if kind == "data":
        net.properties[pp.VARIABLES] = [{"type": r.choice(["java.lang.String", "java.lang.Double"]), "name": v} for v in labs(r, 2)]
        for t in ts:
            if r.random() < .6:
                t.properties[pp.TRANS_GUARD] = r.choice(['x > 5 && y == "q"', "a < b", "(x>=3)"])
            if r.random() < .5:
                t.properties[pp.READ_VARIABLE] = labs(r, r.randint(1, 2))
            if r.random() < .5:
                t.properties[pp.WRITE_VARIABLE] = labs(r, 1)
    if kind == "stochastic":
        from pm4py.objects.random_variables.random_variable import RandomVariable
        for t in ts:
            rv = RandomVariable()
            ty, pa = r.choice([("IMMEDIATE", None), ("EXPONENTIAL", "0.25"), ("NORMAL", "3.5;1.25"), ("UNIFORM", "1.0;4.0"), ("DETERMINISTIC", "5.0")])
            try:
                rv.read_from_string(ty, pa)
            except Exception:
                continue
            rv.set_priority(r.choice([0, 1, 3]))
            rv.set_weight(r.choice([1.0, 0.3333333333333333, 12.5]))
            t.properties["stochastic_distribution"] = rv
    im, fm = Marking(), Marking()
    for p in r.sample(ps, r.randint(0, len(ps))):
        im[p] = r.choice([1, 1, 2, 13])
    for p in r.sample(ps, r.randint(1, len(ps))):
        fm[p] = r.choice([1, 1, 2, 7])
    return net, im, fm


def pnml(ctx):
    r = ctx.rng
    import pm4py
    from pm4py.objects.petri_net.exporter import exporter
    from pm4py.objects.petri_net.importer import importer
    net, im, fm = mk_net(r)
    exp = net_view(net, im, fm)
    way = r.choice(["facade", "facade", "module", "prom5", "serialize", "string", "encoding"])
    if way == "facade":
        got = roundtrip(ctx, "pnml", lambda p: pm4py.write_pnml(net, im, fm, p), pm4py.read_pnml, ".pnml")
    elif way == "module":
        got = roundtrip(ctx, "pnml", lambda p: exporter.apply(net, im, p, final_marking=fm), importer.apply, ".pnml")
    elif way == "prom5":
        got = roundtrip(ctx, "pnml-prom5", lambda p: exporter.apply(net, im, p, final_marking=fm, parameters={"export_prom5": True}), importer.apply, ".pnml")
    elif way == "encoding":
        e = r.choice(["utf-8", "utf-16", "iso-8859-1"])
        got = roundtrip(ctx, "pnml", lambda p: pm4py.write_pnml(net, im, fm, p, encoding=e), lambda p: pm4py.read_pnml(p, encoding=e), ".pnml")
    elif type(net).__name__ != "PetriNet" or way == "string":
        got = ctx.call("pnml-string", importer.deserialize, ctx.call("pnml-serialize", exporter.serialize, net, im, fm))
    else:
        ser = ctx.call("serialize-net", pm4py.serialize, net, im, fm)
        got = ctx.call("deserialize-net", pm4py.deserialize, ser)
        ctx.ev("in-memory serializer round trips")
    cmp(ctx, "pnml", exp, net_view(*got[:3]), way=way)
    # reading what was read and written again
    ctx.nontrivial("pnml", repr(exp)) if len(net.places) + len(net.transitions) > 2 else None
    ctx.sample(str(exp)[:400])
    if net_view(net, im, fm) != exp:
        ctx.fail("pnml:writing-changes-model", "the net changed while it was written")


# ------------------------------------------------------------------ process trees
def canon(t):
    if t[0] in ("a", "tau"):
        return t
    ch = [canon(c) for c in t[1]]
    return (t[0], tuple(sorted(ch, key=repr)) if t[0] in ("X", "+", "O") else tuple(ch))


def mk_tree(r, forbid=""):
    return gen.rand_tree(r, labs(r, 6, forbid), ops=r.choice([("->", "X", "+", "*"), ("->", "X", "+", "*", "O"), ("->",), ("*", "->")]), depth=r.randint(1, 4), dup=r.choice([0, .3]), maxleaf=9)


def parents_ok(t):
    return all(c.parent is t and parents_ok(c) for c in t.children)


def ptml(ctx):
    r = ctx.rng
    import pm4py
    from pm4py.objects.process_tree.exporter import exporter
    from pm4py.objects.process_tree.importer import importer
    a = mk_tree(r)
    pt = gen.to_pt(a)
    way = r.choice(["facade", "module", "serialize", "string", "encoding"])
    if way == "encoding":
        e = r.choice(["utf-8", "utf-16", "iso-8859-1"])
        got = roundtrip(ctx, "ptml", lambda p: pm4py.write_ptml(pt, p, encoding=e), lambda p: pm4py.read_ptml(p, encoding=e), ".ptml")
    elif way == "facade":
        got = roundtrip(ctx, "ptml", lambda p: pm4py.write_ptml(pt, p), pm4py.read_ptml, ".ptml")
    elif way == "module":
        got = roundtrip(ctx, "ptml", lambda p: exporter.apply(pt, p), importer.apply, ".ptml")
    elif way == "serialize":
        got = ctx.call("deserialize-tree", pm4py.deserialize, ctx.call("serialize-tree", pm4py.serialize, pt))
        ctx.ev("in-memory serializer round trips")
    else:
        got = ctx.call("ptml-string", importer.deserialize, ctx.call("ptml-serialize", exporter.serialize, pt))
    g = gen.from_pt(got)
    ctx.check(canon(g) == canon(a), "ptml:tree", f"wrote {gen.tree_str(a)} read {gen.tree_str(g)}", way=way)
    ctx.check(got.parent is None and parents_ok(got), "ptml:parents", "parent links of the imported tree are inconsistent")
    ctx.check(gen.from_pt(pt) == a, "ptml:writing-changes-model", "the tree changed while it was written")
    ctx.ev("models compared")
    if gen.tree_size(a) > 2:
        ctx.nontrivial("ptml", gen.tree_str(a))


def ptml3(ctx):
    """PTML loops with three children (ProM style: body, redo, exit)"""
    r = ctx.rng
    import uuid
    from xml.sax.saxutils import quoteattr
    from pm4py.objects.process_tree.importer import importer
    a = mk_tree(r)
    exits = labs(r, 2)
    tags = {"->": "sequence", "X": "xor", "+": "and", "O": "or", "*": "xorLoop"}
    nodes, edges = [], []

    def emit(t):
        i = str(uuid.UUID(int=r.getrandbits(128)))
        if t[0] == "a":
            nodes.append(f'<manualTask id="{i}" name={quoteattr(t[1])}/>')
            return i, t
        if t[0] == "tau":
            nodes.append(f'<automaticTask id="{i}" name="tau"/>')
            return i, t
        nodes.append(f'<{tags[t[0]]} id="{i}" name=""/>')
        ch = [emit(c) for c in t[1]]
        exp = (t[0], [c[1] for c in ch])
        if t[0] == "*":
            e = ("tau",) if r.random() < .4 else ("a", r.choice(exits)) if r.random() < .7 else ("X", [("a", exits[0]), ("tau",)])
            k, e = emit(e)
            ch.append((k, e))
            if e != ("tau",):
                exp = ("->", [exp, e])
        for k, _ in ch:
            edges.append(f'<parentsNode id="{uuid.UUID(int=r.getrandbits(128))}" sourceId="{i}" targetId="{k}"/>')
        return i, exp
    root, exp = emit(a)
    xml = f'<?xml version="1.0" encoding="UTF-8"?><ptml><processTree id="q" name="q" root="{root}">' + "".join(nodes + edges) + "</processTree></ptml>"
    got = ctx.call("ptml3", importer.deserialize, xml.encode("utf-8"))
    g = gen.from_pt(got)
    ctx.check(canon(g) == canon(exp), "ptml3:tree", f"file describes {gen.tree_str(exp)} read {gen.tree_str(g)}")
    ctx.check(parents_ok(got), "ptml3:parents", "parent links of the imported tree are inconsistent")
    ctx.ev("foreign PTML files read")
    if "*" in gen.tree_ops(a):
        ctx.nontrivial("ptml3", gen.tree_str(exp))


def tree_text(ctx):
    r = ctx.rng
    import pm4py
    from pm4py.objects.process_tree.utils import generic
    a = mk_tree(r)
    pt = gen.to_pt(a)
    s = str(pt)
    if a[0] in ("a", "tau"):
        try:
            got = pm4py.parse_process_tree(s)
            ok = gen.from_pt(got) == a
        except Exception as e:
            got, ok = repr(e), False
        return ctx.check(ok, "tree-text:single-activity", f"printed {s} parsed as {got!r}")
    import re
    if any(re.search(r"'\s*[,)]", x) for x in gen.tree_labels(a)):
        try:
            got = pm4py.parse_process_tree(s)
            ok = gen.from_pt(got) == a
        except Exception as e:
            got, ok = repr(e), False
        return ctx.check(ok, "tree-text:quote-then-separator", f"printed {s} parsed as {got}")
    got = ctx.call("tree-text", r.choice([pm4py.parse_process_tree, generic.parse]), s)
    g = gen.from_pt(got)
    ctx.check(g == a, "tree-text:tree", f"printed {s} parsed as {gen.tree_str(g)}")
    ctx.check(got == pt, "tree-text:equality", f"{s}")
    ctx.check(parents_ok(got), "tree-text:parents", s)
    ctx.check(str(got) == s, "tree-text:reprint", s)
    ctx.ev("texts parsed")
    if gen.tree_size(a) > 2:
        ctx.nontrivial("text", s)


# ------------------------------------------------------------------ DFG
def dfg(ctx):
    r = ctx.rng
    import pm4py
    from pm4py.objects.dfg.exporter import exporter
    from pm4py.objects.dfg.importer import importer
    L = labs(r, r.randint(1, 6))
    D = {}
    for _ in range(r.randint(0, 9)):
        D[(r.choice(L), r.choice(L))] = r.choice([1, 2, 37, 1000000])
    pick = lambda: {a: r.choice([1, 2, 99]) for a in r.sample(L, r.randint(1, len(L)))}
    sa, ea = pick(), pick()
    way = r.choice(["facade", "module", "serialize", "string", "encoding"])
    import collections
    Dx = collections.Counter(D) if r.random() < .3 else dict(D)
    if way == "encoding":
        e = r.choice(["utf-8", "utf-16"])
        got = roundtrip(ctx, "dfg", lambda p: pm4py.write_dfg(Dx, sa, ea, p, encoding=e), lambda p: pm4py.read_dfg(p, encoding=e), ".dfg")
    elif way == "facade":
        got = roundtrip(ctx, "dfg", lambda p: pm4py.write_dfg(Dx, sa, ea, p), pm4py.read_dfg, ".dfg")
    elif way == "module":
        got = roundtrip(ctx, "dfg", lambda p: exporter.apply(Dx, p, parameters={"start_activities": sa, "end_activities": ea}), importer.apply, ".dfg")
    elif way == "serialize":
        got = ctx.call("deserialize-dfg", pm4py.deserialize, ctx.call("serialize-dfg", pm4py.serialize, Dx, sa, ea))
        ctx.ev("in-memory serializer round trips")
    else:
        got = ctx.call("dfg-string", importer.deserialize, ctx.call("dfg-serialize", exporter.serialize, Dx, parameters={"start_activities": sa, "end_activities": ea}))
    cmp(ctx, "dfg", {"edges": D, "start": sa, "end": ea}, {"edges": dict(got[0]), "start": dict(got[1]), "end": dict(got[2])}, way=way)
    if len(D) > 1:
        ctx.nontrivial("dfg", repr(sorted(D.items())), repr(sa))


# ------------------------------------------------------------------ BPMN
def mk_bpmn(r):
    from pm4py.objects.bpmn.obj import BPMN
    G = BPMN()
    if r.random() < .4:
        import pm4py
        return pm4py.convert_to_bpmn(gen.to_pt(mk_tree(r, forbid="\n") if r.random() < .5 else gen.rand_tree(r, labs(r, 5))))
    procs = [G.get_process_id()] if r.random() < .75 else ["p1", "p2"]
    nodes = []
    for i in range(r.randint(2, 9)):
        pr = r.choice(procs)
        nm = lab(r) if r.random() < .8 else ""
        d = r.choice(list(BPMN.Gateway.Direction))
        c = r.choice(["task"] * 4 + ["start", "end", "catch", "throw", "xor", "and", "or", "sub", "user", "id"])
        if c == "task":
            n = BPMN.Task(name=nm, process=pr)
        elif c == "user":
            n = BPMN.UserTask(name=nm, process=pr)
        elif c == "id":
            n = BPMN.Task(id=f"node_{i}", name=nm, process=pr)
        elif c == "start":
            n = BPMN.NormalStartEvent(name=nm, process=pr, isInterrupting=r.random() < .5)
        elif c == "end":
            n = BPMN.NormalEndEvent(name=nm, process=pr)
        elif c == "catch":
            n = BPMN.IntermediateCatchEvent(name=nm, process=pr)
        elif c == "throw":
            n = BPMN.NormalIntermediateThrowEvent(name=nm, process=pr)
        elif c == "sub":
            n = BPMN.SubProcess(name=nm, process=pr)
        else:
            n = {"xor": BPMN.ExclusiveGateway, "and": BPMN.ParallelGateway, "or": BPMN.InclusiveGateway}[c](name=nm if r.random() < .5 else "", gateway_direction=d, process=pr)
        G.add_node(n)
        nodes.append(n)
    for _ in range(r.randint(1, 10)):
        a, b = r.choice(nodes), r.choice(nodes)
        if a.get_process() == b.get_process():
            G.add_flow(BPMN.SequenceFlow(a, b, name=r.choice(["", lab(r)]), process=a.get_process()))
    return G


def base(n):
    from pm4py.objects.bpmn.obj import BPMN
    for c in (BPMN.StartEvent, BPMN.EndEvent, BPMN.IntermediateCatchEvent, BPMN.IntermediateThrowEvent, BPMN.BoundaryEvent, BPMN.Task, BPMN.SubProcess, BPMN.ExclusiveGateway, BPMN.ParallelGateway, BPMN.InclusiveGateway):
        if isinstance(n, c):
            return c.__name__
    return type(n).__name__


def bpmn_view(G):
    from pm4py.objects.bpmn.obj import BPMN
    nodes = sorted((n.get_id(), base(n), n.get_name() or "", n.get_gateway_direction().value if isinstance(n, BPMN.Gateway) else "") for n in G.get_nodes())
    st = lambda x: str(x)[2:] if str(x).startswith("id") else str(x)
    procs = {}
    for n in G.get_nodes():
        procs.setdefault(n.get_process(), set()).add(n.get_id())
    return {"nodes": nodes, "flows": sorted((f.get_source().get_id(), f.get_target().get_id(), f.get_name() or "") for f in G.get_flows()),
            "in": sorted((n.get_id(), len(n.get_in_arcs()), len(n.get_out_arcs())) for n in G.get_nodes()),
            "pools": sorted(sorted(v) for v in procs.values())}


def bpmn(ctx):
    r = ctx.rng
    import pm4py
    from pm4py.objects.bpmn.exporter import exporter
    from pm4py.objects.bpmn.importer import importer
    G = mk_bpmn(r)
    exp = bpmn_view(G)
    lay = {n.get_id(): (float(G.get_layout().get(n).get_x()), float(G.get_layout().get(n).get_y()), float(G.get_layout().get(n).get_width()), float(G.get_layout().get(n).get_height())) for n in G.get_nodes()}
    way = r.choice(["facade", "nolayout", "module", "serialize", "noplane", "noinout", "encoding"])
    if way == "encoding":
        e = r.choice(["utf-8", "utf-16", "iso-8859-1"])
        got = roundtrip(ctx, "bpmn", lambda p: pm4py.write_bpmn(G, p, encoding=e), lambda p: pm4py.read_bpmn(p, encoding=e), ".bpmn")
    elif way == "facade":
        got = roundtrip(ctx, "bpmn", lambda p: pm4py.write_bpmn(G, p), pm4py.read_bpmn, ".bpmn")
    elif way == "nolayout":
        got = roundtrip(ctx, "bpmn", lambda p: pm4py.write_bpmn(G, p, auto_layout=False), pm4py.read_bpmn, ".bpmn")
    elif way in ("module", "noplane", "noinout"):
        par = {"noplane": {"enble_bpmn_plane_exporting": False}, "noinout": {"enable_incoming_outgoing_exporting": False}}.get(way, {})
        got = roundtrip(ctx, "bpmn", lambda p: exporter.apply(G, p, parameters=par), importer.apply, ".bpmn")
    else:
        got = ctx.call("deserialize-bpmn", pm4py.deserialize, ctx.call("serialize-bpmn", pm4py.serialize, G))
        ctx.ev("in-memory serializer round trips")
    tag = "bpmn" + (":" + way if way in ("noplane", "noinout") else "")
    cmp(ctx, tag, exp, bpmn_view(got), way=way)
    if way in ("module", "nolayout", "serialize"):
        gl = {n.get_id(): (float(got.get_layout().get(n).get_x()), float(got.get_layout().get(n).get_y()), float(got.get_layout().get(n).get_width()), float(got.get_layout().get(n).get_height())) for n in got.get_nodes()}
        ctx.check(gl == lay, "bpmn:layout", f"{lay} vs {gl}", way=way)
    if len(exp["nodes"]) > 2:
        ctx.nontrivial("bpmn", repr([(x[1:]) for x in exp["nodes"]]), len(exp["flows"]))
    ctx.sample(str(exp)[:400])


# ------------------------------------------------------------------ POWL text
def mk_powl(r, L, depth):
    from pm4py.objects.powl.obj import Transition, SilentTransition, OperatorPOWL, StrictPartialOrder
    from pm4py.objects.process_tree.obj import Operator
    if depth == 0 or r.random() < .25:
        return Transition(label=r.choice(L)) if r.random() < .85 else SilentTransition()
    c = r.choice(["X", "*", "PO", "PO"])
    if c == "X":
        return OperatorPOWL(Operator.XOR, [mk_powl(r, L, depth - 1) for _ in range(r.randint(2, 3))])
    if c == "*":
        return OperatorPOWL(Operator.LOOP, [mk_powl(r, L, depth - 1) for _ in range(2)])
    ch, seen = [], set()
    for _ in range(r.randint(2, 4)):
        x = mk_powl(r, L, depth - 1)
        if str(x) not in seen:
            seen.add(str(x))
            ch.append(x)
    if len(ch) < 2:
        return ch[0]
    p = StrictPartialOrder(ch)
    for i in range(len(ch)):
        for j in range(i + 1, len(ch)):
            if r.random() < .4:
                p.order.add_edge(ch[i], ch[j])
    if r.random() < .5:
        p.order.add_transitive_edges()
    return p


def powl_view(m):
    from pm4py.objects.powl.obj import OperatorPOWL, StrictPartialOrder, SilentTransition
    if isinstance(m, SilentTransition):
        return ("tau",)
    if isinstance(m, StrictPartialOrder):
        ch = list(m.children)
        v = {id(c): powl_view(c) for c in ch}
        return ("PO", tuple(sorted(map(repr, v.values()))), tuple(sorted((repr(v[id(a)]), repr(v[id(b)])) for a in ch for b in ch if m.order.is_edge(a, b))))
    if isinstance(m, OperatorPOWL):
        return (m.operator.value, tuple(powl_view(c) for c in m.children))
    return ("a", m.label)


def plain(x):
    return x is None or (x == x.strip() and not any(c in x for c in ",(){}") and "-->" not in x and not x.startswith("'") and not x.startswith("PO=") and x != "tau")


def plabs(r, k):
    out = []
    while len(out) < k:
        x = r.choice(["X", "Xray", "*", "*a", "tau1", "tauX", "a", "ab", "a b", "b", "O", "->", "PO", "POX", "é", "a-b", "b--a", "nodes", "order"]) if r.random() < .6 else lab(r)
        if plain(x) and x not in out:
            out.append(x)
    return out


def leaves(m):
    ch = getattr(m, "children", None)
    return [m.label] if not ch else [x for c in ch for x in leaves(c)]


def powl(ctx):
    r = ctx.rng
    import pm4py
    special = r.random() < .12
    L = labs(r, 6) if special else plabs(r, 6)
    m = mk_powl(r, L, r.randint(1, 3))
    s = str(m)
    exp = powl_view(m)
    if any(not plain(x) for x in leaves(m)):
        try:
            got = pm4py.parse_powl_model_string(s)
            ok = powl_view(got) == exp
        except Exception as e:
            got, ok = repr(e), False
        return ctx.check(ok, "powl-text:special-labels", f"printed {s} parsed as {got}", labels=L)
    got = ctx.call("powl-text", pm4py.parse_powl_model_string, s)
    g = powl_view(got)
    ctx.check(g == exp, "powl-text:model", f"printed {s} parsed as {got}", labels=L)
    ctx.ev("texts parsed")
    if exp[0] not in ("a", "tau"):
        ctx.nontrivial("powl", s)


FAMILIES = {"pnml": (400, 8000, pnml), "ptml": (200, 4000, ptml), "ptml3": (120, 2500, ptml3), "tree_text": (300, 8000, tree_text),
            "dfg": (250, 5000, dfg), "bpmn": (200, 3000, bpmn), "powl": (250, 5000, powl)}
MINIMUM = {"models compared": 400}
