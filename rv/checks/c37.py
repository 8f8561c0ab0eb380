"""C37: the diagrams show exactly the model: every saved diagram is laid out by graphviz, read back as a graph and compared with the graph recomputed from the model"""
import copy
import html
import json
import os
import re
import shutil
import subprocess
import tempfile
from collections import Counter, defaultdict
import networkx as nx
import pm4py
from pm4py.objects.bpmn.obj import BPMN
from pm4py.objects.petri_net.obj import Marking, PetriNet
from pm4py.objects.process_tree.obj import Operator
from pm4py.objects.powl.obj import StrictPartialOrder, OperatorPOWL, Transition as PT, SilentTransition
from rv import gen, h
from rv.checks.c13 import build_bpmn, rand_powl
from rv.checks.c29 import mk
from rv.checks.c36 import alog

RULE = ("the nodes, edges and labels of a diagram (read back from graphviz) are isomorphic to the graph of the model: places with markings, transitions with labels, weighted arcs; tree structure with ordered "
        "children; activities and paths with their counts; states; prefix tree; objects; network; partial order; relations of footprints; moves of alignments; drawing does not change the model")
ASSUMPTIONS = ["labels without graphviz escapes", "layout, colours, fonts and widths are not judged"]
MINIMUM = {"diagrams": 500, "elements": 6000}
CASE_CPU = 60

DOT = {"●": "start", "&#9679;": "start", "■": "end", "&#9632;": "end"}


def load(ctx, fn, label):
    d = tempfile.mkdtemp(prefix="c37_")
    try:
        p = os.path.join(d, "x.json0")
        ctx.call(label, fn, p)
        return read(ctx, open(p).read())
    finally:
        shutil.rmtree(d, ignore_errors=True)


def read(ctx, text):
    """-> (nodes {id: label, shape}, edges [(a, b, label, attrs)], clusters {name: node ids})"""
    j = json.loads(text)
    names, nodes, clusters, subs = {}, {}, {}, {}
    for o in j.get("objects", []):
        if "nodes" in o or "subgraphs" in o or o["name"].startswith("cluster"):
            subs[o["_gvid"]] = o
        else:
            lab = o.get("label", "\\N")
            if lab == "\\N":
                lab = o["name"]
            nodes[o["_gvid"]] = {"label": html.unescape(lab).replace("\\n", "\n"), "shape": o.get("shape"), "raw": lab, "fill": o.get("fillcolor")}

    def mem(g):
        o = subs[g]
        s = set(o.get("nodes", []))
        for x in o.get("subgraphs", []):
            s |= mem(x)
        return s
    for g, o in subs.items():
        clusters[o["name"]] = mem(g)
    edges = [(e["tail"], e["head"], html.unescape(e.get("label", "")).replace("\\n", "\n").strip(), e) for e in sorted(j.get("edges", []), key=lambda e: e["_gvid"])]
    ctx.ev("diagrams")
    ctx.ev("elements", len(nodes) + len(edges))
    return nodes, edges, clusters


def graph(nodes, edges):
    g = nx.MultiDiGraph()
    for n, l in nodes:
        g.add_node(n, label=l)
    for a, b, l in edges:
        g.add_edge(a, b, label=l)
    return g


def iso(ctx, got, exp, tag, **kw):
    """got/exp: (nodes [(id, label)], edges [(a, b, label)])"""
    cn = lambda x: Counter(l for _, l in x[0])
    if not ctx.check(cn(got) == cn(exp), f"{tag}:nodes", "nodes differ", extra=list((cn(got) - cn(exp)).items())[:4], missing=list((cn(exp) - cn(got)).items())[:4], **kw):
        return
    lab = [dict(x[0]) for x in (got, exp)]
    ce = lambda x, l: Counter((l[a], l[b], e) for a, b, e in x[1])
    if not ctx.check(ce(got, lab[0]) == ce(exp, lab[1]), f"{tag}:edges", "edges differ", extra=list((ce(got, lab[0]) - ce(exp, lab[1])).items())[:4], missing=list((ce(exp, lab[1]) - ce(got, lab[0])).items())[:4], **kw):
        return
    if max(cn(got).values(), default=1) > 1 and len(got[0]) <= 40:
        em = lambda x, y: Counter(d["label"] for d in x.values()) == Counter(d["label"] for d in y.values())
        ctx.check(nx.is_isomorphic(graph(*got), graph(*exp), node_match=lambda x, y: x["label"] == y["label"], edge_match=em), f"{tag}:structure", "not the same graph", **kw)


def plain(nodes, edges):
    return [(n, DOT.get(d["label"], d["label"].strip())) for n, d in nodes.items()], [(a, b, l) for a, b, l, _ in edges]


# ------------------------------------------------------------------ directly-follows graphs
UN = [(31104000, "Y"), (2592000, "MO"), (86400, "D")]


def hum(x):
    c = int(x)
    for n, u in UN:
        if c >= n:
            return f"{c // n}{u}"
    for n, u in ((3600, "h"), (60, "m"), (1, "s")):
        if c // n:
            return f"{c // n}{u}"
    return f"{int(x * 1000)}ms" if int(x * 1000) else f"{int(x * 10 ** 9)}ns"


def fam_dfg(ctx):
    r = ctx.rng
    al = alog(ctx)
    log = al.to_log()
    if not any(len(t) for t in log):
        return
    kind = r.choice(["frequency", "performance"])
    if kind == "frequency":
        dfg, sa, ea = pm4py.discover_dfg(log)
        dfg = dict(dfg)
        cap = r.choice([None, None, r.randint(1, max(1, len(dfg)))])
        kw = {} if cap is None else {"max_num_edges": cap}
        b = copy.deepcopy((dfg, sa, ea))
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_dfg(dfg, sa, ea, p, **kw), "save_vis_dfg")
        cnt = Counter(e["concept:name"] for t in log for e in t)
        val = {k: str(v) for k, v in dfg.items()} if dfg == b[0] else {k: str(v) for k, v in b[0].items()}
        nl = {a: f"{a} ({n})" for a, n in cnt.items()}
    else:
        dfg, sa, ea = pm4py.discover_performance_dfg(log)
        dfg = dict(dfg)
        agg = r.choice(["mean", "median", "min", "max", "sum"])
        cap, b = None, copy.deepcopy((dfg, sa, ea))
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_performance_dfg(dfg, sa, ea, p, aggregation_measure=agg), "save_vis_performance_dfg")
        val = {k: hum(v[agg]) for k, v in b[0].items()}
        nl = {a: a for p in b[0] for a in p}
        sa, ea = [x for x in sa if x in nl], [x for x in ea if x in nl]
    if cap is None:
        ctx.check(dict(dfg) == b[0], "dfg:mutation", "the graph given as input was changed")
    else:
        ctx.check(dict(dfg) == b[0], "dfg:mutation", "the graph given as input lost edges", cap=cap, before=len(b[0]), after=len(dfg))
    got = plain(nodes, edges)
    if kind == "performance":
        # isolated start activities may be drawn or not
        keep = {n for n, l in got[0] if l in nl or l in ("start", "end")}
        ctx.check(all(l in {e["concept:name"] for t in log for e in t} or l in ("start", "end") for _, l in got[0]), "dfg:nodes", "unknown node")
        touched = {x for e in got[1] if e[0] in keep and e[1] in keep for x in e[:2]}
        keep = {n for n in keep if dict(got[0])[n] not in ("start", "end") or n in touched}
        got = [x for x in got[0] if x[0] in keep], [x for x in got[1] if x[0] in keep and x[1] in keep]
    ids = {l: n for n, l in got[0]}
    exp = [(a, l) for a, l in nl.items()], [(x, y, v) for (x, y), v in val.items()]
    if sa:
        exp[0].append(("@s", "start"))
        exp[1].extend(("@s", a, str(sa[a]) if kind == "frequency" else "") for a in sa)
    if ea:
        exp[0].append(("@e", "end"))
        exp[1].extend((a, "@e", str(ea[a]) if kind == "frequency" else "") for a in ea)
    if cap is not None:
        inner = [(a, b2, l) for a, b2, l in got[1] if dict(got[0])[a] != "start" and dict(got[0])[b2] != "end"]
        ctx.eq(len(inner), min(cap, len(val)), "dfg:cap")
        top = sorted((int(v) for v in val.values()), reverse=True)[:len(inner)]
        ctx.check(sorted((int(l) for *_, l in inner), reverse=True) == top, "dfg:cap", "not the most frequent edges", shown=[l for *_, l in inner])
        lab = dict(got[0])
        back = {v: k for k, v in nl.items()}
        keep = {(back.get(lab[a]), back.get(lab[b2])) for a, b2, _ in inner}
        exp = exp[0], [e for e in exp[1] if (e[0], e[1]) not in val or (e[0], e[1]) in keep]
    iso(ctx, got, exp, "dfg", kind=kind)
    ctx.nontrivial("dfg", kind, len(dfg), cap)


# ------------------------------------------------------------------ nets
def fam_net(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 5), hostile=False)
    weights = r.random() < .5
    places, trans = gen.rand_free_net(r, labs=labs, weights=weights)
    net, po = gen.build_net(places, trans)
    pl = sorted(places)
    im = Marking({po[p]: r.choice([1, 1, 2, 3]) for p in pl if r.random() < .3})
    fm = Marking({po[p]: r.choice([1, 1, 2]) for p in pl if r.random() < .3})
    debug = r.random() < .3
    dec = None
    if r.random() < .3:
        dec = {t: {"label": f"deco{i}", "color": "#ff0000"} for i, t in enumerate(sorted(net.transitions, key=lambda t: t.name)) if r.random() < .5}
    b = (len(net.places), len(net.transitions), len(net.arcs), dict(im), dict(fm))
    nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_petri_net(net, im, fm, p, debug=debug, decorations=dec), "save_vis_petri_net")
    ctx.check(b == (len(net.places), len(net.transitions), len(net.arcs), dict(im), dict(fm)), "net:mutation", "the net was changed")
    got = []
    for n, d in nodes.items():
        l = DOT.get(d["label"], d["label"].strip())
        got.append((n, ("t", l, d["fill"] == "black") if d["shape"] == "box" else ("p", l, d["shape"] == "doublecircle")))
    exp = []
    for p in net.places:
        if p in im:
            exp.append((id(p), ("p", "start" if im[p] == 1 else str(im[p]), False)))
        elif p in fm:
            exp.append((id(p), ("p", "end", True)))
        else:
            exp.append((id(p), ("p", str(p.name) if debug else "", False)))
    for t in net.transitions:
        l = dec[t]["label"] if dec and t in dec else (t.label or "")
        exp.append((id(t), ("t", str(t.name) if debug else l, t.label is None and not (dec and t in dec))))
    vis = any(a.weight != 1 for a in net.arcs)
    iso(ctx, (got, [(a, c, l) for a, c, l, _ in edges]), (exp, [(id(a.source), id(a.target), str(a.weight) if vis else "") for a in net.arcs]), "net", debug=debug)
    ctx.nontrivial("net", len(exp), len(edges), vis, debug)


# ------------------------------------------------------------------ trees
OPN = {Operator.SEQUENCE: "seq", Operator.XOR: "xor", Operator.PARALLEL: "and", Operator.LOOP: "xor loop", Operator.OR: "or", Operator.INTERLEAVING: "interleaving"}


def canon(lab, kids):
    ordered = lab in ("seq", "xor loop")
    return (lab, tuple(kids) if ordered else tuple(sorted(kids, key=repr)))


def canon_tree(t):
    if not t.children:
        return (t.label if t.label is not None else "tau", ())
    return canon(OPN[t.operator], [canon_tree(c) for c in t.children])


def fam_tree(ctx):
    r = ctx.rng
    ast = gen.rand_tree(r, gen.labels(r, r.randint(1, 6), hostile=False), depth=r.choice([1, 2, 3]), tau=.15, maxleaf=9)
    t = gen.to_pt(ast)
    b = str(t)
    nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_process_tree(t, p), "save_vis_process_tree")
    ctx.check(str(t) == b, "tree:mutation", "the tree was changed")
    kids, par = defaultdict(list), Counter()
    for a, c, _, e in edges:
        kids[a].append(c)
        par[c] += 1
    roots = [n for n in nodes if not par[n]]
    if not ctx.check(len(roots) == 1 and all(v == 1 for v in par.values()) and len(edges) == len(nodes) - 1, "tree:shape", "not a tree", nodes=len(nodes), edges=len(edges)):
        return

    def rec(n):
        return (nodes[n]["label"], ()) if not kids[n] else canon(nodes[n]["label"], [rec(c) for c in kids[n]])
    ctx.eq(rec(roots[0]), canon_tree(t), "tree:structure")
    ctx.nontrivial("tree", b)


def fam_bpmn(ctx):
    r = ctx.rng
    g = build_bpmn(r, gen.rand_tree(r, gen.labels(r, r.randint(1, 5), hostile=False), depth=r.choice([1, 2]), tau=.15, maxleaf=6), multi_end=r.random() < .3)
    g = g[0] if isinstance(g, tuple) else g
    b = (len(g.get_nodes()), len(g.get_flows()))
    nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_bpmn(g, p), "save_vis_bpmn")
    ctx.check(b == (len(g.get_nodes()), len(g.get_flows())), "bpmn:mutation", "the diagram was changed")
    k = {"box": "task", "circle": "event", "diamond": "gateway"}
    got = [(n, (k.get(d["shape"]), d["label"].strip() if d["shape"] != "circle" else ({"green": "start", "orange": "end"}.get(d["fill"], "")))) for n, d in nodes.items()]

    def lab(n):
        if isinstance(n, BPMN.Task):
            return ("task", n.get_name())
        if isinstance(n, BPMN.ParallelGateway):
            return ("gateway", "+")
        if isinstance(n, BPMN.ExclusiveGateway):
            return ("gateway", "X")
        if isinstance(n, BPMN.InclusiveGateway):
            return ("gateway", "O")
        return ("event", "start" if isinstance(n, BPMN.StartEvent) else "end" if isinstance(n, BPMN.EndEvent) else "")
    iso(ctx, (got, [(a, c, "") for a, c, *_ in edges]), ([(id(n), lab(n)) for n in g.get_nodes()], [(id(f.get_source()), id(f.get_target()), "") for f in g.get_flows()]), "bpmn")
    ctx.nontrivial("bpmn", len(nodes), len(edges))


# ------------------------------------------------------------------ POWL
def fam_powl(ctx):
    from pm4py.visualization.powl.variants import basic
    r = ctx.rng
    p = rand_powl(r, gen.labels(r, r.randint(2, 6), hostile=False), d=r.choice([1, 2, 2]))
    if r.random() < .4:
        def freq(q):
            if isinstance(q, PT):
                return [(q.label, False, False)]
            k = [("tau" if isinstance(c, SilentTransition) else c.label if type(c) is PT else None) for c in q.children]
            if isinstance(q, OperatorPOWL) and len(k) == 2 and "tau" in k and k != ["tau", "tau"] and None not in k:
                a = k[0] if k[1] == "tau" else k[1]
                return [(a, q.operator == Operator.XOR or k[0] == "tau", q.operator == Operator.LOOP)]
            return [x for c in q.children for x in freq(c)]

        def marks(q):
            if isinstance(q, PT):
                return [(getattr(q, "activity", q.label), getattr(q, "skippable", False), getattr(q, "selfloop", False))]
            return [x for c in q.children for x in marks(c)]
        w = Counter(freq(p))
        p = ctx.call("simplify", p.simplify_using_frequent_transitions)
        ctx.eq(Counter(marks(p)), w, "powl:frequent")
        ctx.eq(Counter(marks(ctx.call("simplify", p.simplify_using_frequent_transitions))), w, "powl:frequent_again")
    v = ctx.call("visualise", basic.apply, p)
    out = subprocess.run(["dot", "-Tjson0"], input=v.source.encode(), capture_output=True)
    nodes, edges, clusters = read(ctx, out.stdout.decode())
    lab = lambda n: nodes[n]["label"].strip()
    all_leaves, exp = Counter(), Counter()

    def leaves(q):
        if isinstance(q, PT):
            return [("" if q.label is None else getattr(q, "activity", None) or q.label)]
        return [x for c in q.children for x in leaves(c)] + ([""] if isinstance(q, OperatorPOWL) else [])

    def rep(q):
        if not isinstance(q, PT):
            return ("cluster", tuple(sorted(leaves(q))))
        return ("node", leaves(q)[0])

    def walk(q):
        if isinstance(q, PT):
            return
        ch = list(q.children)
        if isinstance(q, StrictPartialOrder):
            g = nx.DiGraph()
            g.add_nodes_from(range(len(ch)))
            g.add_edges_from((i, j) for i in range(len(ch)) for j in range(len(ch)) if q.order.is_edge(ch[i], ch[j]))
            for i, j in nx.transitive_reduction(g).edges:
                exp["order", rep(ch[i]), rep(ch[j])] += 1
        else:
            for i, c in enumerate(ch):
                exp["loop-redo" if q.operator == Operator.LOOP and i == 1 else "child", ("node", ""), rep(c)] += 1
        for c in ch:
            walk(c)
    walk(p)
    ctx.eq(Counter(lab(n) for n in nodes), Counter(leaves(p)), "powl:nodes")
    got = Counter()
    for a, b, _, e in edges:
        end = lambda n, key: ("cluster", tuple(sorted(lab(x) for x in clusters.get(e[key], ())))) if e.get(key) else ("node", lab(n))
        k = "order" if e.get("dir") == "forward" else "loop-redo" if e.get("style") == "dashed" else "child"
        got[k, end(a, "ltail"), end(b, "lhead")] += 1
    ctx.check(got == exp, "powl:edges", "edges differ", extra=list((got - exp).items())[:3], missing=list((exp - got).items())[:3])
    ctx.nontrivial("powl", len(nodes), len(edges))


# ------------------------------------------------------------------ others
def fam_misc(ctx):
    r = ctx.rng
    kind = r.choice(["heu", "tsys", "trie", "network", "footprints", "alignments", "rg"])
    al = alog(ctx)
    log = al.to_log()
    if not any(len(t) for t in log):
        return
    W = [tuple(e["concept:name"] for e in t) for t in log]
    if kind == "heu":
        mo = r.choice([1, 1, 2, 3])
        hn = pm4py.discover_heuristics_net(log, dependency_threshold=r.choice([.5, 0, .9]), min_dfg_occurrences=mo)
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_heuristics_net(hn, p), "save_vis_heuristics_net")
        cnt = Counter(a for w in W for a in w)
        sa, ea = Counter(w[0] for w in W if w), Counter(w[-1] for w in W if w)
        inn = set(hn.nodes)
        sa, ea = {a: n for a, n in sa.items() if a in inn}, {a: n for a, n in ea.items() if a in inn}
        arcs = {(n.node_name, o.node_name): {e.repr_value for e in es} for n in hn.nodes.values() for o, es in n.output_connections.items()}
        conn = {x for p in arcs for x in p} | set(sa) | set(ea)
        exp = [(a, f"{a} ({cnt[a]})") for a in conn] + [("@s", "@@S"), ("@e", "@@E")]
        ed = [(a, b, str(next(iter(v)))) for (a, b), v in arcs.items()] + [("@s", a, str(n)) for a, n in sa.items() if n >= mo] + [(a, "@e", str(n)) for a, n in ea.items() if n >= mo]
        exp = [x for x in exp if not (x[0] == "@s" and not sa) and not (x[0] == "@e" and not ea)]
        iso(ctx, plain(nodes, edges), (exp, ed), "heu")
    elif kind in ("tsys", "rg"):
        if kind == "tsys":
            ts = pm4py.discover_transition_system(log, direction=r.choice(["forward", "backward"]), window=r.randint(1, 3), view=r.choice(["sequence", "set", "multiset"]))
        else:
            net, im, fm = pm4py.convert_to_petri_net(gen.to_pt(gen.rand_tree(r, ["a", "b", "c d"], depth=2, maxleaf=5, tau=.1)))
            ts = pm4py.convert_to_reachability_graph(net, im, fm)
        b = (len(ts.states), len(ts.transitions), sorted(str(s.name) for s in ts.states))
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_transition_system(ts, p), "save_vis_transition_system")
        ctx.check(b == (len(ts.states), len(ts.transitions), sorted(str(s.name) for s in ts.states)), "tsys:mutation", "the transition system was changed")
        iso(ctx, plain(nodes, edges), ([(id(s), str(s.name).strip()) for s in ts.states], [(id(t.from_state), id(t.to_state), str(t.name).strip()) for t in ts.transitions]), "tsys", kind=kind)
    elif kind == "trie":
        tr = pm4py.discover_prefix_tree(log)
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_prefix_tree(tr, p), "save_vis_prefix_tree")
        pre = {w[:i] for w in W for i in range(1, len(w) + 1)}
        iso(ctx, plain(nodes, edges), ([(w, w[-1]) for w in pre], [(w[:-1], w, "") for w in pre if len(w) > 1]), "trie")
    elif kind == "network":
        perf = r.random() < .4
        df = al.to_df()
        na = pm4py.discover_network_analysis(df, out_column="case:concept:name", in_column="case:concept:name", node_column_source="org:resource", node_column_target="org:resource", edge_column="concept:name", performance=perf)
        if not na:
            return
        at, et = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2])
        b = copy.deepcopy(na)
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_network_analysis(na, p, variant="performance" if perf else "frequency", activity_threshold=at, edge_threshold=et), "save_vis_network_analysis")
        ctx.check(na == b, "network:mutation", "the network was changed")
        fr = {e: {k: len(v) if perf else v for k, v in m.items()} for e, m in na.items()}
        i, o = Counter(), Counter()
        for (x, y), m in fr.items():
            s = sum(v for v in m.values() if v >= et)
            i[y] += s
            o[x] += s
        keep = {x for e in fr for x in e if max(i[x], o[x]) >= at}
        val = lambda e, k: hum(sum(na[e][k]) / len(na[e][k])) if perf else str(fr[e][k])
        iso(ctx, plain(nodes, edges), ([(x, f"{x}\n(in={i[x]}; out={o[x]})") for x in keep], [(e[0], e[1], f"{k}\n{val(e, k)}") for e, m in fr.items() if set(e) <= keep for k, v in m.items() if v >= et]), "network", perf=perf)
    elif kind == "footprints":
        fp = pm4py.discover_footprints(al.to_df())
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_footprints(fp, p), "save_vis_footprints")
        raw = next(iter(nodes.values()))["raw"]
        rows = [[html.unescape(re.sub("<.*?>", "", c)) for c in re.findall(r"<td.*?>(.*?)</td>", x, re.S)] for x in re.findall(r"<tr>(.*?)</tr>", raw, re.S)]
        df = {p for w in W for p in zip(w, w[1:])}
        al_ = {x for p in df for x in p}
        heads = rows[0][1:] if rows else []
        ctx.check(set(heads) >= al_ and set(heads) <= {a for w in W for a in w} and [x[0] for x in rows[1:]] == heads, "footprints:activities", "activities differ", heads=heads)
        for x in rows[1:]:
            for y, c in zip(heads, x[1:]):
                p = (x[0], y)
                e = "||" if p in df and p[::-1] in df else ">" if p in df else "<" if p[::-1] in df else "#"
                ctx.check(c == e, "footprints:relation", f"{p}: {c} instead of {e}")
                ctx.ev("elements")
    else:
        net, im, fm = pm4py.convert_to_petri_net(gen.to_pt(gen.rand_tree(r, sorted({a for w in W for a in w}), depth=2, maxleaf=5, tau=.1)))
        res = pm4py.conformance_diagnostics_alignments(log, net, im, fm)
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_alignments(log, res, p), "save_vis_alignments")
        raw = next(iter(nodes.values()))["raw"]
        got = Counter()
        order = []
        for m in re.finditer(r"Variant (\d+) \((\d+) occurrences\)</font></td><td>.*?<table border='0'><tr>(.*?)</tr></table>", raw, re.S):
            cells = []
            for col, c in re.findall(r'<td bgcolor="(\w+)">(.*?)</td>', m[3], re.S):
                cells.append((col, html.unescape(re.sub("<.*?>", "", c))))
            got[int(m[2]), tuple(cells)] += 1
            order.append(int(m[2]))
            ctx.ev("elements", len(cells))
        cv = Counter(W)
        idx = {w: i for i, w in reversed(list(enumerate(W)))}
        exp = Counter()
        for w, n in cv.items():
            cells = []
            for x, y in res[idx[w]]["alignment"]:
                cells.append(("lightgreen", str(y)) if x != ">>" and y != ">>" else ("orange", "(LM)" + str(x)) if y == ">>" else ("violet", "(MM)" + str(y)))
            exp[n, tuple(cells)] += 1
        ctx.check(got == exp, "alignments:rows", "rows differ", extra=list(got - exp)[:2], missing=list(exp - got)[:2])
        ctx.check(order == sorted(order, reverse=True), "alignments:order", "not by decreasing frequency")
    ctx.nontrivial(kind, len(W), len(nodes), len(edges))


def fam_ocel(ctx):
    r = ctx.rng
    a = mk(ctx)
    oc = a.build()
    kind = r.choice(["ocdfg", "ocdfg", "ograph", "ocpn"])
    if kind == "ograph":
        g = pm4py.discover_objects_graph(oc, graph_type=r.choice(["object_interaction", "object_descendants", "object_inheritance", "object_cobirth", "object_codeath"]))
        if not g:
            return
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_object_graph(oc, g, p), "save_vis_object_graph")
        iso(ctx, plain(nodes, edges), ([(x, x) for x in {y for e in g for y in e}], [(x, y, "") for x, y in g]), "ograph")
    elif kind == "ocpn":
        m = pm4py.discover_oc_petri_net(oc)
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_ocpn(m, p), "save_vis_ocpn")
        exp, ed = [(x, x) for x in m["activities"]], []
        for ot, (net, im, fm) in m["petri_nets"].items():
            for p in net.places:
                exp.append((id(p), ot if p in im or p in fm else ""))
            for t in net.transitions:
                if t.label is None:
                    exp.append((id(t), ""))
            k = lambda x: x.label if isinstance(x, PetriNet.Transition) and x.label is not None else id(x)
            ed += [(k(x.source), k(x.target), "") for x in net.arcs]
        # diagnostics of the token-based replay override the labels
        strip = lambda l: "" if re.match(r"p=\d+ m=\d+", l) else l
        if any(m.get("tbr_results", {}).values()):
            ctx.ev("with diagnostics")
            exp = [(n, l if n in m["activities"] else "") for n, l in exp]
            got = plain(nodes, edges)
            got = [(n, strip(l)) for n, l in got[0]], [(x, y, "") for x, y, _ in got[1]]
        else:
            got = plain(nodes, edges)
        iso(ctx, got, (exp, ed), "ocpn")
    else:
        g = pm4py.discover_ocdfg(oc)
        if not any(g["edges"]["event_couples"].values()):
            return
        am, em = r.choice(["events", "unique_objects", "total_objects"]), r.choice(["event_couples", "unique_objects", "total_objects"])
        ann = "performance" if em != "unique_objects" and r.random() < .4 else "frequency"
        at, et = r.choice([0, 0, 2, 3]), r.choice([0, 0, 2])
        agg = r.choice(["mean", "median", "min", "max", "sum"])
        b = copy.deepcopy(g)
        nodes, edges, _ = load(ctx, lambda p: pm4py.save_vis_ocdfg(g, p, annotation=ann, act_metric=am, edge_metric=em, act_threshold=at, edge_threshold=et, performance_aggregation=agg), "save_vis_ocdfg")
        ctx.check(g == b, "ocdfg:mutation", "the graph was changed")
        pre = {"events": "E=", "unique_objects": "UO=", "total_objects": "TO="}
        ep = {"event_couples": "EC=", "unique_objects": "UO=", "total_objects": "TO="}[em]
        ac = {x: len(v) for x, v in g["activities_indep"][am].items() if len(v) >= at}
        exp = [(x, f"{x}\n{pre[am]}{n}" if ann == "frequency" else x) for x, n in ac.items()]
        ed = []
        for ot, m in g["edges"][em].items():
            for (x, y), v in m.items():
                if x in ac and y in ac and len(v) >= et:
                    if ann == "frequency":
                        ed.append((x, y, f"{ot} {ep}{len(v)}"))
                    else:
                        d = g["edges_performance"][em][ot][x, y]
                        from statistics import mean, median
                        ed.append((x, y, f"{ot} {ep}{hum({'mean': mean, 'median': median, 'min': min, 'max': max, 'sum': sum}[agg](d))}"))
        for side, key in (("s", "start_activities"), ("e", "end_activities")):
            for ot, m in g[key][am].items():
                k = [x for x, v in m.items() if x in ac and len(v) >= et]
                if k:
                    exp.append(((side, ot), ot))
                    for x in k:
                        l = f"{ot} {ep}{len(m[x])}" if ann == "frequency" else ""
                        ed.append(((side, ot), x, l) if side == "s" else (x, (side, ot), l))
        iso(ctx, plain(nodes, edges), (exp, ed), "ocdfg", am=am, em=em, ann=ann, at=at, et=et)
    ctx.nontrivial(kind, len(nodes), len(edges))


FAMILIES = {"dfg": (90, 1000, fam_dfg), "net": (90, 1000, fam_net), "tree": (70, 800, fam_tree), "bpmn": (70, 800, fam_bpmn), "powl": (70, 800, fam_powl), "misc": (170, 2000, fam_misc), "ocel": (110, 1200, fam_ocel)}
