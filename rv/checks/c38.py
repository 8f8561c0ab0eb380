"""C38 rediscovery: logs played out of known models (own play-out, complete up to the own footprint of the model) are mined,
and the language of the discovered model is compared with the language of the known model by an exact product search"""
from collections import Counter
import pm4py
from rv import gen, ref, h

RULE = ("own play-out until the log shows every start, end and directly-follows relation of the known model (own footprint calculus); "
        "own exact comparison of the languages of the known and the discovered model; shortest distinguishing trace reported")
ASSUMPTIONS = ["models of at most 10 activities, every activity once, loops whose body cannot start and end with the same activity (the class on which the miners promise rediscovery)",
               "alpha miners: a unique first and a unique last activity, loops only inside sequences; heuristics miners: a unique first and last activity, only sequences and choices; DFG based mining: loops whose body cannot follow itself without the redo part"]
MINIMUM = {"models rediscovered": 300, "product states compared": 1500}
CASE_CPU = 150


def in_class(t):
    if t[0] in ("a", "tau"):
        return True
    if t[0] == "*":
        S, E, _, n = ref.footprint(t[1][0])
        if S & E or n:
            return False
    return all(in_class(c) for c in t[1])


def optional(r, t, p):
    """children of sequences become skippable, as long as one of each sequence is not"""
    if t[0] == "a":
        return t
    ch = [optional(r, c, p) for c in t[1]]
    if t[0] == "->":
        keep = r.randrange(len(ch))
        ch = [("X", [("tau",), c]) if i != keep and r.random() < p else c for i, c in enumerate(ch)]
    return (t[0], ch)


def has_loop(t):
    return t[0] == "*" or (t[0] not in ("a", "tau") and any(has_loop(c) for c in t[1]))


def ambiguous_loop(t):
    """the body of a loop may follow itself according to the directly-follows relation of the body alone"""
    if t[0] in ("a", "tau"):
        return False
    if t[0] == "*":
        S, E, D, _ = ref.footprint(t[1][0])
        if any((e, s) in D for e in E for s in S):
            return True
    return any(ambiguous_loop(c) for c in t[1])


def model(ctx, opt=0.0, ops=("->", "X", "+", "*")):
    r = ctx.rng
    while True:
        t = gen.rand_tree(r, gen.labels(r, 10, hostile=r.random() < 0.2), ops=ops, tau=0, maxleaf=r.choice([3, 4, 5, 6, 7, 7, 10]))
        if "tau" in str([x for x in flat(t)]) or gen.tree_size(t) < 2:
            continue
        if opt:
            t = optional(r, t, opt)
        if in_class(t):
            return t


def flat(t):
    return [t[0]] if t[0] in ("a", "tau") else [t[0]] + [x for c in t[1] for x in flat(c)]


def complete_log(ctx, t):
    """traces showing the complete footprint"""
    r = ctx.rng
    S, E, D, n = ref.footprint(t)
    need = {(0, a) for a in S} | {(1, a) for a in E} | set((2,) + e for e in D)
    out, have = [], set()
    for k in range(6000):
        w = gen.play_tree(r, t, 0.5)
        if not w:
            continue
        f = {(0, w[0]), (1, w[-1])} | {(2, x, y) for x, y in zip(w, w[1:])}
        if not f <= need:
            raise ref.TooBig()          # cannot happen: own footprint and own play-out disagree
        if f - have or r.random() < 0.1:
            out.append(w)
            have |= f
        if have == need and k > 3:
            ctx.ev("relations shown", len(need))
            r.shuffle(out)
            return out
    return None


def raw(t):
    return ref.RawNet(gen.tree_to_net(t)[1], {"source": 1}, {"sink": 1})


def same(ctx, t, got, tag, **d):
    """got: ref.Net"""
    N = t if isinstance(t, ref.Net) else raw(t)
    try:
        diff = ref.lang_diff(got, N, 4000, 3000)
    except ref.TooBig:
        ctx.ev("state space too large")
        return
    ctx.ev("models rediscovered")
    ctx.ev("product states compared", 1 + len(N.trans) + len(got.trans))
    if diff:
        tr, a, b = diff
        ctx.fail(f"{tag}:language", f"{list(tr)} is {'accepted' if a else 'rejected'} by the discovered model and {'accepted' if b else 'rejected'} by the known one", known="partial order" if isinstance(t, ref.Net) else gen.tree_str(t), **d)


def setup(ctx, **kw):
    t = model(ctx, **kw)
    traces = complete_log(ctx, t)
    if traces is None:
        return None
    al = gen.rand_alog(ctx.rng, traces=traces)
    how, L, k = ctx.rng.choice(h.both(ctx.rng, al))
    return t, traces, how, L, k


def net(x):
    return ref.Net(*x)


def im(ctx):
    """inductive miner on logs: the tree, the net, the BPMN diagram"""
    r = ctx.rng
    s = setup(ctx, opt=r.choice([0, 0, 0.3, 0.5]))
    if s is None:
        return
    t, traces, how, L, kw = s
    d = dict(log=traces, input=how)
    th = r.choice([0.0, 0.0, 0.0, 1e-9])
    d["noise_threshold"] = th
    if th:
        tag = "imf"
    else:
        tag = "im"
    k = r.random()
    if k < 0.5:
        m = ctx.call(tag, pm4py.discover_process_tree_inductive, L, noise_threshold=th, multi_processing=False, **kw)
        g = gen.from_pt(m)
        same(ctx, t, raw(g), tag, found=gen.tree_str(g), **d)
    elif k < 0.8:
        n = ctx.call(f"{tag}:net", pm4py.discover_petri_net_inductive, L, noise_threshold=th, multi_processing=False, **kw)
        same(ctx, t, net(n), f"{tag}:net", **d)
    else:
        from pm4py.algo.discovery.inductive import algorithm as IM
        from pm4py.util.compression.dtypes import UVCL
        u = UVCL()
        for w in traces:
            u[tuple(w)] += 1
        m = ctx.call(f"{tag}:variants", IM.apply, u, {"multiprocessing": False}, IM.Variants.IM)
        g = gen.from_pt(m)
        same(ctx, t, raw(g), f"{tag}:variants", found=gen.tree_str(g), **d)
    ctx.nontrivial(gen.tree_str(t), th)


def imd(ctx):
    """inductive miner on the directly-follows graph"""
    from pm4py.objects.dfg.obj import DFG
    r = ctx.rng
    for _ in range(50):
        t = model(ctx, opt=r.choice([0, 0.3, 0.5]))
        if not ambiguous_loop(t):
            break
    else:
        return
    S, E, D, _ = ref.footprint(t)
    if r.random() < 0.5:
        dfg = DFG({e: r.randint(1, 9) for e in D}, {a: r.randint(1, 9) for a in S}, {a: r.randint(1, 9) for a in E})
        how = "exact DFG"
    else:
        traces = complete_log(ctx, t)
        if traces is None:
            return
        how, L, kw = r.choice(h.both(r, gen.rand_alog(r, traces=traces)))
        dfg = DFG(*ctx.call("dfg", pm4py.discover_dfg, L, **kw))
    d = dict(dfg=str(sorted(D)), starts=sorted(S), ends=sorted(E), input=how)
    m = ctx.call("imd", pm4py.discover_process_tree_inductive, dfg, multi_processing=False)
    g = gen.from_pt(m)
    same(ctx, t, raw(g), "imd", found=gen.tree_str(g), **d)
    if r.random() < 0.4:
        same(ctx, t, net(ctx.call("imd:net", pm4py.discover_petri_net_inductive, dfg, multi_processing=False)), "imd:net", **d)
    ctx.nontrivial(gen.tree_str(t))


def powl(ctx):
    from pm4py.algo.discovery.powl.inductive.variants.powl_discovery_varaints import POWLDiscoveryVariant as V
    from rv.checks.c17 import PowlNet
    r = ctx.rng
    s = setup(ctx)
    if s is None:
        return
    t, traces, how, L, kw = s
    v = r.choice([V.TREE, V.BRUTE_FORCE, V.MAXIMAL])
    m = ctx.call(f"powl:{v.name}", pm4py.discover_powl, L, variant=v, **kw)
    same(ctx, t, PowlNet(m), f"powl:{v.name}", found=repr(m), log=traces, input=how)
    ctx.nontrivial(gen.tree_str(t), v.name)


def orders(ctx):
    """partial orders of activities and choices: every pair that is not ordered is seen in both orders"""
    from pm4py.algo.discovery.powl.inductive.variants.powl_discovery_varaints import POWLDiscoveryVariant as V
    from rv.checks.c17 import PowlNet
    r = ctx.rng
    n = r.choice([2, 3, 4, 4, 5, 5, 6])
    labs = gen.labels(r, 8, hostile=r.random() < 0.2)
    nodes, left = [], list(labs)
    for i in range(n):
        k = 2 if r.random() < 0.2 and len(left) > n - i else 1
        nodes.append([left.pop() for _ in range(k)])
    p = r.choice([0.2, 0.4, 0.6])
    edge = {(i, j) for i in range(n) for j in range(i + 1, n) if r.random() < p}
    for k in range(n):
        for i in range(n):
            for j in range(n):
                if (i, k) in edge and (k, j) in edge:
                    edge.add((i, j))
    need, have, traces = set(), set(), []
    for i in range(n):
        for j in range(n):
            if i != j and (j, i) not in edge:
                need |= {(a, b) for a in nodes[i] for b in nodes[j]}
    adj = {(a, b) for i in range(n) for j in range(n) if i != j and (j, i) not in edge
           and not any((i, k) in edge and (k, j) in edge for k in range(n)) for a in nodes[i] for b in nodes[j]}
    ends = {(a, "first") for i in range(n) if not any((j, i) in edge for j in range(n)) for a in nodes[i]}
    ends |= {(a, "last") for i in range(n) if not any((i, j) in edge for j in range(n)) for a in nodes[i]}
    for _ in range(4000):
        todo, w = set(range(n)), []
        while todo:
            x = r.choice([x for x in sorted(todo) if not any((y, x) in edge for y in todo)])
            todo.discard(x)
            w.append(r.choice(nodes[x]))
        f = {(w[0], "first", "end"), (w[-1], "last", "end")} | {(w[i], w[j], "ef") for i in range(n) for j in range(i + 1, n)} | {(x, y, "df") for x, y in zip(w, w[1:])}
        if f - have or r.random() < 0.05:
            traces.append(w)
            have |= f
        if {(a, b) for a, b, k in have if k == "end"} >= ends and {(a, b) for a, b, k in have if k == "ef"} >= need and {(a, b) for a, b, k in have if k == "df"} >= adj:
            break
    else:
        return
    trans = []
    for i in range(n):
        pre = {("e", j, i): 1 for j in range(n) if (j, i) in edge}
        pre["in", i] = 1
        post = {("e", i, j): 1 for j in range(n) if (i, j) in edge}
        post["out", i] = 1
        trans += [(f"t{i}{a}", a, pre, post) for a in nodes[i]]
    start = ("start", None, {"i": 1}, {("in", i): 1 for i in range(n)})
    end = ("end", None, {("out", i): 1 for i in range(n)}, {"o": 1})
    names = {}
    def q(d):
        return {names.setdefault(k, f"p{len(names)}"): v for k, v in d.items()}
    N = ref.RawNet([(x, l, q(a), q(b)) for x, l, a, b in trans + [start, end]], q({"i": 1}), q({"o": 1}))
    v = r.choice([V.MAXIMAL, V.BRUTE_FORCE])
    how, L, kw = r.choice(h.both(r, gen.rand_alog(r, traces=traces)))
    m = ctx.call(f"order:{v.name}", pm4py.discover_powl, L, variant=v, **kw)
    same(ctx, N, PowlNet(m), f"order:{v.name}", found=repr(m), log=traces, input=how, order=sorted(edge), nodes=nodes)
    ctx.nontrivial(str(sorted(edge)), v.name)


def loops_in_sequences(t, parent="->"):
    """loops which need no silent transition to be entered and left"""
    if t[0] in ("a", "tau"):
        return True
    if t[0] == "*" and parent != "->":
        return False
    return all(loops_in_sequences(c, t[0]) for c in t[1])


def alpha(ctx):
    """(all loops of this class have at least three activities; alpha+ also gets loops of one and two activities)"""
    from pm4py.algo.discovery.alpha import algorithm as A
    r = ctx.rng
    k = r.random()
    t = model(ctx, ops=("->", "X", "+") if k < 0.35 else ("->", "X", "+", "*"))
    if not loops_in_sequences(t):
        t = model(ctx, ops=("->", "X", "+"))
    short = None
    seq = [t]
    if 0.5 <= k < 0.8:
        short = r.choice(["one", "two", None])
        if short:
            two = ("*", [("a", "short p"), ("a", "short q")])
            one = ("X", [("tau",), ("*", [("a", "short p"), ("tau",)])])
            seq = [("a", "before it"), two if short == "two" else one, ("a", "after it")]
            seq = seq + [t] if r.random() < 0.5 else [t] + seq
    t = ("->", [("a", "begin of it")] + seq + [("a", "end of it")])
    traces = complete_log(ctx, t)
    if traces is None:
        return
    if short:
        traces = traces + [gen.play_tree(r, t, 0.6) for _ in range(30)]
        if short == "two" and not any(w[i:i + 3] == ["short p", "short q", "short p"] for w in traces for i in range(len(w))):
            return
    how, L, kw = r.choice(h.both(r, gen.rand_alog(r, traces=traces)))
    d = dict(log=traces, input=how)
    if k < 0.5:
        n = ctx.call("alpha", pm4py.discover_petri_net_alpha, L, **kw)
        same(ctx, t, net(n), "alpha", **d)
    elif k < 0.8:
        p = {f"pm4py:param:{x}": y for x, y in kw.items()}
        el = L if how == "log" else pm4py.convert_to_event_log(L, **({"case_id_key": kw["case_id_key"]} if "case_id_key" in kw else {}))
        n = ctx.call("alpha+", A.apply, el, p, A.Variants.ALPHA_VERSION_PLUS)
        same(ctx, t, net(n), "alpha+", **d)
    else:
        g, sa, ea = ctx.call("dfg", pm4py.discover_dfg, L, **kw)
        n = ctx.call("alpha:dfg", A.apply_dfg, g)
        same(ctx, t, net(n), "alpha:dfg", **d)
    ctx.nontrivial(gen.tree_str(t))


def heuristics(ctx):
    """sequences and choices: the dependency graph is the model"""
    from pm4py.algo.discovery.heuristics import algorithm as H
    r = ctx.rng
    t = ("->", [("a", "begin of it"), model(ctx, ops=("->", "X")), ("a", "end of it")])
    traces = complete_log(ctx, t)
    if traces is None:
        return
    how, L, kw = r.choice(h.both(r, gen.rand_alog(r, traces=traces)))
    d = dict(log=traces, input=how)
    if r.random() < 0.6:
        n = ctx.call("heuristics", pm4py.discover_petri_net_heuristics, L, **kw)
        same(ctx, t, net(n), "heuristics", **d)
    else:
        el = L if how == "log" else pm4py.convert_to_event_log(L, **({"case_id_key": kw["case_id_key"]} if "case_id_key" in kw else {}))
        n = ctx.call("heuristics++", H.apply, el, {f"pm4py:param:{x}": y for x, y in kw.items()}, H.Variants.PLUSPLUS)
        same(ctx, t, net(n), "heuristics++", **d)
    ctx.nontrivial(gen.tree_str(t))


FAMILIES = {"orders": (200, 3000, orders), "heuristics": (60, 2000, heuristics), "im": (320, 8000, im), "imd": (140, 6000, imd), "powl": (80, 2500, powl), "alpha": (140, 5000, alpha)}
