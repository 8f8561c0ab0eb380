"""C16 inductive miner: the discovered tree / net / BPMN is executed by own semantics against every trace of the log"""
from collections import Counter
import pm4py
from rv import gen, ref, h

RULE = ("own tree acceptance (derivatives), own Petri-net and BPMN token games with exact state spaces: every trace accepted, leaves = activities of the log, soundness")
ASSUMPTIONS = ["soundness of nets whose state space exceeds the cap is only judged through the tree they come from"]
MINIMUM = {"trees judged": 300, "nets judged": 100, "diagrams judged": 60, "traces replayed": 1500}
CASE_CPU = 150


def mk_traces(r):
    k = r.random()
    empty = r.random() < 0.2
    if k < 0.6:
        labs = gen.labels(r, r.choice([1, 2, 3, 4, 5, 6, 7]))
        return gen.rand_traces(r, labs=labs, n=r.choice([1, 2, 3, 5, 8, 12, 20]), maxlen=r.choice([4, 8, 12]), empty=empty)
    if k < 0.75:
        # concurrency and repetition: shuffles of one multiset
        labs = gen.labels(r, r.randint(2, 5), hostile=False)
        base = [r.choice(labs) for _ in range(r.randint(2, 6))]
        return [r.sample(base, len(base)) for _ in range(r.randint(1, 8))]
    if k < 0.9:
        # one activity once per trace / concurrent activity / tau loops
        labs = gen.labels(r, r.randint(2, 5), hostile=False)
        out = []
        for _ in range(r.randint(1, 6)):
            t = [r.choice(labs[1:]) for _ in range(r.randint(0, 6))]
            t.insert(r.randint(0, len(t)), labs[0])
            out.append(t)
        return out
    a = gen.labels(r, 3, hostile=False)
    blocks = [[a[0], a[1]], [a[0]], [a[1], a[2]], [a[2], a[0], a[1]]]
    return [sum((r.choice(blocks) for _ in range(r.randint(1, 4))), []) for _ in range(r.randint(1, 6))]


def judge_tree(ctx, pt, acts, traces, tag, exact=True, **d):
    t = gen.from_pt(pt)
    s = gen.tree_str(t)
    leaves = gen.tree_labels(t)
    ctx.ev("trees judged")
    if exact:
        ctx.check(set(leaves) == acts, f"{tag}:activities", f"{sorted(set(leaves))} vs {sorted(acts)}", tree=s, **d)
    else:
        ctx.check(set(leaves) <= acts, f"{tag}:activities-subset", f"{sorted(set(leaves))} vs {sorted(acts)}", tree=s, **d)
    valid = True

    def rec(n, parent, up):
        nonlocal valid
        if n.parent is not parent:
            valid = False
        if n.operator is None and n.children:
            valid = False
        if n.operator is not None and (not n.children or n.label is not None):
            valid = False
        if str(n.operator) == "*" and len(n.children) != 2:
            valid = False
        for c in n.children:
            rec(c, n, up)
    rec(pt, None, None)
    ctx.check(valid, f"{tag}:structure", "parent/operator/children inconsistent", tree=s, **d)
    if traces is not None:
        for tr in traces:
            ctx.ev("traces replayed")
            if not ref.tree_accepts(t, tr):
                ctx.fail(f"{tag}:fitness", f"trace {tr} not accepted by {s}", **d)
                break
    return t, s


def judge_net(ctx, net, im, fm, acts, traces, tag, exact=True, **d):
    R = ref.Net(net, im, fm)
    ctx.ev("nets judged")
    labs = {t[1] for t in R.trans if t[1] is not None}
    ctx.check(labs == acts if exact else labs <= acts, f"{tag}:activities", f"{sorted(labs)} vs {sorted(acts)}", **d)
    ctx.check(R.is_wf(), f"{tag}:workflow-net", "not a workflow net", **d)
    if R.is_wf():
        s = R.sound(cap=4000, decide_unbounded=True)
        ctx.check(s is not False, f"{tag}:sound", "not sound", **d)
        ctx.ev("soundness decided" if s else "soundness undecided")
        src = [i for i in range(len(R.places)) if not any(i in t[3] for t in R.trans)]
        snk = [i for i in range(len(R.places)) if not any(i in t[2] for t in R.trans)]
        ctx.check(R.im == ((src[0], 1),) and R.fm == ((snk[0], 1),), f"{tag}:markings", f"{im} {fm}", **d)
    if traces is not None:
        for tr in traces:
            try:
                ok = R.accepts(tr, cap=5000)
            except ref.TooBig:
                ctx.ev("cases beyond the reference bound")
                break
            ctx.ev("traces replayed")
            if not ok:
                ctx.fail(f"{tag}:fitness", f"trace {tr} not in the language of the net", **d)
                break
    return R


def judge_bpmn(ctx, b, acts, traces, tag, **d):
    try:
        R = ref.BpmnNet(b)
    except ValueError as e:
        return ctx.fail(f"{tag}:elements", f"{e}", **d)
    ctx.ev("diagrams judged")
    ctx.check(set(R.tasks) == acts, f"{tag}:activities", f"{sorted(set(R.tasks))} vs {sorted(acts)}", **d)
    types = Counter(type(n).__name__ for n in b.get_nodes())
    ctx.check(sum(v for k, v in types.items() if "StartEvent" in k) == 1 and sum(v for k, v in types.items() if "EndEvent" in k) == 1, f"{tag}:events", f"{types}", **d)
    try:
        nodes, edges = R.reach(4000)
        back = {}
        for x, _, y in edges:
            back.setdefault(y, set()).add(x)
        can, st = {R.fm}, [R.fm]
        while st:
            for x in back.get(st.pop(), ()):
                if x not in can:
                    can.add(x)
                    st.append(x)
        ctx.check(R.fm in nodes and nodes <= can, f"{tag}:sound", "a reachable state of the diagram cannot complete properly", **d)
        ctx.check({i for _, i, _ in edges} >= {i for i, t in enumerate(R.trans) if t[1] is not None}, f"{tag}:dead-task", "", **d)
    except ref.TooBig:
        ctx.ev("soundness undecided")
    if traces is not None:
        for tr in traces:
            try:
                ok = R.accepts(tr, cap=5000)
            except ref.TooBig:
                break
            ctx.ev("traces replayed")
            if not ok:
                ctx.fail(f"{tag}:fitness", f"trace {tr} not accepted by the diagram", **d)
                break


def inputs(r, traces):
    """(name, object, kwargs, log?)"""
    if any(not t for t in traces):
        # dataframes cannot hold empty cases
        from rv.checks.c23 import to_trace
        from pm4py.objects.log.obj import EventLog
        return "log", EventLog([to_trace(t) for t in traces]), {}
    al = gen.rand_alog(r, traces=traces)
    return r.choice(h.both(r, al))


def im(ctx):
    from pm4py.algo.discovery.inductive import algorithm as IM
    from pm4py.util.compression.dtypes import UVCL
    r = ctx.rng
    traces = mk_traces(r)
    acts = {a for t in traces for a in t}
    vs = sorted({tuple(t) for t in traces})
    how, L, kw = inputs(r, traces)
    dis = r.random() < 0.25
    d = dict(log=[list(t) for t in traces], input=how, disable_fallthroughs=dis)
    tag = "im" + (":no-fallthroughs" if dis else "")
    pt = ctx.call(tag, pm4py.discover_process_tree_inductive, L, disable_fallthroughs=dis, multi_processing=False, **kw)
    t, s = judge_tree(ctx, pt, acts, vs, tag, **d)
    if len(gen.tree_labels(t)) != len(acts):
        ctx.fail(f"{tag}:duplicates", f"an activity labels several leaves: {s}", **d)
    k = r.random()
    if k < 0.4:
        net = ctx.call(f"{tag}:net", pm4py.discover_petri_net_inductive, L, disable_fallthroughs=dis, multi_processing=False, **kw)
        judge_net(ctx, *net, acts, vs, f"{tag}:net", **d)
    elif k < 0.75:
        b = ctx.call(f"{tag}:bpmn", pm4py.discover_bpmn_inductive, L, disable_fallthroughs=dis, multi_processing=False, **kw)
        judge_bpmn(ctx, b, acts, vs, f"{tag}:bpmn", **d)
    else:
        # variants input, straight into the algorithm
        u = UVCL(Counter(tuple(t) for t in traces))
        p2 = ctx.call(f"{tag}:uvcl", IM.apply, u, variant=IM.Variants.IM, parameters={"multiprocessing": False, "disable_fallthroughs": dis})
        judge_tree(ctx, p2, acts, vs, f"{tag}:uvcl", **d)
    ctx.nontrivial(s)
    ctx.ev("models with fall-through or loop" if "*" in s else "models without loop")


def imf(ctx):
    from pm4py.algo.discovery.inductive import algorithm as IM
    r = ctx.rng
    traces = mk_traces(r)
    acts = {a for t in traces for a in t}
    vs = sorted({tuple(t) for t in traces})
    how, L, kw = inputs(r, traces)
    th = r.choice([0.0, 0.05, 0.2, 0.3, 0.5, 0.8, 1.0])
    d = dict(log=[list(t) for t in traces], input=how, threshold=th)
    if th == 0.0:
        p = {"multiprocessing": False, "noise_threshold": 0.0}
        if "activity_key" in kw:
            from pm4py.util import constants as K
            p.update({K.PARAMETER_CONSTANT_ACTIVITY_KEY: kw["activity_key"], K.PARAMETER_CONSTANT_CASEID_KEY: kw.get("case_id_key", "case:concept:name"), K.PARAMETER_CONSTANT_TIMESTAMP_KEY: kw.get("timestamp_key", "time:timestamp")})
        pt = ctx.call("imf0", IM.apply, L, variant=IM.Variants.IMf, parameters=p)
        t, s = judge_tree(ctx, pt, acts, vs, "imf0", **d)
    else:
        pt = ctx.call("imf", pm4py.discover_process_tree_inductive, L, noise_threshold=th, multi_processing=False, **kw)
        t, s = judge_tree(ctx, pt, acts, None, "imf", exact=False, **d)
        if r.random() < 0.5:
            net = ctx.call("imf:net", pm4py.discover_petri_net_inductive, L, noise_threshold=th, multi_processing=False, **kw)
            judge_net(ctx, *net, acts, None, "imf:net", exact=False, **d)
        else:
            b = ctx.call("imf:bpmn", pm4py.discover_bpmn_inductive, L, noise_threshold=th, multi_processing=False, **kw)
            judge_bpmn(ctx, b, set(gen.tree_labels(t)), None, "imf:bpmn", **d)
    ctx.nontrivial(s, th)


def imd(ctx):
    r = ctx.rng
    from pm4py.objects.dfg.obj import DFG
    if r.random() < 0.6:
        traces = [t for t in mk_traces(r) if t] or [["a"]]
        g, sa, ea = Counter(), Counter(), Counter()
        for t in traces:
            sa[t[0]] += 1
            ea[t[-1]] += 1
            for x, y in zip(t, t[1:]):
                g[x, y] += 1
    else:
        from rv.checks.c24 import rand_dfg
        g, sa, ea = rand_dfg(r, gen.labels(r, r.randint(1, 6), hostile=False))
    acts = {x for e in g for x in e} | set(sa) | set(ea)
    dfg = DFG(dict(g), dict(sa), dict(ea))
    d = dict(dfg=str(dict(g)), sa=str(dict(sa)), ea=str(dict(ea)))
    pt = ctx.call("imd", pm4py.discover_process_tree_inductive, dfg, multi_processing=False)
    t, s = judge_tree(ctx, pt, acts, None, "imd", **d)
    S, E, D, _ = ref.footprint(t)
    for what, want, have in (("start activities", set(sa), S), ("end activities", set(ea), E), ("directly-follows pairs", set(g), D)):
        ctx.ev("relations of the DFG looked for in the model", len(want))
        ctx.check(want <= have, f"imd:{what}", f"the model {s} cannot show {sorted(want - have)}", **d)
    net = ctx.call("imd:net", pm4py.discover_petri_net_inductive, dfg, multi_processing=False)
    judge_net(ctx, *net, acts, None, "imd:net", **d)
    ctx.nontrivial(s)


def mp(ctx):
    """the same logs with multiprocessing on"""
    r = ctx.rng
    traces = mk_traces(r)
    acts = {a for t in traces for a in t}
    vs = sorted({tuple(t) for t in traces})
    how, L, kw = inputs(r, traces)
    d = dict(log=[list(t) for t in traces], input=how)
    pt = ctx.call("mp", pm4py.discover_process_tree_inductive, L, multi_processing=True, **kw)
    t, s = judge_tree(ctx, pt, acts, vs, "mp", **d)
    net = ctx.call("mp:net", pm4py.discover_petri_net_inductive, L, multi_processing=True, **kw)
    judge_net(ctx, *net, acts, vs, "mp:net", **d)
    ctx.ev("multiprocessing runs")
    ctx.nontrivial(s)


FAMILIES = {"im": (320, 8000, im), "imf": (120, 2500, imf), "imd": (80, 1500, imd), "mp": (8, 60, mp)}
