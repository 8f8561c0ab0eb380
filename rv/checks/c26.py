"""C26: quality metrics follow their definitions: fitness aggregates, escaping edges, generalisation, simplicity"""
import copy
import math
import heapq
import pm4py
from pm4py.objects.petri_net.obj import Marking
from rv import gen, ref
from rv.ref import Net
from rv.checks.c13 import lean

RULE = ("every metric is recomputed by an own implementation of its definition: escaping edges over the prefix automaton of the log and an own token game (token-based: on nets where the state after "
        "a prefix is determined; alignment-based: all markings reached with the fewest silent steps), fitness from optimal alignment costs / from the per-case replay counters, generalisation from the number of "
        "executions per transition, simplicity from the arcs; all in [0,1]; the same for logs and dataframes, shuffled and renamed cases")
ASSUMPTIONS = ["token-based precision with silent or duplicate transitions: prefixes counted are those the token-based replay reports as fit; not judged exactly when several states are possible",
               "token-based fitness and generalisation take the replay diagnostics (judged in C25) as input; on nets without silent and duplicate transitions they are recomputed from scratch",
               "extended cardoso: number of distinct places two steps after each place; extended cyclomatic: arcs - nodes + strongly connected components of the reachability graph"]
MINIMUM = {"oracle_checks": 1500, "precision values": 200}


def near(ctx, got, exp, key, **detail):
    return ctx.check(got is not None and abs(got - exp) < 1e-9, key, lambda: f"{got!r} instead of {exp!r}", **detail)


def rng01(ctx, v, key, **detail):
    return ctx.check(isinstance(v, (int, float)) and -1e-12 <= v <= 1 + 1e-12, key + ":range", lambda: f"{v!r} is not in [0,1]", **detail)


def eventually(N, m):
    return frozenset(t[1] for x in N.closure({m}, 3000) for t in N.trans if t[1] is not None and N.enabled(x, t))


def after(N, w):
    """all markings in which the last activity of w has just been executed, with the least number of silent steps so far"""
    best = {(0, N.im): 0}
    heap = [(0, 0, N.im)]
    done = set()
    while heap:
        c, i, m = heapq.heappop(heap)
        if (i, m) in done:
            continue
        done.add((i, m))
        if i == len(w):
            continue
        for t in N.trans:
            if t[1] is None or t[1] == w[i]:
                if N.enabled(m, t):
                    k = (i + (t[1] is not None), N.fire(m, t))
                    nc = c + (t[1] is None)
                    if nc < best.get(k, 10 ** 9):
                        best[k] = nc
                        heapq.heappush(heap, (nc,) + k)
        if len(done) > 5000:
            raise ref.TooBig()
    return {m: c for (i, m), c in best.items() if i == len(w)}


def automaton(words):
    follow, count = {}, {}
    for w in words:
        for i in range(1, len(w)):
            p = w[:i]
            follow.setdefault(p, set()).add(w[i])
            count[p] = count.get(p, 0) + 1
    return follow, count


def escaping(N, words, pick):
    follow, count = automaton(words)
    en = eventually(N, N.im)
    at = len(words) * len(en)
    ee = len(words) * len(en - {w[0] for w in words if w})
    for p in follow:
        act = pick(p)
        if act is not None:
            at += len(act) * count[p]
            ee += len(act - follow[p]) * count[p]
    return 1 - ee / at if at else 1.0


def prec_align(N, words):
    def pick(p):
        ms = after(N, p)
        if not ms:
            return None
        b = min(ms.values())
        return frozenset().union(*[eventually(N, m) for m, c in ms.items() if c == b])
    return escaping(N, words, pick)


class Ambiguous(Exception):
    pass


def known(N, p):
    """the token-based replay skips the activities that are not in the model (default of its parameters)"""
    labs = {t[1] for t in N.trans}
    return tuple(a for a in p if a in labs)


def prec_token(N, words, fit):
    def pick(p):
        if not fit[p]:
            return None
        sets = {eventually(N, m) for m in after(N, known(N, p))}
        if len(sets) != 1:
            raise Ambiguous()
        return sets.pop()
    return escaping(N, words, pick)


def fits(net, im, fm, prefixes):
    """verdict of the token-based replay on the prefixes (no requirement on the remaining tokens)"""
    from pm4py.algo.conformance.tokenreplay.variants import token_replay
    K = token_replay.Parameters
    ps = sorted(prefixes)
    al = gen.ALog([(f"c{i}", {}, [{"concept:name": a} for a in p]) for i, p in enumerate(ps)])
    log = pm4py.objects.log.obj.EventLog()
    from pm4py.objects.log.obj import Trace, Event
    for p in ps:
        log.append(Trace([Event({"concept:name": a}) for a in p]))
    res = token_replay.apply(log, net, im, fm, parameters={K.CONSIDER_REMAINING_IN_FITNESS: False, K.TRY_TO_REACH_FINAL_MARKING_THROUGH_HIDDEN: False, K.STOP_IMMEDIATELY_UNFIT: True,
                                                           K.WALK_THROUGH_HIDDEN_TRANS: True, K.SHOW_PROGRESS_BAR: False})
    return {p: r["trace_is_fit"] for p, r in zip(ps, res)}


def trie(words):
    """net that allows exactly the traces of the log"""
    places, trans, node = ["source", "sink"], [], {(): "source"}
    for w in sorted(set(words)):
        for i in range(1, len(w) + 1):
            if w[:i] not in node:
                node[w[:i]] = f"n{len(node)}"
                places.append(node[w[:i]])
                trans.append((f"t{len(trans)}", w[i - 1], {node[w[:i - 1]]: 1}, {node[w[:i]]: 1}))
        trans.append((f"end{len(trans)}", None, {node[w]: 1}, {"sink": 1}))
    net, po = gen.build_net(places, trans)
    return net, Marking({po["source"]: 1}), Marking({po["sink"]: 1})


def model(r, labs):
    """(net, im, fm): block-structured, perturbed, without silent steps, or mined from another log"""
    c = r.random()
    if c < .35:
        return gen.rand_wfnet(r, labs=labs, depth=r.choice([1, 2, 3]), dup=r.choice([0, 0, .3]), extra=r.choice([0, .4]), maxleaf=6)[:3] + ("tree",)
    if c < .6:
        return lean(r, labs) + ("lean",)
    if c < .8:
        # a state machine / marked graph without silent transitions
        n = r.randint(2, 5)
        places = ["source"] + [f"p{i}" for i in range(n)] + ["sink"]
        trans, av = [], list(labs)
        r.shuffle(av)
        for i, a in enumerate(av):
            k = r.choice([1, 1, 1, 2])
            x = places[0] if i == 0 else r.choice(places[:-1])
            trans.append((f"t{i}", a, {x: 1}, {p: 1 for p in r.sample(places[1:], k)}))
        net, po = gen.build_net(places, trans)
        return net, Marking({po["source"]: 1}), Marking({po["sink"]: 1}), "free"
    t = gen.rand_tree(r, labs, depth=2, maxleaf=6, tau=.2)
    from pm4py.objects.conversion.process_tree import converter
    return tuple(pm4py.convert_to_petri_net(gen.to_pt(t))) + ("tree",)


def walk(r, N, n=8):
    m, w = N.im, []
    for _ in range(3 * n):
        ts = list(N.succ(m))
        if not ts or (m == N.fm and r.random() < .6) or len(w) >= n:
            break
        t, m = r.choice(ts)
        if t[1] is not None:
            w.append(t[1])
    return w


def sublog(r, N, labs):
    out = []
    for _ in range(r.randint(1, 8)):
        w = walk(r, N)
        if r.random() < .3 and w:
            k = r.choice(["del", "ins", "swap"])
            i = r.randrange(len(w))
            if k == "del":
                del w[i]
            elif k == "ins":
                w.insert(i, r.choice(list(labs) + ["other"]))
            else:
                j = r.randrange(len(w))
                w[i], w[j] = w[j], w[i]
        if w:
            out.append(tuple(w))
    while out and r.random() < .4:
        out.append(r.choice(out))
    return out


def desc(N):
    return [(t[1], {N.places[p].name: w for p, w in t[2].items()}, {N.places[p].name: w for p, w in t[3].items()}) for t in N.trans]


def guarded(f):
    def g(ctx):
        try:
            f(ctx)
        except ref.TooBig:
            ctx.ev("beyond the reference bound")
    return g


KW = dict(activity_key="act", timestamp_key="ts", case_id_key="case:concept:name")


def variants_of_log(r, al):
    """the same cases: as log, as dataframe, shuffled and renamed, with other columns"""
    import random
    out = [("log", al.to_log(), {}), ("dataframe", al.to_df(), {})]
    cases = [(f"x{i}", c[1], c[2]) for i, c in enumerate(al.cases)]
    r.shuffle(cases)
    sh = gen.ALog(cases)
    out.append(("shuffled log", sh.to_log(), {}))
    df = sh.to_df().rename(columns={"concept:name": "act", "time:timestamp": "ts", "case:concept:name": "id"})
    df["concept:name"] = "decoy"
    out.append(("renamed columns", df, dict(activity_key="act", timestamp_key="ts", case_id_key="id")))
    return out


@guarded
def fam_precision(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6))
    net, im, fm, kind = model(r, labs)
    N = Net(net, im, fm)
    N.reach(300)
    words = sublog(r, N, labs)
    if not words:
        return
    ctx.nontrivial(repr(desc(N)), tuple(sorted(words)))
    ctx.sample({"net": repr(desc(N)), "log": words})
    al = gen.rand_alog(r, traces=[list(w) for w in words], distinct_time=True)
    v = variants_of_log(r, al)
    labels_ = [t[1] for t in N.trans]
    determined = None not in labels_ and len(set(labels_)) == len(labels_)
    d = {"model": desc(N), "traces": words}
    p = ctx.call("precision_token_based_replay", pm4py.precision_token_based_replay, v[0][1], net, im, fm)
    ctx.ev("precision values")
    rng01(ctx, p, "precision-token", **d)
    follow, _ = automaton(words)
    try:
        fit = {q: bool(after(N, known(N, q))) for q in follow} if determined else fits(net, im, fm, follow)
        near(ctx, p, prec_token(N, words, fit), "precision-token:definition", **d)
        ctx.ev("token-based precision judged exactly")
    except Ambiguous:
        ctx.ev("state after a prefix not determined")
    for name, log, kw in v[1:]:
        near(ctx, ctx.call("precision_token_based_replay", pm4py.precision_token_based_replay, log, net, im, fm, **kw), p, "precision-token:depends-on-representation", kind=name, **d)
    easy = N.fm in N.reach(300)[0]
    if easy:
        e = prec_align(N, words)
        for name, log, kw in v:
            q = ctx.call("precision_alignments", pm4py.precision_alignments, log, net, im, fm, **kw)
            ctx.ev("precision values")
            rng01(ctx, q, "precision-alignments", **d)
            near(ctx, q, e, "precision-alignments:definition" if name == "log" else "precision-alignments:depends-on-representation", kind=name, **d)
    # default variant of the evaluator
    from pm4py.algo.evaluation.precision import algorithm as pe
    near(ctx, ctx.call("precision evaluator", pe.apply, v[0][1], net, im, fm), e if easy else p, "precision:default-variant", **d)
    # a model that allows nothing beyond the log
    tn, ti, tf = trie(words)
    near(ctx, ctx.call("precision_token_based_replay", pm4py.precision_token_based_replay, v[1][1], tn, ti, tf), 1.0, "precision-token:exact-model", traces=words)
    near(ctx, ctx.call("precision_alignments", pm4py.precision_alignments, v[1][1], tn, ti, tf), 1.0, "precision-alignments:exact-model", traces=words)


@guarded
def fam_fitness(ctx):
    r = ctx.rng
    labs = gen.labels(r, r.randint(2, 6))
    net, im, fm, kind = model(r, labs)
    N = Net(net, im, fm)
    N.reach(300)
    words = sublog(r, N, labs)
    if not words:
        return
    ctx.nontrivial(repr(desc(N)), tuple(sorted(words)))
    ctx.sample({"net": repr(desc(N)), "log": words})
    al = gen.rand_alog(r, traces=[list(w) for w in words], distinct_time=True)
    v = variants_of_log(r, al)
    d = {"model": desc(N), "traces": words}
    if N.fm in N.reach(300)[0]:
        short = N.align_cost(())
        cost = {w: N.align_cost(w) for w in set(words)}
        # N.align_cost: unit costs for visible model moves and log moves
        worst = {w: len(w) + short for w in cost}
        f = {w: 1 - cost[w] / worst[w] if worst[w] else 1.0 for w in cost}
        for name, log, kw in v:
            res = ctx.call("fitness_alignments", pm4py.fitness_alignments, log, net, im, fm, **kw)
            key = "fitness-alignments" + ("" if name == "log" else ":" + name.replace(" ", "-"))
            rng01(ctx, res["average_trace_fitness"], key, **d)
            rng01(ctx, res["log_fitness"], key, **d)
            near(ctx, res["average_trace_fitness"], sum(f[w] for w in words) / len(words), f"{key}:average", **d)
            near(ctx, res["averageFitness"], res["average_trace_fitness"], f"{key}:alias", **d)
            near(ctx, res["percentage_of_fitting_traces"], 100 * sum(cost[w] == 0 for w in words) / len(words), f"{key}:percentage", **d)
            near(ctx, res["percFitTraces"], res["percentage_of_fitting_traces"], f"{key}:alias", **d)
            s = sum(worst[w] for w in words)
            # the silent steps of optimal alignments have a cost of 1 against 10000
            ctx.check(abs(res["log_fitness"] - (1 - sum(cost[w] for w in words) / s)) < 2e-2, f"{key}:log-fitness", lambda: f"{res['log_fitness']}", **d)
        diag = pm4py.conformance_diagnostics_alignments(v[0][1], net, im, fm)
        bw = sum(a["bwc"] for a in diag)
        near(ctx, pm4py.fitness_alignments(v[0][1], net, im, fm)["log_fitness"], 1 - sum(a["cost"] for a in diag) / bw if bw else 1.0, "fitness-alignments:aggregation", **d)
        ctx.ev("alignment fitness values")
    # token-based
    for name, log, kw in v:
        diag = ctx.call("token-based replay", pm4py.conformance_diagnostics_token_based_replay, log, net, im, fm, **kw)
        res = ctx.call("fitness_token_based_replay", pm4py.fitness_token_based_replay, log, net, im, fm, **kw)
        m, c, rm, p = (sum(x[k] for x in diag) for k in ("missing_tokens", "consumed_tokens", "remaining_tokens", "produced_tokens"))
        ctx.eq(len(diag), len(words), "fitness-tbr:cases")
        key = "fitness-tbr" + ("" if name == "log" else ":" + name.replace(" ", "-"))
        near(ctx, res["log_fitness"], .5 * (1 - m / c) + .5 * (1 - rm / p), f"{key}:log-fitness", **d)
        near(ctx, res["average_trace_fitness"], sum(x["trace_fitness"] for x in diag) / len(diag), f"{key}:average", **d)
        near(ctx, res["perc_fit_traces"], 100 * sum(bool(x["trace_is_fit"]) for x in diag) / len(diag), f"{key}:percentage", **d)
        near(ctx, res["percentage_of_fitting_traces"], res["perc_fit_traces"], f"{key}:alias", **d)
        rng01(ctx, res["log_fitness"], key, **d)
        rng01(ctx, res["average_trace_fitness"], key, **d)
        if name == "log":
            base, first = res, diag
        else:
            for k in res:
                near(ctx, res[k], base[k], "fitness-tbr:depends-on-representation", kind=name, **d)
    g = None
    occ = {}
    for x in first:
        for t in x["activated_transitions"]:
            occ[t] = occ.get(t, 0) + 1
    exp = 1 - sum(1 / math.sqrt(occ[t]) if t in occ else 1 for t in net.transitions) / len(net.transitions)
    for name, log, kw in v:
        g = ctx.call("generalization_tbr", pm4py.generalization_tbr, log, net, im, fm, **kw)
        near(ctx, g, exp, "generalization:definition" if name == "log" else "generalization:depends-on-representation", kind=name, **d)
        rng01(ctx, g, "generalization", **d)
    labels_ = [t[1] for t in N.trans]
    if None not in labels_ and len(set(labels_)) == len(labels_) and all(N.accepts(w) for w in set(words)):
        cnt = {}
        for w in words:
            for a in w:
                cnt[a] = cnt.get(a, 0) + 1
        near(ctx, g, 1 - sum(1 / math.sqrt(cnt[a]) if a in cnt else 1 for a in labels_) / len(labels_), "generalization:from-the-log", **d)
        near(ctx, base["log_fitness"], 1.0, "fitness-tbr:fitting-log", **d)
        ctx.ev("fitting logs")
    # simplicity
    deg = [len(x.in_arcs) + len(x.out_arcs) for x in list(net.places) + list(net.transitions)]
    s = ctx.call("simplicity", pm4py.simplicity_petri_net, net, im, fm)
    near(ctx, s, 1 / (1 + max(sum(deg) / len(deg) - 2, 0)), "simplicity:arc-degree", **d)
    rng01(ctx, s, "simplicity", **d)
    from pm4py.algo.evaluation.simplicity import algorithm as se
    k = r.choice([0, 1, 3])
    near(ctx, ctx.call("simplicity with k", se.apply, net, parameters={"k": k}), 1 / (1 + max(sum(deg) / len(deg) - k, 0)), "simplicity:k", **d)
    card = len({(a, b) for t in N.trans for a in t[2] for b in t[3]})
    ctx.eq(ctx.call("extended cardoso", pm4py.simplicity_petri_net, net, im, fm, variant="extended_cardoso"), card, "simplicity:extended-cardoso", **d)
    ms, edges = N.reach(300)
    ctx.eq(ctx.call("extended cyclomatic", pm4py.simplicity_petri_net, net, im, fm, variant="extended_cyclomatic"), len(edges) - len(ms) + sccs(ms, edges), "simplicity:extended-cyclomatic", **d)
    # all in one
    from pm4py.algo.evaluation import algorithm as ev
    w = [r.choice([0, 1, 2]) + .1 for _ in range(4)]
    K = ev.Parameters
    a = ctx.call("evaluation", ev.apply, v[0][1], net, im, fm, parameters={K.PARAM_FITNESS_WEIGHT: w[0], K.PARAM_PRECISION_WEIGHT: w[1], K.PARAM_SIMPLICITY_WEIGHT: w[2], K.PARAM_GENERALIZATION_WEIGHT: w[3]})
    pr = pm4py.precision_token_based_replay(v[0][1], net, im, fm)
    vals = [base["log_fitness"], pr, s, g]
    near(ctx, a["metricsAverageWeight"], sum(x * y for x, y in zip(w, vals)) / sum(w), "evaluation:weighted-average", **d)
    near(ctx, a["fscore"], 2 * vals[0] * pr / (vals[0] + pr) if vals[0] + pr > 0 else 0, "evaluation:fscore", **d)
    near(ctx, a["precision"], pr, "evaluation:precision", **d)
    near(ctx, a["generalization"], g, "evaluation:generalization", **d)
    near(ctx, a["fitness"]["log_fitness"], base["log_fitness"], "evaluation:fitness", **d)


def sccs(ms, edges):
    import networkx as nx
    g = nx.DiGraph()
    g.add_nodes_from(ms)
    g.add_edges_from((a, b) for a, _, b in edges)
    return nx.number_strongly_connected_components(g)


FAMILIES = {"precision": (160, 4000, fam_precision), "fitness": (120, 3000, fam_fitness)}
