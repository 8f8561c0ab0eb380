"""C34: stochastic languages are relative frequencies; the earth mover's distance is the optimal transport cost under the normalised edit distance"""
import random as pyrandom
import numpy as np
import pm4py
from pm4py.objects.petri_net.obj import Marking
from collections import Counter
from fractions import Fraction
from scipy.optimize import linprog
from rv import gen, h, ref
from rv.ref import Net, model_net
from rv.checks.c15 import Lang, seed, words

RULE = ("the stochastic language of a log maps each variant to its share of the cases; the one of a model is the one of its play-out and contains only words of the model; compute_emd equals the optimum of an independent "
        "transport linear program under the normalised edit distance, is symmetric, 0 for equal and positive for different languages, at most 1; edit distances and nearest/farthest strings match an independent dynamic program")
ASSUMPTIONS = ["languages sum to one", "numerical tolerance 1e-6 on the distance"]
MINIMUM = {"oracle_checks": 1500, "distances": 500}


def lev(a, b):
    p = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        q = [i]
        for j, y in enumerate(b, 1):
            q.append(min(p[j] + 1, q[-1] + 1, p[j - 1] + (x != y)))
        p = q
    return p[-1]


def nd(a, b):
    return lev(a, b) / max(len(a), len(b)) if a or b else 0.0


def transport(l1, l2, d=nd):
    A, B = list(l1), list(l2)
    n, m = len(A), len(B)
    c = np.array([[d(a, b) for b in B] for a in A]).ravel()
    eq, rhs = [], []
    for i in range(n):
        r = np.zeros(n * m)
        r[i * m:(i + 1) * m] = 1
        eq.append(r)
        rhs.append(l1[A[i]])
    for j in range(m):
        r = np.zeros(n * m)
        r[j::m] = 1
        eq.append(r)
        rhs.append(l2[B[j]])
    # the last constraint is implied (equal sums): dropped to tolerate rounding
    s = linprog(c, A_eq=np.array(eq[:-1]), b_eq=np.array(rhs[:-1]), bounds=(0, None), method="highs")
    return float(s.fun)


def rand_lang(rng, base=None, empty=0.3):
    acts = rng.choice([["a", "b"], ["a", "b", "c"], ["a b", "b", "é", "c", "Ab"]])
    words_ = {tuple(rng.choice(acts) for _ in range(rng.randint(0 if rng.random() < empty else 1, 5))) for _ in range(rng.randint(1, 7))}
    if base:
        words_ |= {w for w in base if rng.random() < .6}
        for w in list(base)[:2]:
            if w and rng.random() < .5:
                k = rng.randrange(len(w))
                words_.add(w[:k] + w[k + 1:])
    ws = sorted(words_)
    rng.shuffle(ws)
    k = [rng.randint(1, 9) for _ in ws]
    return {w: x / sum(k) for w, x in zip(ws, k)}


def fam_emd(ctx):
    r = ctx.rng
    l1 = rand_lang(r)
    l2 = rand_lang(r, l1)
    b1, b2 = dict(l1), dict(l2)
    e = ctx.call("compute_emd", pm4py.compute_emd, l1, l2)
    exp = transport(l1, l2)
    ctx.check(abs(e - exp) < 1e-6, "emd:optimal", "not the optimal transport cost", got_value=float(e), optimum=exp, l1=l1, l2=l2)
    f = ctx.call("compute_emd", pm4py.compute_emd, l2, l1)
    ctx.check(abs(e - f) < 1e-6, "emd:symmetric", "not symmetric", ab=float(e), ba=float(f))
    ctx.check(-1e-9 <= e <= 1 + 1e-9, "emd:range", "outside [0, 1]", value=float(e))
    z = ctx.call("compute_emd", pm4py.compute_emd, l1, dict(reversed(list(l1.items()))))
    ctx.check(abs(z) < 1e-9, "emd:zero", "a language has a positive distance from itself", value=float(z))
    if any(abs(l1.get(w, 0) - l2.get(w, 0)) > 1e-6 for w in {*l1, *l2}):
        ctx.check(e > 1e-9, "emd:positive", "different languages have distance 0", value=float(e))
    # disjoint alphabets: distance one (when no empty trace is common)
    l3 = {tuple("z" + a for a in w): p for w, p in l2.items() if w}
    if l3 and () not in l1:
        s = sum(l3.values())
        l3 = {w: p / s for w, p in l3.items()}
        o = ctx.call("compute_emd", pm4py.compute_emd, l1, l3)
        ctx.check(abs(o - 1) < 1e-6, "emd:disjoint", "disjoint alphabets must have distance 1", value=float(o))
    # another ground distance
    from pm4py.algo.evaluation.earth_mover_distance import algorithm as emd
    disc = lambda a, b: float(a != b)
    o = ctx.call("emd with a given distance", emd.apply, l1, l2, parameters={"string_distance": disc})
    tv = sum(abs(l1.get(w, 0) - l2.get(w, 0)) for w in {*l1, *l2}) / 2
    ctx.check(abs(o - tv) < 1e-6, "emd:ground", "the discrete distance gives the total variation distance", value=float(o), expected_value=tv)
    ctx.check(l1 == b1 and l2 == b2 and list(l1) == list(b1), "input_changed", "the languages have been changed")
    ctx.ev("distances", 4)
    ctx.nontrivial("emd", len(l1), len(l2), round(exp, 3))


def fam_log(ctx):
    r = ctx.rng
    al = gen.rand_alog(r, ties=r.choice([0, .3]))
    langs = []
    c = Counter(tuple(e["concept:name"] for e in ev) for _, _, ev in al.cases)
    exp = {w: Fraction(n, len(al.cases)) for w, n in c.items()}
    for nm, o, kw in h.both(r, al, alt=False):
        g = ctx.call("get_stochastic_language", pm4py.get_stochastic_language, o)
        ctx.check(set(g) == set(exp) and all(abs(g[w] - float(exp[w])) < 1e-9 for w in exp), "log:language", "not the relative frequencies of the variants", view=nm, got_value=dict(g), expected_value={w: float(x) for w, x in exp.items()})
        ctx.check(abs(sum(g.values()) - 1) < 1e-9, "log:sum", "does not sum to one")
        langs.append(g)
    z = ctx.call("compute_emd", pm4py.compute_emd, langs[0], langs[1])
    ctx.check(abs(z) < 1e-9, "log:views", "log and dataframe have different languages", value=float(z))
    # a sublog
    keep = [x for x in al.cases if r.random() < .6] or al.cases[:1]
    sub = ctx.call("get_stochastic_language", pm4py.get_stochastic_language, gen.ALog(keep).to_log())
    e = ctx.call("compute_emd", pm4py.compute_emd, langs[0], sub)
    x = transport({w: float(p) for w, p in exp.items()}, sub)
    ctx.check(abs(e - x) < 1e-6, "log:sublog", "not the optimal transport cost", got_value=float(e), optimum=x)
    ctx.ev("distances", 2)
    ctx.nontrivial("log", len(exp), len(al.cases), round(x, 3))


def fam_model(ctx):
    r = ctx.rng
    kind = r.choice(["tree", "net", "net", "dfg"])
    if kind == "dfg":
        tr = gen.rand_traces(r)
        dfg = {(x, y): n for (x, y), n in Counter((x, y) for t in tr for x, y in zip(t, t[1:])).items()}
        sa, ea = dict(Counter(t[0] for t in tr if t)), dict(Counter(t[-1] for t in tr if t))
        if not sa or not dfg:
            return
        args = (dfg, sa, ea)
        ok = lambda w: w and w[0] in sa and w[-1] in ea and all(p in dfg for p in zip(w, w[1:]))
    else:
        t = gen.rand_tree(r, gen.labels(r, r.randint(1, 6)), depth=r.choice([1, 2]), tau=.2, maxleaf=6)
        if kind == "tree":
            args = (gen.to_pt(t),)
            L = Lang(model_net(t))
        else:
            net, po = gen.build_net(*gen.tree_to_net(t))
            im, fm = Marking({po["source"]: 1}), Marking({po["sink"]: 1})
            args = (net, im, fm)
            L = Lang(Net(net, im, fm))
        ok = L.accepts
    k = r.randrange(10 ** 6)
    pyrandom.seed(k), np.random.seed(k)
    kw = {}
    g = ctx.call("get_stochastic_language", pm4py.get_stochastic_language, *args, **kw)
    ctx.check(abs(sum(g.values()) - 1) < 1e-9 and all(p > 0 for p in g.values()), "model:sum", "not a probability distribution", total=float(sum(g.values())))
    for w in list(g)[:60]:
        ctx.check(ok(w) or (kind != "dfg" and len(w) >= 100), "model:word", "a word outside of the language of the model", word=w, kind=kind)
    pyrandom.seed(k), np.random.seed(k)
    log = pm4py.play_out(*args)
    c = Counter(words(log))
    ctx.check(set(c) == set(g) and all(abs(g[w] - n / len(log)) < 1e-9 for w, n in c.items()), "model:playout", "not the relative frequencies of the play-out", kind=kind)
    ctx.ev("distances", 1)
    ctx.nontrivial("model", kind, len(g))


def fam_strings(ctx):
    from pm4py.util import string_distance as sd
    from pm4py.algo.evaluation.earth_mover_distance.variants import pyemd
    r = ctx.rng
    al = r.choice(["ab", "abc", "aé☃", "ab cd"])
    s = lambda: "".join(r.choice(al) for _ in range(r.randint(0, 9)))
    for _ in range(12):
        a, b = s(), s()
        if r.random() < .4:
            b = a[:r.randint(0, len(a))] + s()[:2] + a[r.randint(0, len(a)):]
        ctx.eq(sd.levenshtein(a, b), lev(a, b), "strings:levenshtein", a=a, b=b)
        ctx.eq(sd.levenshtein_distance(a, b), lev(a, b), "strings:levenshtein", a=a, b=b)
        ctx.check(abs(pyemd.normalized_levensthein(a, b) - nd(a, b)) < 1e-9, "strings:normalised", "wrong value", a=a, b=b)
    q, xs = s(), [s() for _ in range(r.randint(0, 7))]
    m, M = ctx.call("argmin", sd.argmin_levenshtein, q, list(xs)), ctx.call("argmax", sd.argmax_levenshtein, q, list(xs))
    if xs:
        ctx.check(m in xs and lev(q, m) == min(lev(q, x) for x in xs), "strings:argmin", "not a nearest string", q=q, xs=xs, chosen=m)
        best = max(lev(q, x) for x in xs)
        ctx.check((M is None and best == 0) or (M in xs and lev(q, M) == best), "strings:argmax", "not a farthest string", q=q, xs=xs, chosen=M)
    else:
        ctx.check(m is None and M is None, "strings:none", "a string out of nothing")
    ctx.ev("distances", 14)
    ctx.nontrivial("strings", q, len(xs))


FAMILIES = {"emd": (200, 3000, fam_emd), "log": (80, 1200, fam_log), "model": (60, 800, fam_model), "strings": (60, 800, fam_strings)}
