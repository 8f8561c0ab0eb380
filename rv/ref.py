"""Independent reference semantics used as oracles (no pm4py algorithm code)."""
import heapq
import itertools
from functools import lru_cache


# ---------------------------------------------------------------- process trees
class TooBig(Exception):
    pass


def _shuffle2(a, b):
    out = set()
    for x in a:
        for y in b:
            out |= _sh(x, y)
    return out


@lru_cache(maxsize=200000)
def _sh(x, y):
    if not x:
        return frozenset([y])
    if not y:
        return frozenset([x])
    return frozenset([(x[0],) + r for r in _sh(x[1:], y)] + [(y[0],) + r for r in _sh(x, y[1:])])


def tree_lang(t, k, cap=20000):
    """language of an AST up to traces of length k"""
    def cut(s):
        s = {x for x in s if len(x) <= k}
        if len(s) > cap:
            raise TooBig()
        return s

    def cat(a, b):
        return cut({x + y for x in a for y in b if len(x) + len(y) <= k})

    def shuf(a, b):
        out = set()
        for x in a:
            for y in b:
                if len(x) + len(y) <= k:
                    out |= _sh(x, y)
                    if len(out) > cap:
                        raise TooBig()
        return out

    def rec(t):
        op = t[0]
        if op == "a":
            return {(t[1],)} if k >= 1 else set()
        if op == "tau":
            return {()}
        ls = [rec(c) for c in t[1]]
        if op == "->":
            r = {()}
            for l in ls:
                r = cat(r, l)
            return r
        if op == "X":
            return cut(set().union(*ls))
        if op == "+":
            r = {()}
            for l in ls:
                r = shuf(r, l)
            return r
        if op == "O":
            res = set()
            for m in range(1, len(ls) + 1):
                for sub in itertools.combinations(ls, m):
                    r = {()}
                    for l in sub:
                        r = shuf(r, l)
                    res |= r
            return cut(res)
        if op == "<>":
            res = set()
            for p in itertools.permutations(ls):
                r = {()}
                for l in p:
                    r = cat(r, l)
                res |= r
            return cut(res)
        if op == "*":
            do = ls[0]
            redo = set().union(*ls[1:]) if len(ls) > 1 else set()
            step = cat(redo, do)
            res = set(do)
            frontier = set(do)
            while frontier:
                nxt = cat(frontier, step) - res
                res |= nxt
                frontier = nxt
                if len(res) > cap:
                    raise TooBig()
            return cut(res)
        raise ValueError(op)
    return rec(t)


# --- membership by derivatives on an NFA-free state machine: tree state exploration
# state of a node: hashable; we use "residual" trees: frozenset of residual expressions (Brzozowski-like with Antimirov partial derivatives)
EPS = ("tau",)


def _null(t):
    op = t[0]
    if op == "tau":
        return True
    if op == "a":
        return False
    if op in ("->", "+", "<>"):
        return all(_null(c) for c in t[1])
    if op in ("X", "O"):
        return any(_null(c) for c in t[1])
    if op == "*":
        return _null(t[1][0])
    raise ValueError(op)


def _seq(xs):
    out = []
    for x in xs:
        if x == EPS:
            continue
        if x[0] == "->":
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return EPS
    if len(out) == 1:
        return out[0]
    return ("->", tuple(out))


def _par(xs):
    out = []
    for x in xs:
        if x == EPS:
            continue
        if x[0] == "+":
            out.extend(x[1])
        else:
            out.append(x)
    if not out:
        return EPS
    if len(out) == 1:
        return out[0]
    return ("+", tuple(sorted(out, key=repr)))


def freeze(t):
    return t if t[0] in ("a", "tau") else (t[0], tuple(freeze(c) for c in t[1]))


@lru_cache(maxsize=100000)
def _deriv(t, a):
    """Antimirov partial derivatives of frozen AST t by label a"""
    op = t[0]
    if op == "tau":
        return frozenset()
    if op == "a":
        return frozenset([EPS]) if t[1] == a else frozenset()
    ch = t[1]
    out = set()
    if op == "->":
        for i, c in enumerate(ch):
            for d in _deriv(c, a):
                out.add(_seq([d] + list(ch[i + 1:])))
            if not _null(c):
                break
        return frozenset(out)
    if op == "X":
        for c in ch:
            out |= _deriv(c, a)
        return frozenset(out)
    if op == "+":
        for i, c in enumerate(ch):
            for d in _deriv(c, a):
                out.add(_par([d] + list(ch[:i]) + list(ch[i + 1:])))
        return frozenset(out)
    if op == "O":
        for i, c in enumerate(ch):
            rest = list(ch[:i]) + list(ch[i + 1:])
            for d in _deriv(c, a):
                if rest:
                    out.add(_par([d, ("X", (EPS, ("O", tuple(rest))))]))
                else:
                    out.add(d)
        return frozenset(out)
    if op == "<>":
        for i, c in enumerate(ch):
            rest = list(ch[:i]) + list(ch[i + 1:])
            for d in _deriv(c, a):
                out.add(_seq([d, ("<>", tuple(rest))] if rest else [d]))
        # children that are nullable may be executed (silently) before: already covered since order is free
        return frozenset(out)
    if op == "*":
        do, redos = ch[0], ch[1:]
        again = ("X", (EPS,) + tuple(("->", (r, t)) for r in redos)) if redos else EPS
        for d in _deriv(do, a):
            out.add(_seq([d, again]))
        if _null(do):
            for r in redos:
                for d in _deriv(r, a):
                    out.add(_seq([d, t]))
                # if the redo part is nullable too we are back at the start: nothing new
        return frozenset(out)
    raise ValueError(op)


def footprint(t):
    """(start activities, end activities, directly-follows pairs, accepts the empty trace) of a process tree"""
    op = t[0]
    if op == "tau":
        return set(), set(), set(), True
    if op == "a":
        return {t[1]}, {t[1]}, set(), False
    cs = [footprint(c) for c in t[1]]
    D = set().union(*[c[2] for c in cs])
    S, E = set().union(*[c[0] for c in cs]), set().union(*[c[1] for c in cs])
    if op == "X":
        return S, E, D, any(c[3] for c in cs)
    if op == "->":
        for i in range(len(cs)):
            for j in range(i + 1, len(cs)):
                D |= {(x, y) for x in cs[i][1] for y in cs[j][0]}
                if not cs[j][3]:
                    break
        S, E = set(), set()
        for c in cs:
            S |= c[0]
            if not c[3]:
                break
        for c in reversed(cs):
            E |= c[1]
            if not c[3]:
                break
        return S, E, D, all(c[3] for c in cs)
    if op == "+":
        labs = [_visible(c) for c in t[1]]
        for i in range(len(cs)):
            for j in range(len(cs)):
                if i != j:
                    D |= {(x, y) for x in labs[i] for y in labs[j]}
        return S, E, D, all(c[3] for c in cs)
    if op == "*":
        b, q = cs[0], cs[1]
        D |= {(x, y) for x in b[1] for y in q[0]} | {(x, y) for x in q[1] for y in b[0]}
        if q[3]:
            D |= {(x, y) for x in b[1] for y in b[0]}
        if b[3]:
            D |= {(x, y) for x in q[1] for y in q[0]}
        return b[0] | (q[0] if b[3] else set()), b[1] | (q[1] if b[3] else set()), D, b[3]
    raise ValueError(op)


def _visible(t):
    return {t[1]} if t[0] == "a" else set() if t[0] == "tau" else set().union(*[_visible(c) for c in t[1]])


def tree_accepts(t, trace):
    cur = {freeze(t)}
    for a in trace:
        nxt = set()
        for s in cur:
            nxt |= _deriv(s, a)
        cur = nxt
        if not cur:
            return False
    return any(_null(s) for s in cur)


def tree_fp(t):
    """exact (nullable, starts, ends, directly-follows, activities, always, min length) of a tree AST"""
    if t[0] == "a":
        x = {t[1]}
        return False, x, set(x), set(), set(x), set(x), 1
    if t[0] == "tau":
        return True, set(), set(), set(), set(), set(), 0
    op, cs = t[0], [tree_fp(c) for c in t[1]]

    def seq(a, b):
        return (a[0] and b[0], a[1] | (b[1] if a[0] else set()), b[2] | (a[2] if b[0] else set()),
                a[3] | b[3] | {(x, y) for x in a[2] for y in b[1]}, a[4] | b[4], a[5] | b[5], a[6] + b[6])

    def alt(a, b):
        return a[0] or b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3], a[4] | b[4], a[5] & b[5], min(a[6], b[6])

    def par(a, b):
        x = {(p, q) for p in a[4] for q in b[4]}
        return a[0] and b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3] | x | {(q, p) for p, q in x}, a[4] | b[4], a[5] | b[5], a[6] + b[6]

    def fold(f):
        r = cs[0]
        for c in cs[1:]:
            r = f(r, c)
        return r
    if op == "->":
        return fold(seq)
    if op == "X":
        return fold(alt)
    if op == "+":
        return fold(par)
    if op == "O":
        r = fold(par)
        return (any(c[0] for c in cs),) + r[1:5] + (set.intersection(*[c[5] for c in cs]), min(c[6] for c in cs))
    if op == "*":
        d, r = cs[0], cs[1]
        st = d[1] | (r[1] if d[0] else set())
        en = d[2] | (r[2] if d[0] else set())
        df = d[3] | r[3] | {(x, y) for x in d[2] for y in r[1]} | {(x, y) for x in r[2] for y in d[1]}
        if r[0]:
            df |= {(x, y) for x in d[2] for y in d[1]}
        if d[0]:
            df |= {(x, y) for x in r[2] for y in r[1]}
        out = (d[0], st, en, df, d[4] | r[4], d[5], d[6])
        for e in cs[2:]:
            out = seq(out, e)
        return out
    raise ValueError(op)


# ---------------------------------------------------------------- Petri nets
class Net:
    """plain view of a pm4py net: markings are sorted tuples of (place index, count)"""

    def __init__(self, net, im=None, fm=None):
        self.places = sorted(net.places, key=lambda p: str(p.name))
        self.pix = {id(p): i for i, p in enumerate(self.places)}
        self.trans = []
        self.obj = []
        for t in sorted(net.transitions, key=lambda t: (str(t.name), str(t.label))):
            pre, post, inh, rst = {}, {}, [], []
            for a in t.in_arcs:
                at = (getattr(a, "properties", None) or {}).get("arctype")
                if at == "inhibitor":
                    inh.append(self.pix[id(a.source)])
                elif at == "reset":
                    rst.append(self.pix[id(a.source)])
                else:
                    pre[self.pix[id(a.source)]] = pre.get(self.pix[id(a.source)], 0) + a.weight
            for a in t.out_arcs:
                post[self.pix[id(a.target)]] = post.get(self.pix[id(a.target)], 0) + a.weight
            self.trans.append((t.name, t.label, pre, post, inh, rst))
            self.obj.append(t)
        self.im = self.mk(im) if im is not None else None
        self.fm = self.mk(fm) if fm is not None else None

    def mk(self, m):
        return tuple(sorted((self.pix[id(p)], n) for p, n in m.items() if n))

    def enabled(self, m, t):
        d = dict(m)
        return all(d.get(p, 0) >= w for p, w in t[2].items()) and not any(d.get(p, 0) for p in t[4])

    def fire(self, m, t):
        d = dict(m)
        for p, w in t[2].items():
            d[p] = d.get(p, 0) - w
        for p in t[5]:
            d[p] = 0
        for p, w in t[3].items():
            d[p] = d.get(p, 0) + w
        return tuple(sorted((p, n) for p, n in d.items() if n))

    def succ(self, m):
        for t in self.trans:
            if self.enabled(m, t):
                yield t, self.fire(m, t)

    def closure(self, ms, cap=20000):
        seen = set(ms)
        st = list(ms)
        while st:
            m = st.pop()
            for t in self.trans:
                if t[1] is None and self.enabled(m, t):
                    n = self.fire(m, t)
                    if n not in seen:
                        seen.add(n)
                        st.append(n)
                        if len(seen) > cap:
                            raise TooBig()
        return seen

    def lang(self, k, cap=20000, im=None, fm=None):
        im = self.im if im is None else im
        fm = self.fm if fm is None else fm
        out = set()
        level = {(): self.closure({im}, cap)}
        for n in range(k + 1):
            nxt = {}
            for w, ms in level.items():
                if fm in ms:
                    out.add(w)
                if n == k:
                    continue
                step = {}
                for m in ms:
                    for t in self.trans:
                        if t[1] is not None and self.enabled(m, t):
                            step.setdefault(t[1], set()).add(self.fire(m, t))
                for a, s in step.items():
                    nxt[w + (a,)] = self.closure(s, cap)
            if len(nxt) > cap:
                raise TooBig()
            level = nxt
        return out

    def accepts(self, trace, cap=20000):
        cur = self.closure({self.im}, cap)
        for a in trace:
            nx = set()
            for m in cur:
                for t in self.trans:
                    if t[1] == a and self.enabled(m, t):
                        nx.add(self.fire(m, t))
            cur = self.closure(nx, cap)
            if not cur:
                return False
        return self.fm in cur

    def reach(self, cap=5000, im=None):
        """(set of markings, list of edges) or TooBig"""
        im = self.im if im is None else im
        seen = {im}
        st = [im]
        edges = []
        while st:
            m = st.pop()
            for i, t in enumerate(self.trans):
                if self.enabled(m, t):
                    n = self.fire(m, t)
                    edges.append((m, i, n))
                    if n not in seen:
                        seen.add(n)
                        st.append(n)
                        if len(seen) > cap:
                            raise TooBig()
        return seen, edges

    def is_wf(self):
        """one source, one sink, strongly connected after short-circuit"""
        src = [i for i, p in enumerate(self.places) if not any(i in t[3] for t in self.trans)]
        snk = [i for i, p in enumerate(self.places) if not any(i in t[2] or i in t[5] or i in t[4] for t in self.trans)]
        if len(src) != 1 or len(snk) != 1:
            return False
        fwd, bwd = {}, {}

        def add(a, b):
            fwd.setdefault(a, set()).add(b)
            bwd.setdefault(b, set()).add(a)
        for j, t in enumerate(self.trans):
            for p in list(t[2]) + list(t[4]) + list(t[5]):
                add(("p", p), ("t", j))
            for p in t[3]:
                add(("t", j), ("p", p))

        def reachable(g, s):
            seen = {s}
            st = [s]
            while st:
                for n in g.get(st.pop(), ()):
                    if n not in seen:
                        seen.add(n)
                        st.append(n)
            return seen
        nodes = {("p", i) for i in range(len(self.places))} | {("t", j) for j in range(len(self.trans))}
        return reachable(fwd, ("p", src[0])) == nodes and reachable(bwd, ("p", snk[0])) == nodes

    def sound(self, cap=5000, silent_may_be_dead=False, decide_unbounded=False):
        """classical soundness of a WF-net from i to o; None when the state space exceeds cap (False with decide_unbounded, when a covering path is found)"""
        src = [i for i, p in enumerate(self.places) if not any(i in t[3] for t in self.trans)][0]
        snk = [i for i, p in enumerate(self.places) if not any(i in t[2] for t in self.trans)][0]
        im, fm = ((src, 1),), ((snk, 1),)
        try:
            seen, edges = self.reach(cap, im)
        except TooBig:
            return False if decide_unbounded and self.im == im and self.unbounded(min(cap, 600)) else None
        back = {}
        for a, _, b in edges:
            back.setdefault(b, set()).add(a)
        can = {fm} if fm in seen else set()
        st = list(can)
        while st:
            for a in back.get(st.pop(), ()):
                if a not in can:
                    can.add(a)
                    st.append(a)
        if can != seen:
            return False
        if any(dict(m).get(snk, 0) and m != fm for m in seen):
            return False
        return {i for _, i, _ in edges} >= {i for i, t in enumerate(self.trans) if not (silent_may_be_dead and t[1] is None)}

    def unbounded(self, cap=3000):
        """True if a strictly covering path is found (Karp-Miller style DFS over ancestors), False if state space finite, None if undecided"""
        stack = [(self.im, ())]
        seen = set()
        n = 0
        while stack:
            m, anc = stack.pop()
            n += 1
            if n > cap:
                return None
            for t, x in self.succ(m):
                dx = dict(x)
                for a in anc + (m,):
                    if a != x and all(dx.get(p, 0) >= c for p, c in a):
                        return True
                if x not in seen:
                    seen.add(x)
                    stack.append((x, anc + (m,)))
        return False

    def align_cost(self, trace, log_cost=None, model_cost=None, sync_cost=None, cap=60000):
        """optimal alignment cost (standard: 10000 per visible deviation, 1 per silent, 0 sync as in the callers' cost maps)"""
        log_cost = log_cost or (lambda i, a: 1)
        model_cost = model_cost or (lambda j, t: 1 if t[1] is not None else 0)
        sync_cost = sync_cost or (lambda i, j, t: 0)
        goal = (len(trace), self.fm)
        dist = {(0, self.im): 0}
        pq = [(0, 0, (0, self.im))]
        c = itertools.count(1)
        done = set()
        while pq:
            d, _, s = heapq.heappop(pq)
            if s in done:
                continue
            done.add(s)
            if s == goal:
                return d
            if len(done) > cap:
                raise TooBig()
            i, m = s

            def rel(ns, nd):
                if nd < dist.get(ns, float("inf")):
                    dist[ns] = nd
                    heapq.heappush(pq, (nd, next(c), ns))
            if i < len(trace):
                rel((i + 1, m), d + log_cost(i, trace[i]))
            for j, t in enumerate(self.trans):
                if self.enabled(m, t):
                    n = self.fire(m, t)
                    rel((i, n), d + model_cost(j, t))
                    if i < len(trace) and t[1] == trace[i]:
                        rel((i + 1, n), d + sync_cost(i, j, t))
        return None


def lev(a, b):
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(min(prev[j] + 1, cur[j - 1] + 1, prev[j - 1] + (x != y)))
        prev = cur
    return prev[-1]


def indel(a, b):
    """edit distance with insertions and deletions only"""
    prev = list(range(len(b) + 1))
    for i, x in enumerate(a, 1):
        cur = [i]
        for j, y in enumerate(b, 1):
            cur.append(prev[j - 1] if x == y else 1 + min(prev[j], cur[j - 1]))
        prev = cur
    return prev[-1]


# ---------------------------------------------------------------- BPMN token game (tokens on flows)
class BpmnNet(Net):
    """plain control-flow BPMN (start/end events, tasks, exclusive/parallel gateways) as a place/transition system whose
    places are the flows: independent of pm4py's own BPMN-to-Petri-net conversion. Inclusive gateways: any non-empty
    subset on the split side, and (only for the join matching a block) the same number of tokens is not tracked, so
    diagrams with inclusive joins are rejected with ValueError."""

    def __init__(self, bpmn):
        from pm4py.objects.bpmn.obj import BPMN
        fl = sorted(bpmn.get_flows(), key=lambda f: (str(f.get_source().get_id()), str(f.get_target().get_id()), str(f.get_id())))
        fl = [f for f in fl if isinstance(f, BPMN.SequenceFlow)]
        fid = {id(f): i for i, f in enumerate(fl)}
        self.places = list(range(len(fl))) + ["start", "end"]
        S, E = len(fl), len(fl) + 1
        self.trans, self.obj = [], []
        self.tasks = []
        for n in sorted(bpmn.get_nodes(), key=lambda n: str(n.get_id())):
            inn = [fid[id(f)] for f in fl if f.get_target() is n or f.get_target() == n]
            out = [fid[id(f)] for f in fl if f.get_source() is n or f.get_source() == n]
            nm = str(n.get_id())

            def add(pre, post, label=None):
                self.trans.append((f"{nm}#{len(self.trans)}", label, {p: 1 for p in pre}, {p: 1 for p in post}, [], []))
                self.obj.append(n)
            if isinstance(n, BPMN.StartEvent):
                add([S], out)
            elif isinstance(n, BPMN.EndEvent):
                for p in inn:
                    add([p], [E])
            elif isinstance(n, BPMN.ParallelGateway):
                add(inn, out)
            elif isinstance(n, (BPMN.ExclusiveGateway, BPMN.EventBasedGateway)):
                for p in inn:
                    for q in out:
                        add([p], [q])
            elif isinstance(n, BPMN.InclusiveGateway):
                raise ValueError("inclusive gateway")
            elif isinstance(n, (BPMN.Task,)) or type(n).__name__ in ("Task", "UserTask", "SubProcess"):
                self.tasks.append(n.get_name())
                for p in inn:
                    add([p], out, n.get_name())
            elif isinstance(n, BPMN.Event):
                for p in inn:
                    add([p], out, None)
            else:
                raise ValueError(type(n).__name__)
        self.im = ((S, 1),)
        self.fm = ((E, 1),)

    def dead_ends(self, cap=3000):
        """reachable markings from which the end marking is not reachable (implicit termination is not accepted)"""
        nodes, edges = self.reach(cap)
        return nodes, edges


class RawNet(Net):
    """net given as data: trans = (name, label, pre, post) over hashable places"""

    def __init__(self, trans, im, fm):
        self.trans = [(n, l, dict(i), dict(o), [], []) for n, l, i, o in trans]
        self.im, self.fm = tuple(sorted(im.items())), tuple(sorted(fm.items()))


def lang_diff(A, B, cap=20000, steps=4000, prefix=False):
    """exact comparison of the languages (visible label sequences from the initial to the final marking) of two bounded
    nets: None when equal, otherwise (shortest distinguishing trace, accepted by A, accepted by B)"""
    def first(N):
        return frozenset(N.closure({N.im}, cap))

    def moves(N, S):
        out = {}
        for m in S:
            for t in N.trans:
                if t[1] is not None and N.enabled(m, t):
                    out.setdefault(t[1], set()).add(N.fire(m, t))
        return {a: frozenset(N.closure(ms, cap)) for a, ms in out.items()}
    start = (first(A), first(B))
    seen = {start}
    todo = [(start, ())]
    k = 0
    ca, cb = {}, {}
    while k < len(todo):
        (sa, sb), tr = todo[k]
        k += 1
        if k > steps:
            raise TooBig()
        fa, fb = (bool(sa), bool(sb)) if prefix else (A.fm in sa, B.fm in sb)
        if fa != fb:
            return tr, fa, fb
        if sa not in ca:
            ca[sa] = moves(A, sa)
        if sb not in cb:
            cb[sb] = moves(B, sb)
        for a in sorted(set(ca[sa]) | set(cb[sb])):
            nxt = (ca[sa].get(a, frozenset()), cb[sb].get(a, frozenset()))
            if nxt not in seen:
                seen.add(nxt)
                todo.append((nxt, tr + (a,)))
    return None


def model_net(t):
    """RawNet of an abstract model: process-tree operators (-> X + * with several redo parts, O, I) and
    ("PO", [children], {(i, j)}) for partial orders"""
    import itertools
    trans, cnt = [], [0]

    def np():
        cnt[0] += 1
        return f"p{cnt[0]}"

    def nt(l, i, o):
        trans.append((f"t{len(trans)}", l, {p: 1 for p in i}, {p: 1 for p in o}))

    def rec(t, a, b):
        op = t[0]
        if op == "a":
            nt(t[1], [a], [b])
        elif op == "tau":
            nt(None, [a], [b])
        elif op == "->":
            cur = a
            for c in t[1]:
                nx = np()
                rec(c, cur, nx)
                cur = nx
            nt(None, [cur], [b])
        elif op == "X":
            for c in t[1]:
                x, y = np(), np()
                nt(None, [a], [x])
                nt(None, [y], [b])
                rec(c, x, y)
        elif op == "PO":
            n = len(t[1])
            xs, ys = [np() for _ in range(n)], [np() for _ in range(n)]
            links = {e: np() for e in sorted(t[2])}
            begin = [np() for _ in range(n)]
            done = [np() for _ in range(n)]
            nt(None, [a], begin)
            nt(None, done, [b])
            for i in range(n):
                nt(None, [begin[i]] + [links[e] for e in links if e[1] == i], [xs[i]])
                nt(None, [ys[i]], [done[i]] + [links[e] for e in links if e[0] == i])
                rec(t[1][i], xs[i], ys[i])
        elif op == "+":
            rec(("PO", t[1], set()), a, b)
        elif op == "*":
            x, y = np(), np()
            nt(None, [a], [x])
            nt(None, [y], [b])
            rec(t[1][0], x, y)
            for c in t[1][1:]:
                u, v = np(), np()
                nt(None, [y], [u])
                nt(None, [v], [x])
                rec(c, u, v)
            if len(t[1]) == 1:
                nt(None, [y], [x])
        elif op == "O":
            for k in range(1, len(t[1]) + 1):
                for sub in itertools.combinations(t[1], k):
                    x, y = np(), np()
                    nt(None, [a], [x])
                    nt(None, [y], [b])
                    rec(("+", list(sub)), x, y)
        elif op in ("I", "<>"):
            for perm in itertools.permutations(t[1]):
                x, y = np(), np()
                nt(None, [a], [x])
                nt(None, [y], [b])
                rec(("->", list(perm)), x, y)
        else:
            raise ValueError(op)
    rec(t, "source", "sink")
    return RawNet(trans, {"source": 1}, {"sink": 1})
