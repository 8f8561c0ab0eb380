"""Random hostile workloads: logs, process trees, Petri nets, OCELs."""
import datetime as dt
import string

UTC = dt.timezone.utc
HOSTILE = ["a b", "Ärger", "x,y", "q\"uote", "<tag>", "a&b", "1", "1.0", "日本", "tau", "None", "A->B", "(p)", "é;", "#h", " x", "x ", "NaN", "skip", "start", "end", "case", "0", "true", "a_b", "-", "+", "X", "*"]


def labels(rng, k, hostile=None, forbid=""):
    """k distinct activity labels"""
    if hostile is None:
        hostile = rng.random() < 0.25
    pool = list(string.ascii_lowercase) if rng.random() < 0.5 else list(string.ascii_uppercase)
    if hostile:
        pool = [h for h in HOSTILE if not any(c in h for c in forbid)] + pool[:6]
        rng.shuffle(pool)
    elif rng.random() < 0.3:
        pool = [f"act{j}" for j in range(30)]
        rng.shuffle(pool)
    return pool[:k]


# ---------------------------------------------------------------- trees (AST)
# leaf: ("a", label) | ("tau",)    node: (op, [children]) with op in -> X + * O <>
def rand_tree(rng, labs, ops=("->", "X", "+", "*"), depth=3, dup=0.0, tau=0.12, maxleaf=7):
    avail = list(labs)
    rng.shuffle(avail)
    state = {"n": 0}

    def leaf(allow_tau=True):
        if allow_tau and rng.random() < tau:
            return ("tau",)
        if state["n"] >= maxleaf:
            return ("tau",)
        state["n"] += 1
        if avail and not (dup and rng.random() < dup):
            return ("a", avail.pop())
        if dup:
            return ("a", rng.choice(labs))
        return ("tau",)

    def node(d):
        if d == 0 or rng.random() < 0.2 or state["n"] >= maxleaf:
            return leaf()
        op = rng.choice(ops)
        if op == "*":
            return ("*", [node(d - 1), node(d - 1)])
        k = rng.choice([2, 2, 3, 4] if d > 1 else [2, 3])
        return (op, [node(d - 1) for _ in range(k)])
    for _ in range(50):
        t = node(depth)
        if tree_labels(t):
            return t
        state["n"] = 0
        avail = list(labs)
    return ("a", labs[0])


def tree_labels(t):
    if t[0] == "a":
        return [t[1]]
    if t[0] == "tau":
        return []
    return [x for c in t[1] for x in tree_labels(c)]


def tree_size(t):
    return 1 if t[0] in ("a", "tau") else 1 + sum(tree_size(c) for c in t[1])


def tree_ops(t):
    if t[0] in ("a", "tau"):
        return set()
    return {t[0]}.union(*[tree_ops(c) for c in t[1]])


def tree_str(t):
    if t[0] == "a":
        return "'" + t[1] + "'"
    if t[0] == "tau":
        return "tau"
    return t[0] + "( " + ", ".join(tree_str(c) for c in t[1]) + " )"


def to_pt(t, parent=None):
    from pm4py.objects.process_tree.obj import ProcessTree, Operator
    if t[0] == "a":
        return ProcessTree(label=t[1], parent=parent)
    if t[0] == "tau":
        return ProcessTree(parent=parent)
    n = ProcessTree(operator={o.value: o for o in Operator}[t[0]], parent=parent)
    n.children = [to_pt(c, n) for c in t[1]]
    return n


def from_pt(p):
    ch = list(p.children) if p.children is not None else []
    if p.operator is None and not ch:
        return ("tau",) if p.label is None else ("a", p.label)
    if p.operator is None:
        raise ValueError(f"process tree node without operator but with children: {p}")
    return (p.operator.value, [from_pt(c) for c in ch])


def play_tree(rng, t, loop=0.35):
    op = t[0]
    if op == "a":
        return [t[1]]
    if op == "tau":
        return []
    ch = t[1]
    if op == "->":
        return [x for c in ch for x in play_tree(rng, c, loop)]
    if op == "X":
        return play_tree(rng, rng.choice(ch), loop)
    if op == "+":
        return interleave(rng, [play_tree(rng, c, loop) for c in ch])
    if op == "O":
        k = rng.randint(1, len(ch))
        return interleave(rng, [play_tree(rng, c, loop) for c in rng.sample(ch, k)])
    if op == "<>":
        s = list(ch)
        rng.shuffle(s)
        return [x for c in s for x in play_tree(rng, c, loop)]
    if op == "*":
        out = play_tree(rng, ch[0], loop)
        n = 0
        while rng.random() < loop and n < 4:
            n += 1
            out = out + play_tree(rng, rng.choice(ch[1:]), loop) + play_tree(rng, ch[0], loop)
        return out
    raise ValueError(op)


def interleave(rng, seqs):
    seqs = [list(s) for s in seqs if s]
    out = []
    while seqs:
        i = rng.randrange(len(seqs))
        out.append(seqs[i].pop(0))
        if not seqs[i]:
            seqs.pop(i)
    return out


# ---------------------------------------------------------------- traces
def rand_traces(rng, labs=None, n=None, maxlen=8, empty=False, mode=None):
    """list of activity lists, from several structural regimes"""
    labs = labs or labels(rng, rng.randint(1, 7))
    n = n if n is not None else rng.choice([1, 2, 3, 5, 8, 12])
    mode = mode or rng.choice(["uniform", "uniform", "tree", "tree", "noisytree", "dfgwalk", "few"])
    out = []
    if mode in ("tree", "noisytree"):
        t = rand_tree(rng, labs, depth=rng.choice([2, 3, 3]))
        for _ in range(n):
            tr = play_tree(rng, t)[:maxlen]
            if mode == "noisytree" and rng.random() < 0.4 and tr:
                k = rng.random()
                p = rng.randrange(len(tr))
                if k < 0.3:
                    tr.pop(p)
                elif k < 0.6:
                    tr.insert(p, rng.choice(labs))
                else:
                    q = rng.randrange(len(tr))
                    tr[p], tr[q] = tr[q], tr[p]
            out.append(tr)
    elif mode == "dfgwalk":
        succ = {a: rng.sample(labs, min(len(labs), rng.randint(1, 3))) for a in labs}
        for _ in range(n):
            a = rng.choice(labs)
            tr = [a]
            while rng.random() < 0.75 and len(tr) < maxlen:
                a = rng.choice(succ[a])
                tr.append(a)
            out.append(tr)
    elif mode == "few":
        base = [[rng.choice(labs) for _ in range(rng.randint(1, maxlen))] for _ in range(rng.randint(1, 3))]
        out = [list(rng.choice(base)) for _ in range(n)]
    else:
        for _ in range(n):
            out.append([rng.choice(labs) for _ in range(rng.randint(1, maxlen))])
    if not empty:
        out = [t if t else [rng.choice(labs)] for t in out]
    elif rng.random() < 0.5:
        out[rng.randrange(len(out))] = []
    return out


# ---------------------------------------------------------------- logs
class ALog:
    """abstract log: list of (case_id, case_attrs, [event dict]) — the ground truth of the monitors"""

    def __init__(self, cases):
        self.cases = cases

    def traces(self, key="concept:name"):
        return [[e[key] for e in ev] for _, _, ev in self.cases]

    def n_events(self):
        return sum(len(ev) for _, _, ev in self.cases)

    def to_log(self, rename=None, case_key="concept:name"):
        from pm4py.objects.log.obj import EventLog, Trace, Event
        rn = rename or {}
        log = EventLog()
        for cid, ca, evs in self.cases:
            at = {case_key: cid}
            at.update(ca)
            tr = Trace(attributes=at)
            for e in evs:
                tr.append(Event({rn.get(k, k): v for k, v in e.items()}))
            log.append(tr)
        return log

    def rows(self, rename=None, case_key="case:concept:name"):
        rn = rename or {}
        out = []
        for cid, ca, evs in self.cases:
            for e in evs:
                r = {case_key: cid}
                r.update({"case:" + k: v for k, v in ca.items()})
                r.update({rn.get(k, k): v for k, v in e.items()})
                out.append(r)
        return out

    def to_df(self, rename=None, case_key="case:concept:name", order=None, index=None, rng=None):
        """order: None (case by case) | 'interleave' (cases interleaved, each case in order) | 'time' (global time order)"""
        import pandas as pd
        rows = self.rows(rename, case_key)
        if order == "interleave":
            by = {}
            for r in rows:
                by.setdefault(r[case_key], []).append(r)
            rows = interleave(rng, list(by.values()))
        elif order == "time":
            tk = (rename or {}).get("time:timestamp", "time:timestamp")
            rows = sorted(rows, key=lambda r: r[tk])
        df = pd.DataFrame(rows)
        if index == "shuffled":
            ix = list(range(100, 100 + len(df)))
            rng.shuffle(ix)
            df.index = ix
        elif index == "dup":
            df.index = [7] * len(df)
        return df


def timestamps(rng, n, start=None, ties=0.0, micro=False, big=False):
    t = start or (dt.datetime(2020, 1, 1, tzinfo=UTC) + dt.timedelta(seconds=rng.randrange(0, 40 * 86400)))
    out = []
    for i in range(n):
        out.append(t)
        if rng.random() < ties:
            continue
        step = rng.choice([1, 5, 60, 600, 3600, 7200, 86400, 100000] if not big else [3600, 86400, 86400 * 7])
        d = dt.timedelta(seconds=rng.randint(1, step))
        if micro:
            d += dt.timedelta(microseconds=rng.randrange(1000000))
        t = t + d
    return out


def rand_alog(rng, traces=None, ties=0.0, micro=False, res=None, attrs=True, empty=False, case_ids=None, lifecycle=False, distinct_time=False, **kw):
    traces = traces if traces is not None else rand_traces(rng, empty=empty, **kw)
    resources = res or rng.sample(["Ann", "Bob", "Cid", "Dee", "Ésa"], rng.randint(1, 4))
    style = case_ids or rng.choice(["num", "c", "unsorted", "num"])
    ids = list(range(1, len(traces) + 1))
    if style == "unsorted":
        rng.shuffle(ids)
        ids = [f"k{j}" for j in ids]
    elif style == "c":
        ids = [f"case {j}" for j in ids]
    else:
        ids = [str(j) for j in ids]
    cases = []
    uid = 0
    start = dt.datetime(2020, 1, 1, tzinfo=UTC) + dt.timedelta(seconds=rng.randrange(0, 10 * 86400))
    used = set()
    for cid, tr in zip(ids, traces):
        s = start + dt.timedelta(seconds=rng.randrange(0, 5 * 86400))
        ts = timestamps(rng, len(tr), s, ties, micro)
        evs = []
        for a, t in zip(tr, ts):
            if distinct_time:
                while t in used:
                    t += dt.timedelta(seconds=1)
                if evs and t <= evs[-1]["time:timestamp"]:
                    t = evs[-1]["time:timestamp"] + dt.timedelta(seconds=1)
                    while t in used:
                        t += dt.timedelta(seconds=1)
                used.add(t)
            e = {"concept:name": a, "time:timestamp": t, "org:resource": rng.choice(resources), "uid": uid}
            uid += 1
            if attrs:
                e["cost"] = round(rng.uniform(0, 100), 2)
                e["kind"] = rng.choice(["x", "y", "z"])
            evs.append(e)
        ca = {}
        if attrs:
            ca = {"region": rng.choice(["N", "S"]), "amount": rng.randrange(5)}
        cases.append((cid, ca, evs))
    return ALog(cases)


# ---------------------------------------------------------------- nets
def build_net(places, trans, name="net"):
    """places: list of names; trans: list of (name, label, {p: w} in, {p: w} out) -> (net, place objects by name)"""
    from pm4py.objects.petri_net.obj import PetriNet
    from pm4py.objects.petri_net.utils import petri_utils
    net = PetriNet(name)
    po = {}
    for p in places:
        po[p] = PetriNet.Place(p)
        net.places.add(po[p])
    for n, lab, i, o in trans:
        t = PetriNet.Transition(n, lab)
        net.transitions.add(t)
        for p, w in i.items():
            petri_utils.add_arc_from_to(po[p], t, net, weight=w)
        for p, w in o.items():
            petri_utils.add_arc_from_to(t, po[p], net, weight=w)
    return net, po


def tree_to_net(t):
    """own block-structured construction: (places, transitions) of a sound WF-net with silent transitions"""
    places, trans = ["source", "sink"], []
    cnt = {"p": 0, "t": 0}

    def np():
        cnt["p"] += 1
        p = f"p{cnt['p']}"
        places.append(p)
        return p

    def nt(label, i, o):
        cnt["t"] += 1
        trans.append((f"t{cnt['t']}", label, {p: 1 for p in i}, {p: 1 for p in o}))

    def rec(t, a, b):
        op = t[0]
        if op == "a":
            nt(t[1], [a], [b])
        elif op == "tau":
            nt(None, [a], [b])
        elif op == "->":
            cur = a
            for k, c in enumerate(t[1]):
                nx = b if k == len(t[1]) - 1 else np()
                rec(c, cur, nx)
                cur = nx
        elif op == "X":
            for c in t[1]:
                x, y = np(), np()
                nt(None, [a], [x])
                nt(None, [y], [b])
                rec(c, x, y)
        elif op == "+":
            xs, ys = [], []
            for c in t[1]:
                x, y = np(), np()
                xs.append(x)
                ys.append(y)
                rec(c, x, y)
            nt(None, [a], xs)
            nt(None, ys, [b])
        elif op == "*":
            x, y = np(), np()
            nt(None, [a], [x])
            nt(None, [y], [b])
            rec(t[1][0], x, y)
            for c in t[1][1:]:
                u, v = np(), np()
                nt(None, [y], [u])
                nt(None, [v], [x])
                rec(c, u, v)
        else:
            raise ValueError(op)
    rec(t, "source", "sink")
    return places, trans


def rand_wfnet(rng, labs=None, depth=2, dup=0.0, extra=0.3, maxleaf=6, tau=0.12):
    """(net, im, fm, spec): block-structured net, optionally perturbed with extra silent/labelled transitions between places"""
    from pm4py.objects.petri_net.obj import Marking
    labs = labs or labels(rng, rng.randint(2, 6), hostile=False)
    t = rand_tree(rng, labs, depth=depth, dup=dup, maxleaf=maxleaf, tau=tau)
    places, trans = tree_to_net(t)
    if rng.random() < 0.5:
        # drop the silent scaffolding where possible: direct sequence of labelled transitions
        pass
    k = 0
    while rng.random() < extra and k < 3:
        k += 1
        ip = rng.sample([p for p in places if p != "sink"], 1)
        op = rng.sample([p for p in places if p != "source"], 1)
        if ip != op:
            trans.append((f"x{k}", rng.choice([None] + list(labs)), {p: 1 for p in ip}, {p: 1 for p in op}))
    net, po = build_net(places, trans)
    return net, Marking({po["source"]: 1}), Marking({po["sink"]: 1}), (places, trans, t)


def rand_free_net(rng, labs=None, np_=None, nt_=None, weights=True, tau=0.2, dup=True):
    """arbitrary net + marking, possibly unbounded / with weights / isolated nodes"""
    labs = labs or labels(rng, 4, hostile=False)
    np_ = np_ or rng.randint(1, 5)
    nt_ = nt_ or rng.randint(1, 5)
    places = [f"p{i}" for i in range(np_)]
    trans = []
    for j in range(nt_):
        i = {p: (rng.choice([1, 1, 1, 2, 3]) if weights else 1) for p in rng.sample(places, min(np_, rng.choice([0, 1, 1, 1, 2])))}
        o = {p: (rng.choice([1, 1, 1, 2]) if weights else 1) for p in rng.sample(places, min(np_, rng.choice([0, 1, 1, 2])))}
        lab = None if rng.random() < tau else rng.choice(labs)
        trans.append((f"t{j}", lab, i, o))
    return places, trans
