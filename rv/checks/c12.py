"""C12 soundness and workflow-net verdicts are correct"""
import io
import contextlib
import signal
from rv import gen, ref
from rv.worker import CaseTimeout

RULE = "a case is non-trivial when the reference verdict is decided and the net has at least two transitions; distinct by net structure"
ASSUMPTIONS = ["soundness is judged on workflow nets with one token in the source / sink place", "dead invisible transitions are not judged (Woflan only reports dead labelled tasks)",
               "nets whose state space exceeds 150 markings and is not provably unbounded are skipped"]


def mutate(r, places, trans, labs):
    """structural edits: extra places, arcs between distant parts, cut arcs, duplicated tokens"""
    places, trans = list(places), [(n, l, dict(i), dict(o)) for n, l, i, o in trans]
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        k = r.random()
        t = r.choice(trans)
        if k < 0.25:            # implicit / constraining extra place between two transitions
            q = f"q{len(places)}"
            places.append(q)
            a, b = r.choice(trans), r.choice(trans)
            a[3][q] = 1
            b[2][q] = 1
        elif k < 0.4:
            t[3][r.choice([p for p in places if p != "source"])] = 1
        elif k < 0.5:
            t[2][r.choice([p for p in places if p != "sink"])] = 1
        elif k < 0.6 and len(t[3]) > 1:
            t[3].pop(r.choice(sorted(t[3])))
        elif k < 0.7 and len(t[2]) > 1:
            t[2].pop(r.choice(sorted(t[2])))
        elif k < 0.85:
            ip = r.choice([p for p in places if p != "sink"])
            op = r.choice([p for p in places if p != "source"])
            trans.append((f"m{len(trans)}", r.choice([None] + labs), {ip: 1}, {op: 1}))
        elif k < 0.91:          # AND-split joined as XOR and vice versa
            ip = r.sample([p for p in places if p != "sink"], min(2, len(places) - 1))
            trans.append((f"m{len(trans)}", r.choice(labs), {p: 1 for p in ip}, {r.choice([p for p in places if p != "source"]): 1}))
        else:                   # node disconnected from the rest, not reachable, or without path to the sink
            q = r.random()
            if q < 0.2:
                trans.append((f"end{len(trans)}", r.choice([None] + labs), {r.choice([p for p in places if p != "sink"]): 1}, {}))
            elif q < 0.4:
                trans.append((f"gen{len(trans)}", r.choice([None] + labs), {}, {r.choice([p for p in places if p != "source"]): 1}))
            elif q < 0.7:       # a cycle only entered / only left
                a, b = f"c{len(places)}", f"d{len(places)}"
                places += [a, b]
                trans += [(f"ca{len(trans)}", r.choice(labs), {a: 1}, {b: 1}), (f"cb{len(trans)}", r.choice(labs), {b: 1}, {a: 1})]
                if q < 0.55:
                    trans.append((f"in{len(trans)}", r.choice(labs), {r.choice([p for p in places if p not in ("sink", a, b)]): 1}, {a: 1}))
                else:
                    trans.append((f"out{len(trans)}", r.choice(labs), {b: 1}, {r.choice([p for p in places if p not in ("source", a, b)]): 1}))
            elif q < 0.85:
                places.append(f"iso{len(places)}")
            else:
                a, b = f"c{len(places)}", f"d{len(places)}"
                places += [a, b]
                trans += [(f"ca{len(trans)}", r.choice(labs), {a: 1}, {b: 1}), (f"cb{len(trans)}", r.choice(labs), {b: 1}, {a: 1})]
    return places, trans


def weights(r, places, trans):
    if r.random() < 0.15:
        for n, l, i, o in trans:
            for d in (i, o):
                for p in d:
                    if p not in ("source", "sink") and r.random() < 0.25:
                        d[p] = 2
    return places, trans


def rename(r, places, trans):
    """hostile node names: a place and a transition of the same name, duplicate transition names, equal to the label"""
    k = r.random()
    if k < 0.6:
        return {p: p for p in places}, trans
    if k < 0.75:
        pool = [t[0] for t in trans]
        m = {p: (pool[i] if i < len(pool) else p) for i, p in enumerate(places)}
        return m, trans
    if k < 0.9:
        return {p: p for p in places}, [(l or "tau", l, i, o) for n, l, i, o in trans]
    return {p: p for p in places}, [("t", l, i, o) for n, l, i, o in trans]


def mknet(r):
    from pm4py.objects.petri_net.obj import PetriNet, Marking
    from pm4py.objects.petri_net.utils import petri_utils as pu
    labs = gen.labels(r, r.randint(2, 5), hostile=False)
    k = r.random()
    if k < 0.08:
        # non-free-choice sound patterns / classic counter examples
        places, trans = r.choice(CLASSICS)
    else:
        net, im, fm, (places, trans, _t) = gen.rand_wfnet(r, labs, extra=0.2, dup=0.2, maxleaf=r.choice([3, 4, 5, 6]))
    places, trans = mutate(r, places, trans, labs) if r.random() < 0.8 else (places, [(n, l, dict(i), dict(o)) for n, l, i, o in trans])
    places, trans = weights(r, places, trans)
    pn, trans = rename(r, places, trans)
    net = PetriNet("n")
    po = {}
    for p in places:
        po[p] = PetriNet.Place(pn[p])
        net.places.add(po[p])
    for n, l, i, o in trans:
        t = PetriNet.Transition(n, l)
        net.transitions.add(t)
        for p, w in i.items():
            pu.add_arc_from_to(po[p], t, net, w)
        for p, w in o.items():
            pu.add_arc_from_to(t, po[p], net, w)
    spec = str((places, [(n, l, sorted(i.items()), sorted(o.items())) for n, l, i, o in trans], pn))
    return net, po, trans, spec


CLASSICS = [
    # long-term dependency (non-free-choice, sound)
    (["source", "p1", "p2", "p3", "c1", "c2", "sink"],
     [("a", "a", {"source": 1}, {"p1": 1, "c1": 1}), ("b", "b", {"source": 1}, {"p1": 1, "c2": 1}), ("m", "m", {"p1": 1}, {"p2": 1}),
      ("x", "x", {"p2": 1, "c1": 1}, {"sink": 1}), ("y", "y", {"p2": 1, "c2": 1}, {"sink": 1}), ("z", "z", {"p2": 1}, {"p3": 1}), ("w", "w", {"p3": 1}, {"p2": 1})]),
    # arbitrated mutual exclusion, sound: semaphore place, not covered by uniform components of the naive basis
    (["source", "a1", "a2", "b1", "b2", "ca", "cb", "s", "sink"],
     [("st", None, {"source": 1}, {"a1": 1, "b1": 1, "s": 1}), ("ea", "ea", {"a1": 1, "s": 1}, {"ca": 1}), ("la", "la", {"ca": 1}, {"a2": 1, "s": 1}),
      ("eb", "eb", {"b1": 1, "s": 1}, {"cb": 1}), ("lb", "lb", {"cb": 1}, {"b2": 1, "s": 1}), ("en", None, {"a2": 1, "b2": 1, "s": 1}, {"sink": 1})]),
    # weighted: two tokens produced and consumed together
    (["source", "p", "sink"], [("a", "a", {"source": 1}, {"p": 2}), ("b", "b", {"p": 2}, {"sink": 1})]),
    # sound, but a place only marked after a choice and consumed either way (not S-coverable)
    (["source", "p", "q", "r", "sink"],
     [("a", "a", {"source": 1}, {"p": 1, "q": 1}), ("b", "b", {"p": 1, "q": 1}, {"r": 1}), ("c", "c", {"r": 1}, {"p": 1, "q": 1}), ("d", "d", {"p": 1, "q": 1}, {"sink": 1})]),
    # XOR-split / AND-join deadlock, AND-split / XOR-join lack of synchronisation
    (["source", "p", "q", "sink"], [("a", "a", {"source": 1}, {"p": 1}), ("b", "b", {"source": 1}, {"q": 1}), ("c", "c", {"p": 1, "q": 1}, {"sink": 1})]),
    (["source", "p", "q", "sink"], [("a", "a", {"source": 1}, {"p": 1, "q": 1}), ("b", "b", {"p": 1}, {"sink": 1}), ("c", "c", {"q": 1}, {"sink": 1})]),
    # unbounded loop, still able to reach a sink marking
    (["source", "p", "q", "sink"], [("a", "a", {"source": 1}, {"p": 1}), ("b", "b", {"p": 1}, {"p": 1, "q": 1}), ("c", "c", {"q": 1}, {"q": 1}), ("d", "d", {"p": 1}, {"sink": 1}), ("e", "e", {"p": 1, "q": 1}, {"sink": 1})]),
    # two tokens in parallel through the same place
    (["source", "p", "q", "r", "sink"], [("a", "a", {"source": 1}, {"p": 1, "q": 1}), ("b", "b", {"p": 1}, {"r": 1}), ("c", "c", {"q": 1}, {"r": 1}), ("d", "d", {"r": 2}, {"sink": 1})]),
]


CASE_CPU = 120


def fam_verdict(ctx):
    import pm4py
    from pm4py.objects.petri_net.obj import Marking
    from pm4py.objects.petri_net.utils import check_soundness as cs
    from pm4py.algo.analysis.woflan import algorithm as woflan
    r = ctx.rng
    net, po, trans, spec = mknet(r)
    N = ref.Net(net)
    wf = N.is_wf()
    before = _shape(net)
    ctx.eq(bool(ctx.call("check_is_workflow_net", pm4py.check_is_workflow_net, net)), wf, "wfnet")
    ctx.eq(bool(ctx.call("check_wfnet", cs.check_wfnet, net)), wf, "wfnet:check_soundness")
    ctx.ev("wf_verdicts")
    ctx.ev("wf_yes" if wf else "wf_no")
    if _shape(net) != before:
        ctx.fail("input", "the net was modified by the workflow-net check")
    src = [p for p in net.places if not p.in_arcs]
    snk = [p for p in net.places if not p.out_arcs]
    if not wf:
        if src and snk:
            im, fm = Marking({src[0]: 1}), Marking({snk[0]: 1})
            with contextlib.redirect_stdout(io.StringIO()):
                res = ctx.call("check_soundness", pm4py.check_soundness, net, im, fm)
            ctx.eq(bool(res[0]), False, "sound:not-a-wf-net")
        return
    im, fm = Marking({src[0]: 1}), Marking({snk[0]: 1})
    N = ref.Net(net, im, fm)
    exp = N.sound(150)
    unb = exp is None
    if exp is None:
        if N.unbounded(400) is True:
            exp = False
            ctx.ev("unbounded")
        else:
            ctx.ev("undecided")
            return
    elif exp != N.sound(150, True):
        ctx.ev("only_dead_silent")
        return
    with contextlib.redirect_stdout(io.StringIO()):
        if unb or any(a.weight > 1 for a in net.arcs):
            # the coverability construction may be exponential here: bounded effort
            signal.setitimer(signal.ITIMER_VIRTUAL, 10, 5)
            try:
                res = ctx.call("check_soundness", pm4py.check_soundness, net, im, fm)
            except CaseTimeout:
                ctx.ev("coverability_too_large")
                return
            signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU, 5)
        else:
            res = ctx.call("check_soundness", pm4py.check_soundness, net, im, fm)
        ctx.eq(bool(res[0]), exp, "sound:api")
        if exp or (not unb and len(N.places) <= 14 and r.random() < 0.5):
            got = ctx.call("woflan", woflan.apply, net, im, fm, parameters={"return_asap_when_not_sound": r.random() < 0.3, "print_diagnostics": r.random() < 0.2, "return_diagnostics": False})
            ctx.eq(bool(got), exp, "sound:woflan")
    if _shape(net) != before:
        ctx.fail("input:soundness", "the net was modified by the soundness check")
    ctx.ev("sound_yes" if exp else "sound_no")
    if len(N.trans) > 1:
        ctx.nontrivial(spec)
    ctx.sample(dict(net=spec[:600], wf=wf, sound=exp))


def _shape(net):
    return (sorted(p.name for p in net.places), sorted((t.name, str(t.label)) for t in net.transitions), sorted((a.source.name, a.target.name, a.weight) for a in net.arcs))


def fam_easy(ctx):
    """easy soundness: the final marking is reported reachable exactly when it is"""
    from pm4py.objects.petri_net.obj import Marking
    from pm4py.objects.petri_net.utils import check_soundness as cs
    r = ctx.rng
    if r.random() < 0.6:
        net, po, trans, spec = mknet(r)
        im, fm = Marking({po["source"]: r.choice([1, 1, 2])}), Marking({po["sink"]: r.choice([1, 1, 2])})
    else:
        places, trans = gen.rand_free_net(r)
        net, po = gen.build_net(places, trans)
        im = Marking({po[p]: r.randint(1, 2) for p in r.sample(places, r.randint(1, len(places)))})
        N = ref.Net(net, im, im)
        m = N.im
        for _ in range(r.randint(0, 6)):
            nx = list(N.succ(m))
            if nx:
                m = r.choice(nx)[1]
        if r.random() < 0.5:
            fm = Marking({N.places[p]: n for p, n in m})
        else:
            fm = Marking({po[p]: r.randint(1, 2) for p in r.sample(places, r.randint(1, len(places)))})
        spec = str((places, trans, str(im), str(fm)))
    N = ref.Net(net, im, fm)
    try:
        seen, _ = N.reach(1500)
    except ref.TooBig:
        return
    exp = N.fm in seen
    got = ctx.call("check_easy_soundness", cs.check_easy_soundness_net_in_fin_marking, net, im, fm)
    ctx.eq(bool(got), exp, "easy")
    ctx.ev("easy_yes" if exp else "easy_no")
    if len(N.trans) > 1:
        ctx.nontrivial(spec)


FAMILIES = {"verdict": (400, 6000, fam_verdict), "easy": (300, 4000, fam_easy)}
