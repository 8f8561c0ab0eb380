"""C30: live streams deliver each event exactly once, in order.

The real streams run under producers, listeners, stoppers and registrations in several threads, with a
trace function that sleeps at random lines of the streaming package (injected schedules) and a random
interpreter switch interval. Every append / register / stop (call, return) and every delivery (begin, end)
is stamped with a global logical clock; an offline checker decides exactly-once, order and quiescence."""
import collections, io, contextlib, itertools, os, random, sys, threading, time

import pm4py
from pm4py.streaming.stream.live_event_stream import LiveEventStream
from pm4py.streaming.stream.live_trace_stream import LiveTraceStream
from pm4py.streaming.algo.interface import StreamingAlgorithm
from pm4py.streaming.util.live_to_static_stream import LiveToStaticStream
from pm4py.streaming.util.dictio import generator as dict_generator
from pm4py.streaming.algo.discovery.dfg import algorithm as stream_dfg
from pm4py.objects.log.obj import Event, Trace

RULE = "per-listener delivery history = the appended events, each exactly once, in a linear extension of the append intervals; nothing after stop() returned"
ASSUMPTIONS = [
    "a stream is started once and stopped after it was started (stop before start waits for the start); it is not restarted",
    "events appended concurrently with stop() may be accepted or dropped, but every listener sees the same ones",
    "deregister() is a coroutine function in pm4py and is awaited with asyncio.run",
    "interleavings are those of the CPython scheduler with injected sleeps and switch intervals between 1e-6 and 5e-3 s",
]
MINIMUM = {"deliveries": 2000, "oracle_checks": 500, "injected delays": 200}
CASE_CPU = 120
HANG = [25]           # seconds of wall clock after which a small workload counts as not terminating

STREAMING = os.path.join(os.path.dirname(pm4py.__file__), "streaming") + os.sep


class Clock:
    def __init__(self):
        self.c = itertools.count(1)

    def __call__(self):
        return next(self.c)      # atomic in CPython


class Delayer:
    """trace function that sleeps at random lines of pm4py/streaming"""
    def __init__(self, seed, p, dur):
        self.rng, self.p, self.dur, self.n, self.on = random.Random(seed), p, dur, 0, True

    def glob(self, frame, event, arg):
        if not self.on or not frame.f_code.co_filename.startswith(STREAMING):
            return None
        return self.local

    def local(self, frame, event, arg):
        if self.on and event == "line" and self.n < 3000 and self.rng.random() < self.p:
            self.n += 1
            time.sleep(self.rng.random() * self.dur)
        return self.local


@contextlib.contextmanager
def hostile(ctx, rng):
    old = sys.getswitchinterval()
    d = Delayer(rng.random(), rng.choice([0, 0.02, 0.1, 0.3]), rng.choice([0.0002, 0.001, 0.003]))
    sys.setswitchinterval(rng.choice([1e-6, 1e-5, 1e-4, 5e-3]))
    threading.settrace(d.glob)
    if d.p:
        sys.settrace(d.glob)
    err = io.StringIO()
    try:
        with contextlib.redirect_stderr(err):
            yield d
    finally:
        d.on = False
        sys.settrace(None); threading.settrace(None)
        sys.setswitchinterval(old)
        ctx.ev("injected delays", d.n)
        ctx.ev("stderr lines of faulty listeners", err.getvalue().count("\n"))


class Fault(Exception):
    pass


def make_listener(kind, rng, clk, mid, faults, slow, cascade=None):
    """a listener recording (event id, begin, end, thread); kind 'plain' is any object with receive(), 'algo' a StreamingAlgorithm"""
    rec = []
    r = random.Random(rng.random())

    def handle(event):
        b = clk()
        i = mid(event)
        if slow and r.random() < slow:
            time.sleep(r.random() * 0.002)
        if cascade is not None:
            cascade(i)
        rec.append((i, b, clk(), threading.get_ident()))
        if faults and r.random() < faults:
            raise r.choice([Fault, KeyError, ValueError, ZeroDivisionError])(i)
    if kind == "plain":
        class L:
            def receive(self, event):
                handle(event)
        o = L()
    else:
        class A(StreamingAlgorithm):
            def _process(self, event):
                handle(event)

            def _current_result(self):
                return len(rec)
        o = A()
    o.rec = rec
    return o


def run_threads(ctx, fns, label):
    """runs the functions in threads; a function that does not return within HANG seconds is a violation"""
    errs = []

    def wrap(f):
        def g():
            try:
                f()
            except Exception as e:          # noqa
                errs.append(repr(e)[:300])
        return g
    ts = [threading.Thread(target=wrap(f), daemon=True) for f in fns]
    for t in ts:
        t.start()
    end = time.time() + HANG[0]
    for t in ts:
        t.join(max(0.01, end - time.time()))
    if any(t.is_alive() for t in ts):
        HANG[0] = 3        # already a violation: do not spend the time on every further case
    ctx.check(not any(t.is_alive() for t in ts), f"{label}:does-not-terminate", "a thread appending to / stopping the stream did not return")
    ctx.check(not errs, f"{label}:exception", str(errs[:2]))
    return not any(t.is_alive() for t in ts)


def mk_event(cls, i, rng):
    if cls is LiveTraceStream:
        return Trace([Event({"concept:name": "a", "k": j}) for j in range(rng.randint(0, 2))], attributes={"concept:name": "c", "id": i})
    return Event({"concept:name": "a", "case:concept:name": "c%d" % (i % 3), "id": i}) if rng.random() < 0.5 else {"id": i}


def ident(ev):
    return ev.attributes["id"] if isinstance(ev, Trace) else ev["id"]


def check_history(ctx, app, listeners, regs, stop_call, stop_ret, pre, label):
    """app: {id: (call, ret)}, regs: listener -> (call, ret, dereg call, dereg ret)"""
    per = []
    for li, l in enumerate(listeners):
        ids = [x[0] for x in l.rec]
        cnt = collections.Counter(ids)
        rc, rr, dc, dr = regs[li]
        dup = [i for i, n in cnt.items() if n > 1]
        ctx.check(not dup, f"{label}:duplicate-delivery", f"listener {li}: {dup[:5]} of {len(ids)}")
        ctx.check(all(i in app for i in cnt), f"{label}:unknown-event")
        must = [i for i, (c, r) in app.items() if r < stop_call and c > rr and dc is None]
        # events appended before the registration are delivered if they are still queued when the listener is registered
        miss = [i for i in must if i not in cnt]
        ctx.check(not miss, f"{label}:lost-event", f"listener {li} of {len(listeners)}: {len(miss)} of {len(must)} not delivered: {miss[:5]}")
        late = [i for i, (c, r) in app.items() if c > stop_ret and i in cnt]
        ctx.check(not late, f"{label}:delivered-after-finish", f"{late[:5]}")
        after = [x for x in l.rec if x[2] > stop_ret]
        ctx.check(not after, f"{label}:stop-returned-before-delivery-complete", f"{len(after)} deliveries end after stop() returned")
        early = [x for x in l.rec if x[1] < app[x[0]][0]] if all(i in app for i in cnt) else []
        ctx.check(not early, f"{label}:delivered-before-append")
        # real-time order: append(a) returned before append(b) was called => a before b
        begin = sorted((x for x in l.rec if x[0] in app), key=lambda x: x[1])
        maxcall = 0
        for x in begin:
            c, r = app[x[0]]
            if not ctx.check(r > maxcall, f"{label}:order", f"listener {li}: event {x[0]} was delivered after an event appended later"):
                break
            maxcall = max(maxcall, c)
        # one delivery at a time per listener: receive() calls do not overlap
        for x, y in zip(begin, begin[1:]):
            if not ctx.check(x[2] < y[1], f"{label}:overlapping-deliveries", f"listener {li}: {x[0]} and {y[0]}"):
                break
        per.append([x[0] for x in begin])
        ctx.ev("deliveries", len(l.rec))
        ctx.ev("worker threads seen", len({x[3] for x in l.rec}))
    full = [p for p, rg in zip(per, regs) if rg[1] < pre and rg[2] is None]
    for p in full[1:]:
        ctx.eq(p, full[0], f"{label}:listeners-disagree")
    if full:
        for p, rg in zip(per, regs):
            if rg[2] is None:
                ctx.eq(p, full[0][len(full[0]) - len(p):], f"{label}:late-listener-not-a-suffix")
            else:
                # a deregistered listener saw a contiguous segment
                s = "," + ",".join(map(str, full[0])) + ","
                ctx.check(not p or ("," + ",".join(map(str, p)) + ",") in s, f"{label}:deregistered-listener-not-a-segment")
                c, r = rg[2], rg[3]
                bad = [i for i in p if app[i][0] > r]
                ctx.check(not bad, f"{label}:delivered-after-deregister", f"{bad[:4]}")
    return per


def stress(ctx, cls):
    rng = ctx.rng
    label = "trace" if cls is LiveTraceStream else "event"
    clk = Clock()
    pool = rng.choice([None, 1, 1, 2, 3, 6, 12])
    s = cls(parameters={"thread_pool_size": pool}) if pool else cls()
    single = pool == 1
    n_prod = rng.randint(1, 4)
    per = rng.randint(1, 30)
    faults = rng.choice([0, 0, 0.1, 0.5, 1])
    slow = rng.choice([0, 0, 0.1, 0.5])
    n_l = rng.randint(1, 4)
    ids = itertools.count()
    app = {}
    listeners, regs = [], []

    def new_listener(cascade=None):
        l = make_listener(rng.choice(["plain", "algo"]), rng, clk, ident, faults, slow, cascade)
        return l

    def register(l):
        c = clk()
        s.register(l)
        listeners.append(l); regs.append([c, clk(), None, None])
    for _ in range(n_l):
        register(new_listener())
    if rng.random() < 0.2:
        s.register(listeners[0])       # registering twice is registering once
    pre = clk()
    late_app = {}

    def append(ev):
        i = ident(ev)
        c = clk()
        app[i] = (c, float("inf"))
        s.append(ev)
        app[i] = (c, clk())
    early = rng.choice([0, 0, 3, 10])
    for _ in range(early):
        append(mk_event(cls, next(ids), rng))
    batches = []
    for p in range(n_prod):
        batches.append([mk_event(cls, next(ids), rng) for _ in range(per)])
    pauses = rng.choice([0, 0, 0.05, 0.3])
    stop_mode = rng.choice(["after", "after", "concurrent", "two", "three"])
    self_append = rng.random() < 0.25 and not single
    times = {}

    def producer(b, seed):
        r = random.Random(seed)

        def f():
            for ev in b:
                append(ev)
                if r.random() < pauses:
                    time.sleep(r.random() * 0.002)
        return f

    def stopper(k, delay):
        def f():
            time.sleep(delay)
            c = clk()
            s.stop()
            times[k] = (c, clk())
        return f

    def registrar(delay):
        l = new_listener()

        def f():
            time.sleep(delay)
            register(l)
        return f

    def deregistrar(l, li, delay):
        def f():
            import asyncio
            time.sleep(delay)
            c = clk()
            asyncio.run(s.deregister(l))
            regs[li][2:] = [c, clk()]
        return f
    loops = [0]
    if self_append:
        # a listener that appends follow-up events to its own stream (bounded)
        def cascade(i):
            if loops[0] < 10:
                loops[0] += 1
                j = 10 ** 6 + loops[0]
                append(mk_event(cls, j, random.Random(j)))
        register(new_listener(cascade))
        pre = clk()
    with hostile(ctx, rng) as d:
        s.start()
        ctx.check("ACTIVE" in str(s.state), f"{label}:state-after-start", str(s.state))
        fns = [producer(b, rng.random()) for b in batches]
        if rng.random() < 0.4:
            fns.append(registrar(rng.random() * 0.01))
        if rng.random() < 0.3 and len(listeners) > 1:
            fns.append(deregistrar(listeners[1], 1, rng.random() * 0.01))
        stops = []
        if stop_mode == "concurrent":
            fns.append(stopper(0, rng.random() * 0.02))
        ok = run_threads(ctx, fns, f"{label}:producers")
        if not ok:
            return
        if stop_mode == "after":
            stops = [stopper(0, 0)]
        elif stop_mode in ("two", "three"):
            stops = [stopper(k, rng.random() * 0.002) for k in range(2 if stop_mode == "two" else 3)]
            if rng.random() < 0.5:
                # a producer is still active while the stoppers wait
                stops.append(producer([mk_event(cls, next(ids), rng) for _ in range(10)], rng.random()))
        if stops:
            if not run_threads(ctx, stops, f"{label}:stop-{stop_mode}" + ("-self-append" if self_append else "")):
                return
        ctx.check("FINISHED" in str(s.state), f"{label}:state-after-stop", str(s.state))
        # nothing is accepted or delivered afterwards
        for _ in range(rng.randint(0, 3)):
            append(mk_event(cls, next(ids), rng))
        d.on = False
    stop_call = min(t[0] for t in times.values())
    stop_ret = min(t[1] for t in times.values())
    end = time.time() + HANG[0]
    quiet = rng.random() < 0.2
    if quiet:
        time.sleep(0.02)
    # the delivery thread ends
    alive = [t for t in threading.enumerate() if getattr(getattr(t, "_target", None), "__self__", None) is s]
    for t in alive:
        t.join(max(0.01, end - time.time()))
    ctx.check(not any(t.is_alive() for t in alive), f"{label}:delivery-thread-still-alive", f"stop mode {stop_mode}")
    app = {i: cr for i, cr in app.items()}
    hist = check_history(ctx, app, listeners, regs, stop_call, stop_ret, pre, label)
    ctx.nontrivial(label, pool, n_prod, stop_mode, faults, [p[:40] for p in hist][:2])
    ctx.sample(dict(stream=label, pool=pool, producers=n_prod, events=len(app), listeners=len(listeners), stop=stop_mode, faults=faults, delays=d.n))


def f_event(ctx):
    stress(ctx, LiveEventStream)


def f_trace(ctx):
    stress(ctx, LiveTraceStream)


def f_algo(ctx):
    """the library's own listeners on a live stream with several producers (one or more cases each)"""
    rng = ctx.rng
    pool = rng.choice([None, 1, 3, 6])
    s = LiveEventStream(parameters={"thread_pool_size": pool}) if pool else LiveEventStream()
    acts = ["a", "b", "c", "d"][:rng.randint(2, 4)]
    n_prod = rng.randint(1, 4)
    cases = {f"c{p}_{k}": [rng.choice(acts) for _ in range(rng.randint(1, 12))] for p in range(n_prod) for k in range(rng.randint(1, 3))}
    algo, static = stream_dfg.apply(), LiveToStaticStream()
    s.register(algo); s.register(static)

    def producer(p, seed):
        r = random.Random(seed)
        mine = {c: list(t) for c, t in cases.items() if c.startswith(f"c{p}_")}
        evs = []
        while mine:
            c = r.choice(sorted(mine))
            evs.append(Event({"concept:name": mine[c].pop(0), "case:concept:name": c}))
            if not mine[c]:
                del mine[c]

        def f():
            for e in evs:
                s.append(e)
        return f
    seen = []

    def poller(seed):
        r = random.Random(seed)

        def f():
            for _ in range(5):
                time.sleep(r.random() * 0.002)
                g = algo.get()
                seen.append(None if g is None else sum(g[1].values()))
        return f
    with hostile(ctx, rng) as d:
        s.start()
        fns = [producer(p, rng.random()) for p in range(n_prod)] + [poller(rng.random())]
        if not run_threads(ctx, fns, "algo:producers") or not run_threads(ctx, [s.stop], "algo:stop"):
            return
        d.on = False
    dfg, act, sa, ea = algo.get()
    exp = collections.Counter((t[i], t[i + 1]) for t in cases.values() for i in range(len(t) - 1))
    ctx.eq(dict(dfg), dict(exp), "algo:dfg")
    ctx.eq(dict(act), dict(collections.Counter(a for t in cases.values() for a in t)), "algo:activities")
    ctx.eq(dict(sa), dict(collections.Counter(t[0] for t in cases.values())), "algo:start-activities")
    ctx.eq(dict(ea), dict(collections.Counter(t[-1] for t in cases.values())), "algo:end-activities")
    ctx.check(None not in seen and seen == sorted(seen), "algo:intermediate-results", str(seen))
    got = collections.defaultdict(list)
    st = list(static.get())
    for e in st:
        got[e["case:concept:name"]].append(e["concept:name"])
    ctx.eq(dict(got), cases, "algo:static-stream")
    ctx.ev("deliveries", 2 * len(st))
    ctx.nontrivial(pool, n_prod, sorted(cases.items())[:4], [e["case:concept:name"] for e in st][:30])


def f_dict(ctx):
    """dictionaries of the streaming package under concurrent updates of several threads"""
    rng = ctx.rng
    for var in (dict_generator.Variants.CLASSIC, dict_generator.Variants.THREAD_SAFE):
        d = dict_generator.apply(variant=var)
        name = var.name
        n_t, n_k = rng.randint(1, 4), rng.randint(1, 25)
        errs = []

        def writer(t):
            def f():
                for k in range(n_k):
                    d[f"{t}-{k}"] = 0
                    for v in range(1, 3):
                        d[f"{t}-{k}"] = d[f"{t}-{k}"] + v
            return f

        def reader():
            for _ in range(5):
                if name == "THREAD_SAFE":
                    ks = d.keys()
                    for k in list(ks)[:5]:
                        if d[k] not in (0, 1, 3):
                            errs.append((k, d[k]))
                time.sleep(0.0002)
        with hostile(ctx, rng) as dl:
            if not run_threads(ctx, [writer(t) for t in range(n_t)] + [reader], f"dict:{name}"):
                continue
            dl.on = False
        exp = {f"{t}-{k}": 3 for t in range(n_t) for k in range(n_k)}
        ctx.eq(errs, [], f"dict:{name}:values-seen")
        ctx.eq(set(d.keys()), set(exp), f"dict:{name}:keys")
        ctx.eq({k: d[k] for k in d}, exp, f"dict:{name}:iter")
        ctx.eq(dict(d.items()), exp, f"dict:{name}:items")
        ctx.eq(len(d), len(exp), f"dict:{name}:len")
        res = []
        if run_threads(ctx, [lambda: res.append(sorted(d.values()))], f"dict:{name}:values"):
            ctx.eq(res[0], [3] * len(exp), f"dict:{name}:values")
        ctx.check("0-0" in d and "zz" not in d, f"dict:{name}:contains")
        ctx.ev("dictionary updates", 3 * len(exp))
        ctx.nontrivial(name, n_t, n_k)


GIVEN_UP = []


def guarded(f):
    """a case that does not end is a violation, and the last case of its worker (threads of pm4py are still blocked)"""
    def g(ctx):
        if GIVEN_UP:
            ctx.ev("cases skipped after a hang")
            return
        box = []

        def body():
            try:
                f(ctx)
            except BaseException as e:      # noqa
                box.append(e)
        t = threading.Thread(target=body, daemon=True)
        t.start()
        t.join(60)
        if t.is_alive():
            GIVEN_UP.append(1)
            import traceback
            fr = sys._current_frames().get(t.ident)
            at = " < ".join(f"{os.path.basename(x.filename)}:{x.lineno}:{x.name}" for x in reversed(traceback.extract_stack(fr)[-8:])) if fr else "?"
            ctx.fail(f"{f.__name__[2:]}:does-not-terminate", f"no result within 60 s; blocked at {at}")
        elif HANG[0] < 25:
            GIVEN_UP.append(1)
        if box:
            raise box[0]
    return g


FAMILIES = {
    "event": (140, 2500, guarded(f_event)),
    "trace": (70, 1200, guarded(f_trace)),
    "algo": (60, 1200, guarded(f_algo)),
    "dict": (25, 250, guarded(f_dict)),
}
