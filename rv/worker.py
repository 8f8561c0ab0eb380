"""Worker: runs its shard of the cases of one check and streams records to a file."""
import importlib, json, os, random, resource, signal, sys, time, traceback, zlib

CASE_CPU = 90       # CPU seconds one case may use before it counts as "no result"
BATCH = 20

from rv import ref


class CaseTimeout(BaseException):
    pass


class Stop(Exception):
    """raised by Ctx.abort(): end of case (already recorded)"""


class Ctx:
    def __init__(self, family, index, rng, tier):
        self.family, self.index, self.rng, self.tier = family, index, rng, tier
        self.viol, self.events, self.sigs, self.samples = [], {}, [], []

    def fail(self, key, msg="", **detail):
        if any(v["key"] == key for v in self.viol):
            return
        self.viol.append(dict(key=key.replace(" ", "_"), msg=str(msg)[:4000], detail={k: repr(v)[:3000] for k, v in detail.items()}))

    def check(self, cond, key, msg="", **detail):
        self.ev("oracle_checks")
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, **detail)
        return bool(cond)

    def eq(self, got, exp, key, **detail):
        self.ev("oracle_checks")
        if got != exp:
            self.fail(key, f"got {got!r:.1500} expected {exp!r:.1500}", **detail)
            return False
        return True

    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + n

    def nontrivial(self, *sig):
        self.sigs.append("%08x%08x" % (zlib.crc32(repr(sig).encode("utf-8", "replace")), zlib.adler32(repr(sig).encode("utf-8", "replace"))))

    def sample(self, x):
        if not self.samples:
            self.samples.append(x if isinstance(x, (dict, list, str)) else repr(x))

    def call(self, label, fn, *a, **kw):
        """call into the code under test; an exception on this (valid) input is a violation"""
        self.ev("calls")
        try:
            return fn(*a, **kw)
        except CaseTimeout:
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-6:]))
            self.fail(f"{label}:exception:{type(e).__name__}", f"{type(e).__name__}: {e!s:.500} at {where}")
            raise Stop()


def lines_seen(_):
    """the lines of pm4py executed inside functions (development aid: which code do the monitors never see?)"""
    mon, seen = sys.monitoring, {}

    def line(code, n):
        if "/pm4py/" in code.co_filename and code.co_name != "<module>":
            seen.setdefault(code.co_filename, set()).add(n)
        return mon.DISABLE
    mon.use_tool_id(3, "rv")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)
    return seen


def main():
    prop, tier, seed, shard, nshards, out, start = sys.argv[1:8]
    seed, shard, nshards, start = int(seed), int(shard), int(nshards), int(start)
    only = (sys.argv[8], int(sys.argv[9])) if len(sys.argv) > 9 else None
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    sys.setrecursionlimit(3000)
    t0 = time.time()
    cap = {"quick": 600, "thorough": 3 * 3600 - 300}[tier]
    hb_path = out + ".hb"
    fo = open(out, "a", encoding="utf-8")

    def emit(**r):
        fo.write(json.dumps(r, ensure_ascii=True, default=repr) + "\n"); fo.flush()

    def hb(i, fam):
        with open(hb_path, "w") as f:
            f.write(f"{i} {fam}")
    hb(-1, "import")
    cov = lines_seen(os.environ["RV_COV"]) if os.environ.get("RV_COV") else None
    mod = importlib.import_module(f"rv.checks.{prop.lower()}")
    fams = mod.FAMILIES
    if start == 0:
        emit(k="meta", rule=mod.RULE, assumptions=getattr(mod, "ASSUMPTIONS", []), minimum=getattr(mod, "MINIMUM", {"oracle_checks": 50}))

    def handler(sig, frm):
        in_pm4py.append(any("/pm4py/" in f.filename for f in traceback.extract_stack(frm)))
        where.append(" < ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(traceback.extract_stack(frm)[-12:])))
        raise CaseTimeout()
    where, in_pm4py = [], []
    hung = False
    signal.signal(signal.SIGVTALRM, handler)
    # interleave the families so that every prefix of the run covers all of them
    counts = {f: (spec[0] if tier == "quick" else spec[1]) for f, spec in fams.items()}
    scale = float(os.environ.get("RV_SCALE", "1"))
    order = sorted(((i + 0.5) / max(1, n), f, i) for f, n in counts.items() for i in range(max(1, int(n * scale))))
    todo = [(f, i) for _, f, i in order]
    mine = [c for j, c in enumerate(todo) if j % nshards == shard]
    if only:
        mine = [only]
    if os.environ.get("RV_FAMILY"):
        mine = [c for c in mine if c[0] in os.environ["RV_FAMILY"].split(",")]
    acc = dict(families={}, events={}, sigs=[], samples=[])
    n_in = 0
    capped = 0

    def flush():
        nonlocal acc, n_in
        if n_in:
            emit(k="batch", **acc)
        acc = dict(families={}, events={}, sigs=[], samples=[]); n_in = 0
    budget = getattr(mod, "CASE_CPU", CASE_CPU)
    until_first = os.environ.get("RV_MUT")      # development aid (tools/mutate.py): the first violation is enough
    if until_first:
        from rv import runner
        known, budget = runner.known_findings(prop), 20
    for pos, (fam, i) in enumerate(mine):
        if pos < start:
            continue
        if time.time() - t0 > cap:
            capped = len(mine) - pos
            break
        hb(pos, f"{fam} {i}")
        for attempt in (1, 2):
            rng = random.Random(f"{seed}/{prop}/{fam}/{i}")
            random.seed(f"{seed}/{prop}/{fam}/{i}/global")
            try:
                import numpy
                numpy.random.seed(zlib.crc32(f"{seed}/{prop}/{fam}/{i}".encode()))
            except ImportError:
                pass
            ctx = Ctx(fam, i, rng, tier)
            tc = time.time()
            where.clear(); in_pm4py.clear()
            signal.setitimer(signal.ITIMER_VIRTUAL, budget, 5)
            late = False
            try:
                fams[fam][2](ctx)
            except Stop:
                pass
            except CaseTimeout:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
                late = True
            except ref.TooBig:
                ctx.ev("cases beyond the reference bound")
            except (Exception, RecursionError) as e:
                tb = traceback.extract_tb(e.__traceback__)
                at = " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}:{f.name}" for f in reversed(tb[-7:]))
                ctx.fail(f"{fam}:unexpected:{type(e).__name__}", f"{type(e).__name__}: {e!s:.500} at {at}")
            finally:
                signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if not late:
                break
            if not any(in_pm4py):       # the reference is slow, not pm4py
                ctx.ev("cases beyond the reference time")
                break
            # a search whose order depends on memory addresses may be unlucky once; twice is a hang
            if os.environ.get("RV_LATE"):
                with open(os.environ["RV_LATE"], "a") as lf:
                    lf.write(f"{prop} {seed} {fam} {i} {where[:1]}\n")
            if attempt == 2 or hung:
                hung = True
                ctx.fail(f"{fam}:no-result", f"no result within {budget} CPU seconds, twice; last seen at {where[:1]}")
                break
        for v in ctx.viol:
            emit(k="viol", family=fam, index=i, shard=shard, **v)
        if until_first and any(v["key"] not in known for v in ctx.viol):
            break
        acc["families"][fam] = acc["families"].get(fam, 0) + 1
        for e, n in ctx.events.items():
            acc["events"][e] = acc["events"].get(e, 0) + n
        acc["sigs"].extend(ctx.sigs)
        if len(acc["samples"]) < 1 and ctx.samples:
            acc["samples"].extend({"family": fam, "index": i, "case": s} for s in ctx.samples)
        if os.environ.get("RV_SLOW") and time.time() - tc > float(os.environ["RV_SLOW"]):
            print("SLOW", fam, i, round(time.time() - tc, 2), file=sys.stderr)
        n_in += 1
        if n_in >= BATCH:
            flush()
    flush()
    if cov is not None:
        with open(os.path.join(os.environ["RV_COV"], f"{prop}_{shard}_{os.getpid()}.json"), "w") as f:
            json.dump({k: sorted(v) for k, v in cov.items()}, f)
    emit(k="done", capped=capped)
    fo.close()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(0)


if __name__ == "__main__":
    from rv import worker      # one identity of the classes above, whoever imports them
    worker.main()
