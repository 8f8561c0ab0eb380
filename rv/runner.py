"""Parent process: shards the workload over worker processes, aggregates what the
monitors recorded, applies the known-findings file, writes evidence and the verdict."""
import hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RV_REPO", "/repo")
PY = sys.executable
NSHARDS = int(os.environ.get("RV_SHARDS", "8"))
WALL_CAP = {"quick": 700, "thorough": 3 * 3600}
STALL = 240  # seconds without any heartbeat before a worker is declared stuck (inconclusive)


def known_findings(prop):
    out = {}
    path = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out[m.group(2)] = m.group(3)
    return out


def worker_env(scratch, shard, seed):
    env = {k: v for k, v in os.environ.items() if k in ("PATH", "HOME", "LANG", "VERIF_SEED", "VERIF_TIER") or k.startswith("RV_")}
    env.update(PYTHONPATH=REPO + os.pathsep + ROOT, PYTHONPYCACHEPREFIX=os.path.join(scratch, "pyc"),
               PYTHONHASHSEED=str((seed * 64 + shard) % 4294967295), TMPDIR=os.path.join(scratch, "tmp"),
               MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"), OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               MKL_NUM_THREADS="1", POLARS_MAX_THREADS="1", PM4PY_SHOW_PROGRESS_BAR="False", PM4PY_SHOW_INTERNAL_WARNINGS="False",
               TZ="UTC", LC_ALL="C.UTF-8", PYTHONWARNINGS="ignore", PYTHONUNBUFFERED="1")
    return env


def spawn(prop, tier, seed, shard, scratch, start, extra=()):
    out = os.path.join(scratch, f"out-{shard}.jsonl")
    log = open(os.path.join(scratch, f"log-{shard}.txt"), "ab")
    return subprocess.Popen([PY, "-m", "rv.worker", prop, tier, str(seed), str(shard), str(NSHARDS), out, str(start), *extra],
                            cwd=os.path.join(scratch, "tmp"), env=worker_env(scratch, shard, seed),
                            stdout=log, stderr=log, stdin=subprocess.DEVNULL, start_new_session=True), out


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def run(prop, tier, seed, replay=None):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="rv-")
    os.makedirs(os.path.join(scratch, "tmp")); os.makedirs(os.path.join(scratch, "pyc"))
    try:
        return _run(prop, tier, seed, replay, scratch, t0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def read_lines(path):
    if not os.path.exists(path):
        return []
    res = []
    with open(path, "rb") as f:
        for line in f:
            try:
                res.append(json.loads(line))
            except ValueError:
                pass  # truncated last line of a killed worker
    return res


def _run(prop, tier, seed, replay, scratch, t0):
    global NSHARDS
    procs, notes, deaths = {}, [], []
    extra = ()
    shards = range(NSHARDS)
    if replay:
        NSHARDS = replay["nshards"]
        shards = [replay["shard"]]
        extra = (replay["family"], str(replay["index"]))
    for s in shards:
        p, out = spawn(prop, tier, seed, s, scratch, 0, extra)
        procs[s] = dict(p=p, out=out, last=time.time(), size=-1)
    restarts = {s: 0 for s in procs}
    live = set(procs)
    while live:
        time.sleep(0.1)
        now = time.time()
        for s in list(live):
            d = procs[s]
            rc = d["p"].poll()
            hb = d["out"] + ".hb"
            try:
                m = os.stat(hb).st_mtime_ns
            except OSError:
                m = -1
            if m != d["size"]:
                d["size"], d["last"] = m, now
            if rc is None and now - t0 > WALL_CAP[tier] + 60:
                kill(d["p"]); rc = "wall"
            elif rc is None and now - d["last"] > STALL:
                kill(d["p"]); rc = "stall"
            if rc is None:
                continue
            if rc == 0:
                live.discard(s); continue
            try:
                cur = open(hb).read().strip()
            except OSError:
                cur = "?"
            tail = open(os.path.join(scratch, f"log-{s}.txt"), "rb").read()[-1500:].decode("utf-8", "replace")
            deaths.append(dict(shard=s, rc=rc, at=cur, log=tail))
            if rc == "wall" or restarts[s] >= 3 or cur == "?" or replay:
                live.discard(s); continue
            restarts[s] += 1
            nxt = int(cur.split()[0]) + 1
            p, out = spawn(prop, tier, seed, s, scratch, nxt, extra)
            d.update(p=p, last=now, size=-1)
            if False:
                notes.append("")
    # aggregate
    agg = dict(cases=0, families={}, events={}, sigs=set(), samples=[], viol=[], meta=None, capped=0, done=0)
    for s in procs:
        for r in read_lines(procs[s]["out"]):
            k = r["k"]
            if k == "meta":
                agg["meta"] = r
            elif k == "batch":
                for f, n in r["families"].items():
                    agg["families"][f] = agg["families"].get(f, 0) + n
                    agg["cases"] += n
                for e, n in r["events"].items():
                    agg["events"][e] = agg["events"].get(e, 0) + n
                agg["sigs"].update(r["sigs"])
                agg["samples"].extend(r["samples"])
            elif k == "viol":
                agg["viol"].append(r)
            elif k == "done":
                agg["done"] += 1
                agg["capped"] += r["capped"]
    known = known_findings(prop)
    unknown, seen_known = {}, {}
    for v in agg["viol"]:
        if v["key"] in known:
            seen_known[v["key"]] = seen_known.get(v["key"], 0) + 1
        else:
            unknown.setdefault(v["key"], []).append(v)
    if replay:
        for v in agg["viol"]:
            print(json.dumps(v, indent=1, ensure_ascii=False))
        for d in deaths:
            print("worker died:", d)
        hit = [v for v in agg["viol"] if v["key"] == replay["key"]]
        print("REPRODUCED" if hit else "not reproduced")
        return 1 if hit else 0
    for k, what in known.items():
        print(f"KNOWN-FINDING: property={prop} {what} [key={k}; seen {seen_known.get(k, 0)}x in this run]")
    rdir = os.path.join(ROOT, "replays", prop)
    n_v = 0
    for key, vs in sorted(unknown.items()):
        os.makedirs(rdir, exist_ok=True)
        v = vs[0]
        path = os.path.join(rdir, hashlib.sha1(key.encode()).hexdigest()[:12] + ".json")
        with open(path, "w") as f:
            json.dump(dict(v, property=prop, tier=tier, seed=seed, nshards=NSHARDS), f, indent=1, ensure_ascii=False)
        n_v += 1
        if n_v <= 25:
            print(f"  [{key}] x{len(vs)}: {v['msg'][:600]}")
            print(f"VIOLATION property={prop} replay={path}")
    meta = agg["meta"] or {}
    cov = dict(evaluations=agg["cases"], distinct_nontrivial=len(agg["sigs"]), rule=meta.get("rule", ""),
               samples=agg["samples"][:6], families=agg["families"], monitor_events=agg["events"],
               hash_seeds=len(procs), known_findings_seen=seen_known)
    if agg["capped"]:
        cov["cases_skipped_by_wall_cap"] = agg["capped"]
    if deaths:
        cov["worker_deaths"] = [dict(d, log=d["log"][-300:]) for d in deaths]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=meta.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=n_v)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    print(f"{prop} {tier} seed={seed}: {agg['cases']} executions, {len(agg['sigs'])} distinct non-trivial, "
          f"{sum(agg['events'].values())} monitored events, {n_v} violation(s), {ev['wall_s']}s")
    if n_v:
        return 1
    short = [f"{k}={agg['events'].get(k, 0)}<{v}" for k, v in meta.get("minimum", {}).items() if agg["events"].get(k, 0) < v]
    if deaths or agg["done"] < len(procs):
        for d in deaths:
            print("INCONCLUSIVE worker died:", d["shard"], d["rc"], d["at"], d["log"][-600:])
        return 2
    if not agg["sigs"] or short:
        print("INCONCLUSIVE: monitors observed too little:", short)
        return 2
    return 0


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED") or "1")
    if a and a[0] == "--replay":
        r = json.load(open(a[1]))
        sys.exit(run(r["property"], r["tier"], r["seed"], replay=r))
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(run(prop, tier, seed))


if __name__ == "__main__":
    main()
