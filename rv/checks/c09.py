"""C09 the answer of an analysis does not depend on the representation of the log"""
import copy
from rv import api, gen, h

RULE = "metamorphic: the same function on the same cases as dataframe / EventLog, with default / user-chosen column names, extra columns, another index, other row interleavings and case orders, compared in canonical form"
ASSUMPTIONS = ["timestamps are distinct in a case and over the log, so that every row order compatible with the cases denotes the same log",
               "results given per case are compared as a collection (their order follows the representation)"]
MINIMUM = {"comparisons": 2500, "functions": 1500}


def reps(r, al):
    """[(name, object, keys)]; the first is the reference"""
    K = {"activity_key": "Act", "timestamp_key": "When", "resource_key": "Who"}
    out = [("dataframe", al.to_df(), {})]
    out.append(("log", al.to_log(), {}))
    df = al.to_df(h.ALT, h.ALT_CASE, order=r.choice([None, "interleave"]), rng=r)
    df["extra"] = [r.choice(["u", None, 3]) for _ in range(len(df))]
    df.insert(0, "first", range(len(df)))
    out.append(("dataframe, other names, row order and extra columns", df, dict(K, case_id_key=h.ALT_CASE)))
    df = al.to_df(h.ALT, h.ALT_CASE, rng=r)
    for k, v in (("concept:name", "zz"), ("time:timestamp", al.cases[0][2][0]["time:timestamp"]), ("case:concept:name", "one"), ("org:resource", "Nobody")):
        df[k] = v
    out.append(("dataframe, other names and decoy default columns", df, dict(K, case_id_key=h.ALT_CASE)))
    out.append(("log, other names", al.to_log(h.ALT), K))
    out.append(("dataframe, other row order and index", al.to_df(order=r.choice(["interleave", "time"]), index=r.choice(["shuffled", "dup"]), rng=r), {}))
    perm = gen.ALog(r.sample(al.cases, len(al.cases)))
    out.append(("dataframe, other case order", perm.to_df(), {}))
    out.append(("log, other case order", perm.to_log(), {}))
    return out


def run(ctx, fns, n):
    r = ctx.rng
    al = gen.rand_alog(r, distinct_time=True, n=r.choice([2, 3, 5, 8]), maxlen=r.choice([4, 6, 8]))
    al.cases = [c for c in al.cases if c[2]]
    if not al.cases:
        return
    E = api.Env(r, al)
    R = reps(r, al)
    for name, tags, call, can in r.sample(fns, min(n, len(fns))):
        base = None
        ctx.ev("functions")
        for i, (rep, x, K) in enumerate(R):
            if ("nokeys" in tags and K) or ("df" in tags and rep.startswith("log")) or ("order" in tags and "order" in rep) or ("nodecoy" in tags and "decoy" in rep):
                continue
            try:
                y = x.copy() if hasattr(x, "columns") else copy.deepcopy(x)
                got = can(call(E, y, K), E, y, K)
            except Exception as e:
                got = ("exception", type(e).__name__, str(e)[:200])
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                got = ("exception", type(e).__name__, str(e)[:200], f"{tb.filename.split('/')[-1]}:{tb.lineno}")
            if i == 0:
                base = got
                continue
            ctx.ev("comparisons")
            if isinstance(got, tuple) and got and got[0] == "exception" and isinstance(base, tuple) and base and base[0] == "exception":
                continue
            if not api.same(base, got):
                ctx.fail(f"{name}:{rep}", f"dataframe: {str(base)[:500]} -- {rep}: {str(got)[:500]}")
            else:
                ctx.nontrivial(name, rep, str(base)[:120])


def fast(ctx):
    run(ctx, [f for f in api.L if "slow" not in f[1]], 10)


def slow(ctx):
    run(ctx, [f for f in api.L if "slow" in f[1]], 2)


FAMILIES = {"all": (260, 5000, fast), "costly": (40, 600, slow)}
