"""Mutation campaign (development aid): which small faults in the code a check executes does it miss?

python tools/mutate.py PROP COVDIR FILES.. [--n 40] [--seed 1] [--jobs 8] [--scale 0.3]
FILES: path prefixes relative to the repo.  Mutants are made on lines which the check executed (RV_COV), in scratch copies
under /tmp; survivors of the scaled run are run again with the full quick tier; survivors of that are printed."""
import ast, argparse, concurrent.futures, glob, json, os, random, shutil, subprocess, sys, time
ap = argparse.ArgumentParser()
ap.add_argument("prop"); ap.add_argument("cov"); ap.add_argument("files", nargs="+")
ap.add_argument("--n", type=int, default=40); ap.add_argument("--seed", type=int, default=1)
ap.add_argument("--jobs", type=int, default=8); ap.add_argument("--scale", default="0.25")
ap.add_argument("--per", type=int, default=0)
A = ap.parse_args()
R = random.Random(A.seed)
REPO = os.environ.get("RV_REPO", "/repo")
cov = {}
for f in glob.glob(f"{A.cov}/{A.prop}_*.json"):
    for k, v in json.load(open(f)).items():
        cov.setdefault(os.path.relpath(k, REPO), set()).update(v)

CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in", ast.Is: "is not", ast.IsNot: "is"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "+"}


def seg(src, n):
    return ast.get_source_segment(src, n)


def mutants(rel):
    src = open(f"{REPO}/{rel}").read()
    t = ast.parse(src)
    lines = src.split("\n")
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l) + 1)

    def pos(line, col):
        return off[line - 1] + len(lines[line - 1].encode()[:col].decode())
    out = []

    def put(n, new, kind):
        out.append((n.lineno, pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset), new, kind))
    got = cov.get(rel, set())
    doc = set()
    for fn in ast.walk(t):
        if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
            continue
        for b in fn.body:
            for n in ast.walk(b):
                if not hasattr(n, "lineno") or n.lineno not in got:
                    continue
                if isinstance(n, ast.Compare) and len(n.ops) == 1:
                    l, r = seg(src, n.left), seg(src, n.comparators[0])
                    put(n, f"({l} {CMP[type(n.ops[0])]} {r})", "cmp")
                elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub) and isinstance(n.left, ast.Constant) and not isinstance(n.left.value, str):
                    if any(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)) or not type(n.op) in BIN:
                        continue
                    put(n, f"({seg(src, n.left)} {BIN[type(n.op)]} {seg(src, n.right)})", "bin")
                elif isinstance(n, ast.BoolOp):
                    vs = [seg(src, v) for v in n.values]
                    for k in range(len(vs)):
                        put(n, "(" + (" and " if isinstance(n.op, ast.And) else " or ").join(f"({v})" for j, v in enumerate(vs) if j != k) + ")", "dropbool")
                elif isinstance(n, (ast.If, ast.IfExp)):
                    put(n.test, f"(not ({seg(src, n.test)}))" if R.random() < .5 else "True" if R.random() < .5 else "False", "if")
                elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                    put(n, repr(n.value + 1), "const")
                elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
                    put(n, repr(not n.value), "const")
                elif isinstance(n, (ast.AugAssign,)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                    put(n, "pass", "delstmt")
                elif isinstance(n, ast.Call):
                    f = n.func
                    nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
                    if nm == "get_param_value" and len(n.args) == 3:
                        put(n, seg(src, n.args[2]), "param")
                    elif nm in ("sorted", "copy", "deepcopy", "set", "abs", "list", "tuple", "reversed") and len(n.args) == 1 and not isinstance(n.args[0], ast.GeneratorExp):
                        put(n, f"({seg(src, n.args[0])})", "unwrap")
                    elif nm in ("min", "max") and n.args:
                        s = seg(src, n)
                        put(n, s.replace(nm, "max" if nm == "min" else "min", 1), "minmax")
                    elif nm in ("copy",) and not n.args and isinstance(f, ast.Attribute):
                        put(n, seg(src, f.value), "unwrap")
                    elif nm in ("intersection", "union", "difference") and len(n.args) == 1 and isinstance(f, ast.Attribute):
                        put(n, seg(src, f.value), "unwrap")
                elif isinstance(n, ast.Continue):
                    put(n, "break", "flow")
                elif isinstance(n, ast.Break):
                    put(n, "pass", "flow")
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                    put(n, f"({seg(src, n.operand)})", "unary")
                elif isinstance(n, ast.Return) and n.value is None:
                    put(n, "pass", "flow")
                elif isinstance(n, ast.comprehension) and n.ifs:
                    pass
                elif isinstance(n, ast.Slice):
                    pass
    res = []
    for ln, a, b, new, kind in out:
        old = src[a:b]
        if old == new or any(x in old for x in ("deprecation_warning", "check_pandas_dataframe_columns", "find_spec", "progress", "warnings.")):
            continue
        m = src[:a] + new + src[b:]
        try:
            compile(m, rel, "exec")
        except SyntaxError:
            continue
        res.append((rel, ln, old, new, kind, m))
    return res


def run(w, scale, shards):
    e = dict(os.environ, RV_REPO=w, RV_SCALE=scale, RV_SHARDS=str(shards), VERIF_SEED="1", RV_MUT="1")
    e.pop("RV_COV", None)
    try:
        c = subprocess.run([os.environ.get("RV_ROOT", "/verif") + "/check.sh", A.prop, "quick"], env=e, capture_output=True, text=True, timeout=900)
    except subprocess.TimeoutExpired:
        return "timeout", ""
    v = [l for l in c.stdout.splitlines() if l.startswith("  [")]
    return c.returncode, (v[0][:140] if v else c.stdout[-200:])


def one(k, m):
    rel, ln, old, new, kind, text = m
    w = f"/tmp/mut_{A.prop}_{os.getpid()}_{k}"
    os.makedirs(w)
    try:
        subprocess.run(["cp", "-a", f"{REPO}/pm4py", w])
        open(f"{w}/{rel}", "w").write(text)
        rc, v = run(w, A.scale, 1)
        if rc != 1:
            rc, v = run(w, "1", 1)
        return rc, v
    finally:
        shutil.rmtree(w, ignore_errors=True)


ms = []
for rel in sorted(cov):
    if any(rel.startswith(p) for p in A.files):
        x = mutants(rel)
        if A.per and len(x) > A.per:
            x = R.sample(x, A.per)
        ms += x
R.shuffle(ms)
total = len(ms)
ms = ms[:A.n]
t0 = time.time()
killed = 0
with concurrent.futures.ThreadPoolExecutor(A.jobs) as ex:
    fs = {ex.submit(one, k, m): m for k, m in enumerate(ms)}
    for f in concurrent.futures.as_completed(fs):
        rel, ln, old, new, kind, _ = fs[f]
        rc, v = f.result()
        if rc == 1:
            killed += 1
        else:
            print(f"SURVIVED rc={rc} {rel}:{ln} [{kind}] {old[:110]!r} -> {new[:110]!r}", flush=True)
print(f"{A.prop}: {killed}/{len(ms)} killed of {total} candidate mutants, {time.time()-t0:.0f}s")
