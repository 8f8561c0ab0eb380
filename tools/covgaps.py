"""Which functions of pm4py do the monitored executions never enter?   python tools/covgaps.py COVDIR [path filter]
(COVDIR: written by runs with RV_COV=COVDIR)"""
import ast, glob, json, os, sys
REPO = os.environ.get("RV_REPO", "/repo")
cov = {}
for f in glob.glob(sys.argv[1] + "/C*_*.json"):
    for k, v in json.load(open(f)).items():
        cov.setdefault(os.path.relpath(k, REPO), set()).update(v)
flt = sys.argv[2] if len(sys.argv) > 2 else ""
tot = hit = 0
for root, _, files in os.walk(REPO + "/pm4py"):
    for fn in sorted(files):
        p = os.path.join(root, fn)
        rel = os.path.relpath(p, REPO)
        if not fn.endswith(".py") or flt not in rel:
            continue
        got = cov.get(rel, set())
        t = ast.parse(open(p).read())
        miss = []
        n = 0
        for d in ast.walk(t):
            if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
                lines = {s.lineno for b in d.body for s in ast.walk(b) if isinstance(s, ast.stmt)
                         and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))}
                if not lines:
                    continue
                n += 1; tot += 1
                if lines & got:
                    hit += 1
                    part = sorted(l for l in lines - got)
                    if part and "-l" in sys.argv:
                        miss.append(f"{d.name}{part}")
                else:
                    miss.append(d.name)
        if miss:
            print(f"{rel} {len(miss)}/{n}: {' '.join(miss)}")
print(f"functions entered: {hit} of {tot}")
