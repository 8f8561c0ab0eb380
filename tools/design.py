"""Regenerates /verif/DESIGN.md from: the text below, the check modules (rule, assumptions, workload families), the
known-findings file and the metadata of the planted bugs.      /opt/venv/bin/python tools/design.py"""
import glob, importlib, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, "/repo"]

INTRO = open(os.path.join(ROOT, "tools", "design_intro.md")).read()
NOTES = {}
cur = None
for line in open(os.path.join(ROOT, "tools", "design_notes.md")):
    m = re.match(r"## (C\d+)", line)
    if m:
        cur = m.group(1); NOTES[cur] = ""
    elif cur:
        NOTES[cur] += line
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
fixes, known = {}, {}
for l in open(os.path.join(ROOT, "known_findings.txt"), encoding="utf-8"):
    m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l.strip())
    if m:
        fixes.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    m = re.match(r"known: property=(\S+) key=(\S+) (.*)", l.strip())
    if m:
        known.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
seeds = {}
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    seeds.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
out = [INTRO.rstrip(), "", "## Properties", ""]
for p in props:
    c = p["id"]
    try:
        m = importlib.import_module(f"rv.checks.{c.lower()}")
    except ModuleNotFoundError:
        m = None
    out += [f"### {c} — {p['title']}", "", p["statement"], ""]
    if m:
        out += [f"*Oracle.* {m.RULE}.", ""]
        out += ["*Workloads (executions quick / thorough).* " + ", ".join(f"{k} {v[0]}/{v[1]}" for k, v in m.FAMILIES.items()) + ".", ""]
    if NOTES.get(c, "").strip():
        out += [NOTES[c].strip(), ""]
    if m and getattr(m, "ASSUMPTIONS", []):
        out += ["*Assumptions.*", ""] + [f"- {a}" for a in m.ASSUMPTIONS] + [""]
    if fixes.get(c):
        out += [f"*Genuine defects found and repaired:* {len(fixes[c])} (`grep 'fixed: property={c} ' known_findings.txt`).", ""]
    if known.get(c):
        out += ["*Known findings (recorded, not repaired):*", ""] + [f"- `{k}`: {w}" for k, w in known[c]] + [""]
    if seeds.get(c):
        out += ["*Planted bugs:* " + "; ".join(f"`{i}` ({d['what_it_breaks']}; {d.get('caught_by', 'caught by ' + c)})" for i, d in seeds[c]) + ".", ""]
n = sum(map(len, seeds.values()))
out += [open(os.path.join(ROOT, "tools", "design_outro.md")).read().rstrip(), "", f"Totals: {len(props)} properties, {sum(map(len, fixes.values()))} repaired defects, "
        f"{sum(map(len, known.values()))} known findings, {n} planted bugs.", ""]
open(os.path.join(ROOT, "DESIGN.md"), "w").write("\n".join(out))
