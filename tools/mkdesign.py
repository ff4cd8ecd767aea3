"""Regenerates the per-property part of DESIGN.md (between the markers) from the check modules and notes.json.
Run with /opt/venv/bin/python."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt import env  # noqa: E402

env.setup_path()
from pbt import core  # noqa: E402

props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
notes = json.load(open(os.path.join(HERE, "tools", "notes.json")))
out = []
for p in props:
    i = p["id"]
    n = notes[i]
    importlib.import_module(f"pbt.props.{i.lower()}")
    subs = [(x.name, x.quick, x.thorough, " ".join(x.rule.split())) for x in core.REGISTRY[i].values()]
    out.append(f"### {i} {p['title']}\n")
    out.append(f"Oracle: {n['oracle']}. Explored: {n['bounds']}. Beyond the tests: {n['why']}."
               + (f" Note: {n['note']}" if n.get("note") else "") + "\n")
    for name, q, t, doc in subs:
        out.append(f"- `{name}` ({q} / {t} cases): {doc}")
    out.append("")
f = os.path.join(HERE, "DESIGN.md")
s = open(f).read()
a, b = "<!-- properties:begin -->", "<!-- properties:end -->"
t = open(os.path.join(HERE, "tools", "tail.md")).read()
known = open(os.path.join(HERE, "known_findings.txt")).read().splitlines()
opened = ["- " + l.split("property=")[1] for l in known if l.startswith("KNOWN-FINDING:")]
fixed = sorted("- " + l.split("property=")[1] for l in known if l.startswith("fixed:"))
caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
rows = []
d = os.path.join(HERE, "seeded")
for i in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, i, "meta.json")))
    c = caught.get(i)
    rows.append(f"| {i} | {m['property']} | {m['needs']} | {'not evaluated' if c is None else ', '.join(c) or 'missed'} |")
for k, v in (("@OPEN@", "\n".join(opened)), ("@FIXED@", "\n".join(fixed)), ("@NFIX@", str(len(fixed))), ("@SEEDED@", "\n".join(rows))):
    t = t.replace(k, v)
s = s[:s.index(a) + len(a)] + "\n\n" + "\n".join(out) + "\n" + b + "\n\n" + t
open(f, "w").write(s)
