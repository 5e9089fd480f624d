#!/opt/venv/bin/python
"""Refresh the generated parts of DESIGN.md (properties, planted bugs) from properties, checks, evidence and seeded"""
import importlib
import json
import os
import re
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, "tools"), "/repo/src"]
os.environ.setdefault("NUMBA_CACHE_DIR", "/tmp/nbc")
from props import P  # noqa: E402


def block(text, name, content):
    a, b = f"<!-- {name} -->", f"<!-- end {name} -->"
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda _: f"{a}\n{content}\n{b}", text, flags=re.S)


def one_property(p):
    out = [f"### {p['id']} — {p['title']}", ""]
    path = os.path.join(ROOT, "checks", p["id"] + ".py")
    if p.get("na") or not os.path.exists(path):
        return "\n".join(out + [p.get("na") or "not built", ""])
    m = importlib.import_module("checks." + p["id"])
    out.append(f"*Specified*: {p['statement']}")
    out.append("")
    out.append(f"*Decided by*: {p['technique']}. *Why tests do not reach it*: {p['why']}.")
    if p.get("oracle"):
        out.append("")
        out.append(f"*Oracle*: {p['oracle']}")
    out.append("")
    for s in m.SCENARIOS:
        need = f"; must be covered: {', '.join(s.need)}" if s.need else ""
        out.append(f"- `{s.name}`: {s.bound or 'see check'}{need}")
    if getattr(m, "ASSUMPTIONS", None):
        out.append("")
        out.append("*Assumptions*: " + "; ".join(m.ASSUMPTIONS) + ".")
    ev = os.path.join(ROOT, "evidence", p["id"] + ".json")
    out.append("")
    return "\n".join(out)


def seeded():
    rows = ["| id | property | needs | caught by |", "|---|---|---|---|"]
    root = os.path.join(ROOT, "seeded")
    for name in sorted(os.listdir(root)):
        with open(os.path.join(root, name, "meta.json")) as h:
            meta = json.load(h)
        rows.append(f"| {name} | {meta['property']} | {meta['needs']} | {meta.get('caught_by', meta['property'])} |")
    return "\n".join(rows)


def fixed():
    with open(os.path.join(ROOT, "KNOWN_FINDINGS.json")) as h:
        data = json.load(h)
    return "\n".join("- " + i.removeprefix("fixed: ") for i in data["fixed"])


path = os.path.join(ROOT, "DESIGN.md")
with open(path) as h:
    text = h.read()
text = block(text, "properties", "\n".join(one_property(p) for p in P))
text = block(text, "seeded", seeded())
text = block(text, "fixed", fixed())
with open(path, "w") as h:
    h.write(text)
