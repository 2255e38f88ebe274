#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from tools/table.py and seeded/*/meta.json (idempotent)."""
import json, glob, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/xtypes/"
PBT = NOTE = ""
def P(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    return dict(id=id, title=title, technique=technique, note=note, text=text, why=why)
T = []
exec(open(os.path.join(V, "tools/table.py")).read())
rules = {}
for p in T:
    s = open(os.path.join(V, "props", p["id"] + ".cpp")).read() if os.path.exists(os.path.join(V, "props", p["id"] + ".cpp")) else ""
    m = re.search(r'p\.rule = ((?:"(?:[^"\\]|\\.)*"\s*)+);', s)
    rules[p["id"]] = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(1))) if m else ""
    m = re.search(r'p\.quick_cases = (\d+)', s)
    p["cases"] = m.group(1) if m else "?"
props = "\n".join("### %s: %s\n\n*Over* %s. *Oracle and method*: %s. *Generated* (%s per quick run): %s *Limits*: %s *Why not by tests*: %s\n"
    % (p["id"], p["title"], p["text"], p["technique"], p["cases"], rules[p["id"]], p["note"], p["why"]) for p in T)
rows = ["| change | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
caught = json.load(open(os.path.join(V, "tools/caught.json"))) if os.path.exists(os.path.join(V, "tools/caught.json")) else {}
for f in sorted(glob.glob(os.path.join(V, "seeded/*/meta.json"))):
    m = json.load(open(f)); i = f.split("/")[-2]
    rows.append("| %s | %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"], m["needs"], caught.get(i, "")))
d = os.path.join(V, "DESIGN.md"); s = open(d).read()
def put(s, tag, body):
    a, b = "<!-- %s -->" % tag, "<!-- end %s -->" % tag
    body = a + "\n" + body + "\n" + b
    if tag + "_TABLE" in s: return s.replace(tag + "_TABLE", body)
    return s[:s.index(a)] + body + s[s.index(b) + len(b):]
s = put(s, "PROPERTIES", props); s = put(s, "SEEDED", "\n".join(rows))
open(d, "w").write(s)
