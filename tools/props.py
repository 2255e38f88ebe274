#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (properties whose check exists)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/xtypes/"
def P(id, title, statement, over, text, why, files, mechanism, technique, note, observe=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mechanism=mechanism, technique=technique, note=note, observe=observe or [])
PBT = "property-based testing: "
NOTE = "Explores generated cases only (counts in the evidence). Trusts the reference model in engine/model.hpp, clang's sanitizers and the 64-bit Linux ABI; xtypes is built with its exceptions enabled. "
T = []
exec(open(os.path.join(V, "tools/table.py")).read())

def main():
    have = [p for p in T if os.path.exists(os.path.join(V, "props", p["id"] + ".cpp"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in have:
            assert len(p["title"]) <= 80, p["title"]
            d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                     quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                     anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mechanism"]],
                                  observe_at=p["observe"], hook_needed=None))
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="./run --setup",
             checks=[dict(property=p["id"], quick_cmd="./run " + p["id"], thorough_cmd="./run " + p["id"],
                          technique=PBT + p["technique"], level="exploration", level_note=NOTE + p["note"]) for p in have],
             not_applicable=[])
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(have), "properties")
main()
