#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from specs.py and the checks' settings."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(HERE)
sys.path[:0] = [HERE, V + "/dst"]
import specs, props_conf
claimed = {d["id"]: d for d in props_conf.P.values()}
with open(V + "/properties.jsonl", "w") as f:
    for p in specs.PROPS:
        q = {k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
ids = [p["id"] for p in specs.PROPS]
assert len(set(ids)) == len(ids) and set(claimed) <= set(ids), set(claimed) - set(ids)
m = {"version": 1, "setup_cmd": "python3 dst/build.py sim",
     "checks": [{"property": p["id"], "quick_cmd": "python3 dst/check.py %s quick" % p["id"], "thorough_cmd": "python3 dst/check.py %s thorough" % p["id"],
                 "technique": "deterministic simulation with fault injection: " + p["technique"], "level": "exploration", "level_note": p["level_note"]} for p in specs.PROPS if p["id"] in claimed],
     "not_applicable": [{"property": p["id"], "reason": p.get("na", "no simulated check for it yet")} for p in specs.PROPS if p["id"] not in claimed],
     "hooks": {"guard": "TRAVATAR_SIMULATION", "enable": "dst/build.py compiles /repo's sources with -DTRAVATAR_SIMULATION", "source_commits": ["cfced6a", "38534f5"]},
     "notes": "The simulator's seams are the libraries below /repo (libpthread, libc I/O, clocks, malloc, compiler instrumentation callbacks); the only hook lets the trie builder sort in small buffers."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")

# DESIGN.md
import design
by = {p["id"]: p for p in specs.PROPS}
props = []
for i in sorted(claimed):
    p, d = by[i], design.D[i]
    props.append("**%s (`%s`) %s.** %s\n*Generated:* %s *Judged against:* %s *Beyond the tests:* %s *Cost:* quick 40 s, thorough 900 s of search on 8 cores.%s\n"
                 % (i, [n for n in props_conf.P if props_conf.P[n]["id"] == i][0], p["title"], p["statement"], d[0], d[1], d[2], " *Note:* " + p["level_note"] if p["level_note"] else ""))
fixes = ["* %s %s: %s" % tuple(l.rstrip("\n").replace("fixed: property=", "").split(" ", 2)) for l in open(V + "/KNOWN_FINDINGS") if l.startswith("fixed:")]
known = ["* " + l.rstrip("\n") for l in open(V + "/KNOWN_FINDINGS") if l.startswith("known:")]
caught = json.load(open(HERE + "/caught.json"))
rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
for n in sorted(os.listdir(V + "/seeded")):
    j = json.load(open("%s/seeded/%s/meta.json" % (V, n)))
    rows.append("| %s | %s | %s | %s |" % (n, j["property"], j["needs"].replace("|", "/"), caught.get(n, "?")))
na = ["* **%s %s**: %s" % (p["id"], p["title"], p["na"]) for p in specs.PROPS if p["id"] not in claimed] or ["(none)"]
t = open(HERE + "/design.md").read()
for k, v in {"PROPS": "\n".join(props), "FIXES": "\n".join(fixes + known), "SEEDED": "\n".join(rows), "NA": "\n".join(na), "NMUT": str(design.NMUT), "LIMITS": design.LIMITS}.items():
    t = t.replace("@@%s@@" % k, v)
assert "@@" not in t
open(V + "/DESIGN.md", "w").write(t)
