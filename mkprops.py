#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (development helper; the outputs are committed)."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
P = []      # claimed
NA = []     # (property dict, reason)

def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None, note=None, na=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                     "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                     "observe_at": observe, "hook_needed": hook}}
    if na: NA.append((d, na))
    else: P.append((d, note))

exec(open(os.path.join(here, "props_data.py")).read())

allp = sorted([d for d, _ in P] + [d for d, _ in NA], key=lambda d: d["id"])
for d in allp:
    assert len(d["title"]) <= 80, d["id"]
    n = len([s for s in d["statement"].replace("e.g.", "eg").split(". ") if s.strip()])
    assert n <= 3, (d["id"], n)
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in allp: f.write(json.dumps(d) + "\n")
man = {"version": 1, "setup_cmd": "./build.sh", "checks": [], "not_applicable": [],
       "hooks": {"guard": "RGRAPH_SIM", "enable": "build.sh compiles /repo's sources with -DRGRAPH_SIM; it only shrinks the precomputed log-binomial table of the Gibbs samplers (src/missing.h), off by default", "source_commits": ["cbc3794"]},
       "notes": "Seams besides the one hook: symbol redirection with objcopy on object files built in /verif/build "
                "(allocation, fopen, exit, rename/remove, gsl_rng_alloc), the generator argument every sampler takes, "
                "fopencookie streams and the statics' memory image. See DESIGN.md."}
for d, note in sorted(P, key=lambda x: x[0]["id"]):
    man["checks"].append({"property": d["id"], "quick_cmd": "./check.sh %s quick" % d["id"],
        "thorough_cmd": "./check.sh %s thorough" % d["id"], "evidence_file": "evidence/%s.json" % d["id"],
        "technique": "deterministic simulation with fault injection: seeded search over simulated runs, minimised replay",
        "level": "exploration", "level_note": note})
for d, r in NA: man["not_applicable"].append({"property": d["id"], "reason": r})
with open(os.path.join(here, "MANIFEST.json"), "w") as f: json.dump(man, f, indent=1); f.write("\n")

# --- DESIGN.md ---
import glob, subprocess
exec(open(os.path.join(here, "design_data.py")).read())
t = open(os.path.join(here, "design.md.in")).read()
ps = "## How each property is decided\n\n"
for d, note in sorted(P, key=lambda x: x[0]["id"]):
    a = D[d["id"]]
    ps += "**%s — %s.** *Specification and oracle:* %s *Generated and injected:* %s%s *Bounds:* %s\n\n" % (d["id"], d["title"], a[0], a[1], (" *Reach:* " + a[2]) if a[2] else "", (note or "").replace("Seeded sampling, not proof. Trusts GSL, glibc stdio, gcc -O1 with AddressSanitizer, and the from-scratch reference computation. ", ""))
for d, r in NA: ps += "**%s — %s.** Not applicable: %s\n\n" % (d["id"], d["title"], r)
fx = "".join("* %s\n" % l[7:].strip() for l in open(os.path.join(here, "known-findings.txt")) if l.startswith("fixed:"))
sd = "\n## Planted bugs and which checks catch them\n\nEach was built, passes the stable tests, and its demonstration fails with it and passes without it.\nThe last column is the result of the property's own quick check.\n\n| change | property | needs | caught |\n|---|---|---|---|\n"
res = {}
p = os.path.join(here, "seeded_results.txt")
if os.path.exists(p):
    for l in open(p):
        f = l.split(None, 1)
        if len(f) == 2: res[f[0]] = f[1].strip()
for m in sorted(glob.glob(os.path.join(here, "seeded", "*", "meta.json"))):
    j = json.load(open(m)); n = os.path.basename(os.path.dirname(m))
    sd += "| %s | %s | %s | %s |\n" % (n, j["property"], j["needs"], res.get(n, "?"))
open(os.path.join(here, "DESIGN.md"), "w").write(t.replace("@@PROPS@@", ps).replace("@@FIXES@@", fx).replace("@@SEEDED@@", sd))
