#!/usr/bin/env python3
"""tryrun.py DRIVER MODULE [PART] [SEED] [TIER] [GEN:num:depth]: one conformance run, failures grouped by reason (development aid)."""
import collections, json, os, re, subprocess, sys, tempfile
H = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")
sys.path.insert(0, H)
import core
a = sys.argv[1:]
gen = [x for x in a if x.startswith("GEN:")]
a = [x for x in a if not x.startswith("GEN:")] + [""] * 5
c = core.Check("TRY", a[4] or "quick", int(a[3] or 1))
fails = []
c.fail = lambda driver, part, module, cfg, i, scn, rec, why: fails.append((i, scn, rec, why))
extra = None
if gen:
    _, m, n, d = gen[0].split(":")
    extra, k = c.generate(m, int(n), int(d))
    print("generated", k)
c.conform(a[0], a[1], part=a[2], extra=extra)
print(c.parts)
g = collections.defaultdict(list)
for f in fails:
    g[re.sub(r"\d+", "#", "; ".join(f[3]))[:150]].append(f)
os.makedirs("/tmp/try", exist_ok=True)
for k, v in sorted(g.items(), key=lambda x: -len(x[1])):
    v.sort(key=lambda f: len(json.dumps(f[2])))
    p = "/tmp/try/%d.json" % v[0][0]
    json.dump({"why": v[0][3], "scenario": v[0][1], "record": v[0][2]}, open(p, "w"), indent=1)
    print(len(v), k, "|", p)
