#!/usr/bin/env python3
"""Developer helper: build one harness and run the cases matching a regex, slowest last.
dev.py HARNESS REGEX [tier] [timeout]"""
import sys, os, re, json, subprocess, time, concurrent.futures as cf
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R); os.chdir(R)
import check
h, rx = sys.argv[1], sys.argv[2]; tier = sys.argv[3] if len(sys.argv) > 3 else "0"; to = int(sys.argv[4]) if len(sys.argv) > 4 else 120
b = f"/tmp/dev-{h}"; os.makedirs(b, exist_ok=True)
if "NOBUILD" not in os.environ: t = time.time(); check.build(h, b); print("build %.1fs" % (time.time() - t))
cs = [c for c in check.run([b + "/sym", "--list", tier])[1].split("\n") if re.search(rx, c)]
def go(c):
    t = time.time(); rc, o, e = check.run([b + "/sym", "--run", c], to, check.env_for(20000, 200000, 1)); l = [x for x in o.splitlines() if x.startswith("{")]
    return c, time.time() - t, (json.loads(l[-1]) if l else None), (rc, o[-200:], e[-200:])
tot = 0
with cf.ThreadPoolExecutor(8) as ex: res = sorted(ex.map(go, cs), key=lambda r: r[1])
for c, t, r, x in res:
    tot += t
    if r is None: print(f"{t:7.1f} {c} NORESULT {x}"); continue
    ex = ""
    if r["status"] != "ok":
        ex = r["why"] or ""
        for v in r["violations"]:
            ex += " | " + v["label"]
            for cand in v["candidates"][:6]:
                lab, out = check.native_replay(b, c, cand["values"]); ex += f" -> native {lab}"
                if lab: ex += " " + json.dumps(cand["values"])[:600]; break
    print(f"{t:7.1f} {c} {r['status']} paths={r['paths']} ob={r['stats'].get('obligations',0)} q={r['queries']} z3={r['solver_ms']/1000:.1f} {ex}")
print("total cpu %.0f, %d cases" % (tot, len(cs)))
