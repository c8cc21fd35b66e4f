#!/usr/bin/env python3
"""Developer helper (no registered command runs it): plant small random changes in a
scratch copy of /repo, keep those that pass the existing tests, and see which checks
notice.  mutate.py WORKDIR SEED COUNT [file regex]"""
import sys, os, re, json, random, shutil, subprocess, time
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
work, seed, count = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]); rx = sys.argv[4] if len(sys.argv) > 4 else "."
MAP = [("lineardynamic", "C01 C02 C03"), ("src/tools|mpc-walkgen/tools", "C01 C02 C03"), ("interpolator", "C04 C19"), ("humanoid_foot_model", "C04 C19 C17 C15 C24"), ("convexpolygon", "C05 C06 C14 C15"), ("qpsolver_qpoases|qpsolver.h", "C07 C23"),
  ("trajectory_walkgen", "C20 C24"), ("function/trajectory_motion", "C13 C20"), ("function/trajectory", "C08 C20"), ("zebulon_walkgen", "C21 C24"), ("zebulon_base_motion|tilt_motion", "C13 C21"), ("zebulon_co[mp]_constraint", "C14 C21"), ("zebulon_co[mp]_centering", "C10 C21"), ("zebulon_tilt", "C11 C21"), ("function/zebulon", "C09 C21"),
  ("humanoid_walkgen", "C22 C24"), ("humanoid_cop_constraint", "C15 C22"), ("humanoid_foot_constraint", "C16 C22"), ("function/humanoid", "C12 C22"), ("humanoid_feet_supervisor", "C18 C17 C19 C15 C16 C12 C22"), ("lip_model", "C03 C20 C12 C24"), ("zebulon_base_model", "C03 C11 C24"), ("no_dynamic_model", "C03 C20")]
OPS = [(r"(?<=[\w\)\]]) \+ (?=[\w\(])", " - "), (r"(?<=[\w\)\]]) ?- ?(?=[\w\(])", "+"), (r"\+=", "-="), (r"-=", "+="), (r"(?<=[\w\)\]]) ?\* ?(?=[\w\(])", "/"), (r"(?<=[\w\)\]]) ?/ ?(?=[\w\(])", "*"), (r"(?<![<\-])<(?![<=\w])|(?<= )<(?= )|(?<=\w)<(?=\w+[;)])", "<="), (r"(?<= )>(?= )|(?<=\w)>(?=[\w\-])", ">="), (r">=", ">"), (r"<=", "<"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
  (r"\b2\*", ""), (r"\bN\b", "(N-1)"), (r"\bM\b", "(M-1)"), (r"X\b", "Y"), (r"Y\b", "X"), (r"Left", "Right"), (r"Right", "Left"), (r"left", "right"), (r"\b0\b", "1"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"true", "false"), (r"false", "true"), (r"Sup", "Inf"), (r"Inf", "Sup"), (r"\bS\b", "T"), (r"\bT\b", "S"), (r"\+ ?1\b", ""), (r"- ?1\b", ""), (r"Velocity", "Acceleration"), (r"Pos", "Vel"), (r"\.U\b", ".UT"), (r"\.UT\b", ".U"), (r"Roll", "Pitch"), (r"Lip", "Base"), (r"\+\+i", "i+=2"), (r"cwiseMin", "cwiseMax"), (r"\bsin\b", "cos"), (r"!", "")]
def code(path):
    src = open(path).read(); src = re.sub(r"/\*.*?\*/", lambda m: re.sub(r"[^\n]", " ", m.group(0)), src, flags=re.S); return src.split("\n")
def mutants(f):
    out = []
    for n, l in enumerate(code(os.path.join("/repo", f))):
        c = re.sub(r"//.*", "", l)
        if not c.strip() or re.match(r"\s*(#|assert|template|namespace|using|typedef|class|public:|private:|const typename|typename|\{|\})", c) or "assert" in c or "INSTANTIATE" in c or "::" in c and "(" in c and c.strip().startswith(("HumanoidFeet", "LIPModel", "BaseModel")): continue
        for a, b in OPS:
            for m in re.finditer(a, c):
                if "<" in b or ">" in b or "<" in m.group(0) or ">" in m.group(0):
                    if re.search(r"(template|Type|Scalar|vector|Constant|Dynamic|Polygon|Interpolator|Matrix|const_cast|static_cast)<", c) and abs(m.start() - c.find("<")) < 3: continue
                out.append((n, c[:m.start()] + b + c[m.end():]))
        if re.match(r"\s+[\w\.\->\(\)\[\], ]+ ?([\+\-\*]?=|\().*;\s*$", c) and "return" not in c and not re.match(r"\s+(const |int |Scalar |Vector|Matrix|auto |bool |typename )", c): out.append((n, ""))
    return out
def sh(cmd, cwd=None, env=None, timeout=900):
    try: p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout); return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired: return -99, "timeout"
os.makedirs(work, exist_ok=True); repo, vf, bld = work + "/repo", work + "/verif", work + "/build"
if not os.path.exists(repo): sh(f"cp -a /repo {repo}; rm -rf {repo}/_build; git -C {repo} checkout -q -- .")
sh(f"mkdir -p {vf}; rsync -a --delete --exclude evidence --exclude .git --exclude seeded {R}/ {vf}/ || cp -a {R}/. {vf}/")
if not os.path.exists(work + "/cmake"): sh(f"cp -a /opt/vp/cmake {work}/cmake && sed -i 's#\"/repo\"#\"{repo}\"#' {work}/cmake/CMakeLists.txt")
def build(): return sh(f"cmake -S {work}/cmake -B {bld} -G Ninja -DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_FLAGS='-O0 -Wno-error' >/dev/null && ninja -C {bld}")
def tests(): return sh(f"ctest --test-dir {bld} -j8 --timeout 60")
rc, o = build(); assert rc == 0, o[-2000:]
files = [f for f in sh("git ls-files src mpc-walkgen qpsolver", cwd="/repo")[1].split() if f.endswith((".cpp", ".h", ".hxx")) and re.search(rx, f) and any(re.search(a, f) for a, _ in MAP)]
pool = [(f, n, l) for f in files for n, l in mutants(f)]; random.seed(seed); random.shuffle(pool); print(len(pool), "mutants in", len(files), "files", flush=True)
# at most a fair share per file
done = 0; log = open(work + "/log.jsonl", "a"); per = {}
for f, n, l in pool:
    if done >= count: break
    if per.get(f, 0) >= max(2, 2 * count // max(1, len(files))): continue
    p = os.path.join(repo, f); src = open(os.path.join("/repo", f)).read().split("\n"); old = src[n]; src[n] = l; open(p, "w").write("\n".join(src))
    t = time.time(); rc, o = build()
    if rc == 0: rc, o = tests(); st = "killed by tests" if rc else None
    else: st = "does not compile"
    by = None
    if st is None:
        done += 1; per[f] = per.get(f, 0) + 1; st = "SURVIVED"
        for prop in next(b for a, b in MAP if re.search(a, f)).split():
            rc, o = sh(f"python3 check.py {prop} --tier quick", cwd=vf, env=dict(os.environ, VERIF_REPO=repo), timeout=900)
            if rc == 1: st = "caught"; by = prop; break
            if rc != 0: st = f"NOANSWER {prop} {rc} {o[-300:]}"
        r = dict(file=f, line=n + 1, old=old.strip(), new=l.strip(), status=st, by=by, s=round(time.time() - t)); print(json.dumps(r), flush=True); log.write(json.dumps(r) + "\n"); log.flush()
    shutil.copy(os.path.join("/repo", f), p)
