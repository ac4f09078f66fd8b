#!/usr/bin/env python3
# mutate.py N SEED [file-regex]: N random single-line mutants of /repo/src, each run through the quick checks anchored at its file; survivors are for review
import json, os, random, re, shutil, subprocess, sys, tempfile, time
N, SEED = int(sys.argv[1]), int(sys.argv[2]); rx = re.compile(sys.argv[3] if len(sys.argv) > 3 else ".")
SRC = "/repo/src"
skip = re.compile(r"mkl-array|vector3d|vector3pd|lazy_array|slice\.h|any-vector|mpfr|taskflow|octree|hierarchical|disk|concepts|small-vector")
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
files = {}
EXTRA = {"src/core-computation.hpp": ["N05", "S03", "S02", "I06"], "src/type-class.hpp": ["N05", "S02", "I06"], "src/dev-tools.hpp": ["N05"], "src/vector/vector3.hpp": ["N03"], "src/math.hpp": ["N02"], "src/integrator/Gauss-Radau.hpp": ["I01", "I02", "I06"], "src/integrator/symplectic/symplectic-integrator.hpp": ["I01", "I06"],
 "src/particle-system/base-system.hpp": ["S02", "S01", "I06"], "src/particle-system/chain-system.hpp": ["S02", "S01", "S03", "I06"], "src/particle-system/regu-system.hpp": ["S02", "S01", "I06"], "src/particle-system/archain.hpp": ["S02", "S01", "S03", "I06"], "src/spaceHub.hpp": ["I06", "S03"], "src/simulator.hpp": ["R01", "R02", "C06"]}
for p in props:
    for f in p["anchors"]["files"]:
        ff = [f] if f.endswith(("hpp", ".h")) else ["src/" + os.path.relpath(os.path.join(d, x), SRC) for d, _, xs in os.walk("/repo/" + f) for x in xs]
        for x in ff: files.setdefault(x, []).append(p["id"])
files.update(EXTRA)
ops = [(r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" && ", " || "), (r" \|\| ", " && "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\*= ", "/= "),
 (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3"), (r"\b3\b", "2"), (r"0\.5\b", "0.25"), (r"\.x\b", ".y"), (r"\.z\b", ".x"), (r"\[i\]", "[0]"), (r"\[j\]", "[i]"), (r"true", "false"), (r"false", "true"), (r"max\(", "min("), (r"min\(", "max("), (r"sin\(", "cos("), (r"pos\(", "vel("), (r"\bm1\b", "m2"), (r"\bi\b", "j"), (r"- 1\b", ""), (r"\+ 1\b", ""), (r"!", "")]
cands = []
for f in sorted(files):
    if skip.search(f) or not rx.search(f) or not os.path.exists("/repo/" + f): continue
    inc = False
    for i, l in enumerate(open("/repo/" + f)):
        s = l.strip()
        if "/*" in s: inc = True
        if inc:
            if "*/" in s: inc = False
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using", "static_assert", "DEBUG", "namespace")) : continue
        code = l.split("//")[0]
        for a, b in ops:
            for m in re.finditer(a, code):
                if "<typename" in code or "operator" in code and a.strip() in "<>": continue
                cands.append((f, i, code[:m.start()] + b + code[m.end():].rstrip("\n") + "\n"))
        if re.match(r"^[\w\.\->\[\]\(\)\*]+ ?(=|\+=|-=|\()[^{}]*;\s*$", s) and not s.startswith("return"):
            cands.append((f, i, "/* deleted */\n"))
random.seed(SEED)
# equal weight per file, so that small files get mutants too
byf = {}
for c in cands: byf.setdefault(c[0], []).append(c)
fl = sorted(byf); random.shuffle(fl)
picked = []
for f in fl: random.shuffle(byf[f])
k = 0
w = []
for f in fl: w += [f] * (1 + min(5, len(byf[f]) // 60))
while len(picked) < N and any(byf.values()):
    f = w[k % len(w)]; k += 1
    if byf[f]: picked.append(byf[f].pop())
print(len(cands), "candidates,", len(picked), "picked", flush=True)
for f, i, new in picked:
    d = tempfile.mkdtemp(prefix="mutx", dir="/tmp")
    shutil.copytree(SRC, d + "/src")
    ls = open(d + "/" + f).readlines(); old = ls[i]; ls[i] = new; open(d + "/" + f, "w").writelines(ls)
    res = "MISSED"; t0 = time.time(); by = ""
    for p in files[f]:
        try:
            r = subprocess.run(["python3", "/verif/check.py", p, "quick"], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True, timeout=1500)
        except subprocess.TimeoutExpired: res = "TIMEOUT " + p; break
        if r.returncode == 1: res = "caught"; by = p; break
        if r.returncode != 0: res = "nocompile"; by = p; break
    print(f"{res} {by} {f}:{i+1} ({time.time()-t0:.0f}s) [{'' if res=='caught' else ','.join(files[f])}]", flush=True)
    if res not in ("caught", "nocompile"): print("    -", old.strip()[:170], "\n    +", new.strip()[:170], flush=True)
    shutil.rmtree(d)
