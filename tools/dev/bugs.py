#!/usr/bin/env python3
# bugs.py FILE [only]: blocks "PROP file[,PROP2] | note" / ---old / ---new (several pairs allowed) / ===; runs the quick check on each
import os, re, shutil, subprocess, sys, tempfile, time
txt = open(sys.argv[1]).read(); only = sys.argv[2:] 
for n, b in enumerate(x for x in txt.split("===\n") if x.strip()):
    if only and str(n) not in only: continue
    head, *parts = re.split(r"^---(?:old|new)\n", b, flags=re.M)
    props, f, note = re.match(r"(\S+) (\S+) ?\|? ?(.*)", head.strip()).groups()
    d = tempfile.mkdtemp(prefix="bug", dir="/tmp"); shutil.copytree("/repo/src", d + "/src")
    p = d + "/src/" + f; s = open(p).read(); ok = True
    for o, w in zip(parts[::2], parts[1::2]):
        o, w = o.rstrip("\n"), w.rstrip("\n")
        if o not in s: print(n, "NOT FOUND:", o[:100]); ok = False; break
        s = s.replace(o, w, 1)
    if ok:
        open(p, "w").write(s)
        for q in props.split(","):
            t0 = time.time()
            r = subprocess.run(["python3", "/verif/check.py", q, "quick"], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
            o = (r.stdout + r.stderr).splitlines(); v = [i for i, l in enumerate(o) if "VIOLATION" in l]
            print(n, q, {0: "MISSED", 1: "caught"}.get(r.returncode, "ERR"), f"{time.time()-t0:.0f}s", note, "::", (o[v[0] + 1] if v and v[0] + 1 < len(o) else next((l for l in o if "error" in l), ""))[:150], flush=True)
    shutil.rmtree(d)
