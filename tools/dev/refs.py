#!/usr/bin/env python3
# refs.py FILE DIR [blocks]: apply all (or the given) blocks of FILE (format of bugs.py, behaviour-preserving edits) to one copy of /repo/src in DIR
import re, shutil, sys, os
d = sys.argv[2]; only = sys.argv[3:]; shutil.rmtree(d + "/src", ignore_errors=True); shutil.copytree("/repo/src", d + "/src")
for n, b in enumerate(x for x in open(sys.argv[1]).read().split("===\n") if x.strip()):
    if only and str(n) not in only: continue
    head, *parts = re.split(r"^---(?:old|new)\n", b, flags=re.M)
    f = head.split()[1]; p = d + "/src/" + f; s = open(p).read()
    for o, w in zip(parts[::2], parts[1::2]):
        o, w = o.rstrip("\n"), w.rstrip("\n")
        if o not in s: print(n, f, "NOT FOUND:", o[:90]); continue
        s = s.replace(o, w, 1)
    open(p, "w").write(s)
