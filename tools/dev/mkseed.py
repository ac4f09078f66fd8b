#!/usr/bin/env python3
# mkseed.py FILE.seed ... : create /verif/seeded/<id>/ from a seed description.
# A seed file: "id: x / property: / needs: / breaks: / file: / " headers, then "---old", "---new" blocks, "---file path", ... and "---demo"
import sys, os, re, json, subprocess, tempfile, shutil
OUT="/verif/seeded"
def parse(txt):
    head, *secs = re.split(r"(?m)^---", txt)
    meta = {}
    for l in head.strip().splitlines():
        k, v = l.split(":",1); meta[k.strip()] = v.strip()
    edits=[]; f=meta.get("file"); demo=""
    for s in secs:
        tag, body = s.split("\n",1)
        t = tag.split()
        if t[0]=="file": f=t[1]
        elif t[0]=="old": old=body.rstrip("\n")
        elif t[0]=="new": edits.append((f,old,body.rstrip("\n")))
        elif t[0]=="demo": demo=body
    return meta, edits, demo
for a in sys.argv[1:]:
    meta, edits, demo = parse(open(a).read())
    d = tempfile.mkdtemp(prefix="mk", dir="/tmp")
    subprocess.run(["git","-C","/repo","worktree","prune"])
    subprocess.run(f"git -C /repo archive HEAD src | tar x -C {d}", shell=True, check=True)
    subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=d, check=True)
    for f, old, new in edits:
        p=os.path.join(d,f); s=open(p).read()
        assert s.count(old)==1, (a, f, s.count(old), old)
        open(p,"w").write(s.replace(old,new))
        # which original lines are touched?
    patch = subprocess.run(["git","diff"],cwd=d,capture_output=True,text=True).stdout
    shutil.rmtree(d)
    o=os.path.join(OUT,meta["id"]); os.makedirs(o,exist_ok=True)
    open(o+"/patch.diff","w").write(patch)
    open(o+"/demo.cpp","w").write(demo)
    flags=meta.get("flags","-O1")
    open(o+"/demo.sh","w").write(f'''#!/bin/bash
# run in the repository root: 0 if the property holds on this input, nonzero otherwise
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 {flags} -pthread -w -I src "$here/demo.cpp" -o "$d/demo" -ldl || exit 2
cd "$d" && timeout 120 ./demo
''')
    os.chmod(o+"/demo.sh",0o755)
    json.dump({"property":meta["property"],"needs":meta["needs"],"what_it_breaks":meta["breaks"]},open(o+"/meta.json","w"),indent=1)
    print(meta["id"], len(patch.splitlines()),"patch lines")
    r=subprocess.run("git -C /repo apply --check "+o+"/patch.diff",shell=True); assert r.returncode==0
