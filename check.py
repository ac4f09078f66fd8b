#!/usr/bin/env python3
"""check.py <PROPERTY> quick|thorough [--replay FILE] [--keep]

Builds the harness(es) of one property from /repo's current working tree in a scratch directory, explores the bounded
space exhaustively, compares with the known findings, writes evidence/<id>.json and the replay files.
exit 0: property held on everything explored; exit 1: VIOLATION line printed; exit 2: the check itself failed."""
import json, os, shutil, subprocess, sys, tempfile, time, concurrent.futures, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa

BASE = ["g++", "-std=c++17", "-pthread", "-w", "-fno-strict-aliasing", f"-I{REPO}/src", f"-I{HERE}/lib", f"-I{HERE}/harness"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build(part, tmp):
    name = part["name"]
    src = os.path.join(HERE, "harness", part["src"])
    exe = os.path.join(tmp, name)
    flags = part.get("flags", ["-O1"])
    if part.get("kind") == "mcrt":
        o1, o2 = exe + ".o", exe + ".rt.o"
        procs = [(BASE + ["-O1", "-g1", "-fsanitize=thread", "-fno-omit-frame-pointer"] + part.get("flags", []) + ["-c", src, "-o", o1]),
                 (BASE + ["-O2", "-g1", "-c", f"{HERE}/lib/mcrt.cpp", "-o", o2])]
        with concurrent.futures.ThreadPoolExecutor(2) as ex:
            rs = list(ex.map(sh, procs))
        for r in rs:
            if r.returncode:
                return name, None, r.stdout
        r = sh(["g++", "-pthread", "-rdynamic", o1, o2, "-o", exe, "-ldl"])
    else:
        r = sh(BASE + flags + [src, "-o", exe] + part.get("libs", []))
    return name, (exe if r.returncode == 0 else None), r.stdout


def known(prop):
    res = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith("-") else "quick")
    replay = sys.argv[sys.argv.index("--replay") + 1] if "--replay" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cfg = CHECKS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix=f"verif_{prop}_", dir="/tmp")
    rpart = rcase = None
    if replay:
        d = json.load(open(replay))
        rpart, rcase, tier = d["part"], d["case"], d["tier"]
    try:
        parts = [p for p in cfg["parts"] if (tier == "thorough" or not p.get("thorough_only")) and (not rpart or p["name"] == rpart)]
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            built = list(ex.map(lambda p: build(p, tmp), parts))
        for name, exe, log in built:
            if exe is None:
                print(f"ERROR: harness part {name} of {prop} does not build against {REPO}:\n" + "\n".join(l[:400] for l in log.splitlines() if "error" in l)[:3000])
                return 2
        tb = time.time() - t0
        suites, viols = [], []
        env = dict(os.environ, VERIF_TIER=tier, VERIF_SEED=str(seed), MC_SCRATCH=tmp)
        env.pop("LD_PRELOAD", None)
        for part, (name, exe, _) in zip(parts, built):
            rundir = os.path.join(tmp, "run_" + name)
            os.mkdir(rundir)
            if replay:
                r = subprocess.run([exe, "--tier", tier, "--replay", rcase], cwd=rundir, env=env)
                return r.returncode
            out = os.path.join(tmp, name + ".json")
            if viols and tier == "quick" and time.time() - t0 > 240:
                break  # something has failed already: do not spend the rest of the time on more of it
            limit = part.get("limit", {"quick": 600, "thorough": 40000}[tier])
            try:
                soft = ["--soft", str(int(max(30, 240 - (time.time() - t0))))] if part["kind"] == "mc" and tier == "quick" else []
                r = sh([exe, "--tier", tier, "--out", out] + soft + part.get("args", []), cwd=rundir, env=env, timeout=limit)
            except subprocess.TimeoutExpired:
                print(f"ERROR: part {name} exceeded {limit} s")
                return 2
            if not os.path.exists(out):
                print(f"ERROR: part {name} produced no result (rc={r.returncode})\n{r.stdout[-3000:]}")
                return 2
            try:
                d = json.load(open(out))
            except Exception as e:
                print(f"ERROR: part {name} produced a malformed result: {e}")
                return 2
            if d.get("error"):
                print(f"ERROR: part {name}: {d['error']}")
                return 2
            for s in d["suites"]:
                s["part"] = name
                suites.append(s)
            for v in d["violations"]:
                v["part"] = name
                viols.append(v)
        kf = known(prop)
        hit, fresh = {}, []
        for v in viols:
            k = next((k for k in kf if k[0] == v["key"]), None)
            if k:
                hit[k[0]] = k[1]
            elif v.get("confirmed", True):
                fresh.append(v)
            else:
                print(f"NOTE: unconfirmed (not reproduced on re-execution) {v['part']}/{v['suite']}:{v['case']} {v['key']}: {v['what'][:300]}")
        for k, w in hit.items():
            print(f"KNOWN-FINDING: property={prop} {k}: {w}")
        rdir = os.path.join(HERE, "evidence", "replays")
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir):
            if f.startswith(prop + "_"):
                os.unlink(os.path.join(rdir, f))
        for i, v in enumerate(fresh):
            p = os.path.join(rdir, f"{prop}_{i}.json")
            json.dump(dict(property=prop, part=v["part"], tier=tier, suite=v["suite"], case=f"{v['suite']}:{v['case']}", key=v["key"], what=v["what"],
                           how=f"python3 check.py {prop} {tier} --replay {p}"), open(p, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  {v['part']}/{v['suite']}:{str(v['case'])[:200]} [{v['key']}] {v['what'][:600]}")
        cases = sum(s["cases"] for s in suites)
        states = sum(s["states"] for s in suites)
        trans = sum(s["transitions"] for s in suites)
        ev = dict(property=prop, tier=tier, seed=seed, level="model_checking",
                  coverage=dict(states=max(states, 0), transitions=trans, traces_validated_against_impl=cases,
                                distinct_outcomes=sum(s["distinct"] for s in suites),
                                exhaustive=all(s["complete"] for s in suites),
                                rule="every execution/case of every suite below is run on the real code built from the working tree; "
                                     "states = monitored states compared with the oracle, transitions = operations/scheduling steps executed",
                                suites=[{k: s[k] for k in ("part", "name", "bounds", "cases", "states", "transitions", "distinct", "complete", "wall_s")} for s in suites],
                                samples=[s["sample"] for s in suites if s.get("sample")][:40] or ["(none)"]),
                  assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh),
                  known_findings=sorted(hit))
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
        inc = [s["part"] + "/" + s["name"] for s in suites if not s["complete"]]
        print(f"{prop} {tier}: {len(suites)} suites, {cases} executions, {states} states, {trans} transitions, "
              f"{len(fresh)} violations, {len(hit)} known findings, build {tb:.1f}s, total {time.time()-t0:.1f}s"
              + (f"; capped: {', '.join(inc)[:300]}" if inc else ""))
        return 1 if fresh else 0
    finally:
        if "--keep" in sys.argv:
            print("kept", tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
