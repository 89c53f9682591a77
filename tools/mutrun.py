#!/usr/bin/env python3
"""Runs the simulation of all properties against mutants. usage: mutrun.py DIR SECS [ids...]"""
import json, os, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, SECS = sys.argv[1], float(sys.argv[2])
env = dict(os.environ, GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod -buildvcs=false", GOMAXPROCS="2")
muts = json.load(open(D + "/mutants.json"))
only = set(map(int, sys.argv[3:]))
props = os.environ.get("PROPS", " ".join("C%02d" % i for i in range(1, 20))).split()
files = os.environ.get("FILES", "").split()
KN = ",".join(l.split()[2][3:] for l in open(V + "/KNOWN_FINDINGS.txt") if l.startswith("known:"))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
resf = D + "/results.jsonl"
done = set()
if os.path.exists(resf) and not only:
    done = {json.loads(l)["ID"] for l in open(resf)}
instr = D + "/instr"
subprocess.run(["go", "build", "-o", instr, "."], cwd=V + "/instr", env=env, check=True)
def run(m):
    t = tempfile.mkdtemp(prefix="mt.", dir="/tmp/mt")
    try:
        ov = t + "/ov.json"
        json.dump({"Replace": {"/repo/" + m["File"]: m["Path"]}}, open(ov, "w"))
        try:
            p = subprocess.run(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "20s", "-overlay", ov, "./..."], cwd="/repo", env=env, capture_output=True, text=True, timeout=90)
        except subprocess.TimeoutExpired:
            return dict(m, res="tests")
        ok = set()
        for l in p.stdout.splitlines():
            try: e = json.loads(l)
            except Exception: continue
            if e.get("Action") == "pass" and e.get("Test"): ok.add(e["Package"] + "/" + e["Test"])
        if "build failed" in p.stdout or "[build failed]" in p.stderr or not ok: return dict(m, res="build")
        if not stable <= ok: return dict(m, res="tests")
        p = subprocess.run([instr, "-repo", "/repo", "-out", t + "/ov", "-subst", m["File"] + "=" + m["Path"]], env=env, capture_output=True, text=True)
        if p.returncode: return dict(m, res="instr " + p.stderr)
        p = subprocess.run(["go", "build", "-overlay", t + "/ov/overlay.json", "-o", t + "/sim", "."], cwd=V + "/sim", env=env, capture_output=True, text=True)
        if p.returncode: return dict(m, res="simbuild " + p.stderr[:500])
        kills = {}
        for pr in props:
            out = t + "/o.json"
            try:
                p = subprocess.run([t + "/sim", "worker", "-prop", pr, "-seed", "1", "-n", "100000000", "-w", "0", "-of", "1", "-out", out, "-secs", str(SECS), "-known", KN],
                    env=dict(env, GOMAXPROCS="1", GOGC="400"), capture_output=True, text=True, timeout=120)
            except subprocess.TimeoutExpired:
                kills[pr] = "timeout"; continue
            if p.returncode: kills[pr] = "died " + p.stderr[:200]; continue
            r = json.load(open(out))
            if r["FailIndex"] >= 0: kills[pr] = "%d %s" % (r["FailIndex"], r["FailMsg"][:160])
            elif r["Harness"]: kills[pr] = "HARNESS " + r["Harness"][:300]
            if kills and os.environ.get("FIRST"): break
        return dict(m, res="sim", kills=kills)
    finally:
        shutil.rmtree(t)
todo = [m for m in muts if m["ID"] not in done and (not only or m["ID"] in only) and (not files or m["File"] in files)]
with open(resf, "a") as f, ThreadPoolExecutor(8) as ex:
    for r in ex.map(run, todo):
        f.write(json.dumps(r) + "\n"); f.flush()
        if only: print(json.dumps(r, indent=1))
