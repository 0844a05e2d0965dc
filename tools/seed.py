#!/usr/bin/env python3
"""Planted changes: seed.py verify ID... | check ID [P..] | all
verify: applies, builds, passes the stable tests, demo passes without and fails with it.
check: runs the check of the seed's property (or the given ones) against it."""
import json, os, subprocess, sys, shutil, tempfile, glob
V = "/verif"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, errors="replace", capture_output=True, **k)
def copy():
    d = tempfile.mkdtemp(prefix="seedcopy.", dir="/tmp"); os.rmdir(d)
    subprocess.check_call(["cp", "-a", "/repo", d]); return d
def stable(out):
    want = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    got = set(json.load(open(out))["passed"])
    return sorted(want - got)
def verify(i):
    s = f"{V}/seeded/{i}"; d = copy(); msgs = []
    demo = tempfile.mkdtemp(prefix="seeddemo.", dir="/tmp")
    try:
        for f in os.listdir(s):
            if not f.endswith((".diff", ".patch")) and f != "meta.json": shutil.copy(f"{s}/{f}", demo)
        r = sh(f"{V}/tools/nsrun.sh {d} bash -c 'cd /repo && bash {demo}/demo.sh'")
        if r.returncode: msgs.append("demo fails on the unchanged tree: " + (r.stdout + r.stderr)[-400:])
        r = sh(f"cd {d} && git apply {s}/patch.diff")
        if r.returncode: return ["patch does not apply: " + r.stderr]
        r = sh(f"{V}/tools/nsrun.sh {d} bash /opt/vp/build.sh")
        if r.returncode: return ["does not build: " + r.stderr]
        o = f"/tmp/seedout.{i}.json"
        r = sh(f"{V}/tools/nsrun.sh {d} bash /opt/vp/test.sh {o}")
        bad = stable(o)
        os.remove(o)
        if bad: msgs.append("tests fail: " + " ".join(bad[:4]))
        r = sh(f"{V}/tools/nsrun.sh {d} bash -c 'cd /repo && timeout 300 bash {demo}/demo.sh'")
        if r.returncode == 0: msgs.append("demo passes with the patch")
        r = sh(f"git -C {d} diff da361c0 HEAD --name-only")
    finally:
        shutil.rmtree(d); shutil.rmtree(demo)
    return msgs
def check(i, props, tier="quick"):
    s = f"{V}/seeded/{i}"; d = copy(); res = {}
    try:
        r = sh(f"cd {d} && git apply {s}/patch.diff")
        if r.returncode: return {"apply": r.stderr}
        for p in props:
            r = sh(f"timeout 880 {V}/tools/nsrun.sh {d} {V}/run.sh {p} {tier}")
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION property=" + p)]
            res[p] = "CAUGHT" if r.returncode == 1 and v else "missed" if r.returncode == 0 else f"rc={r.returncode} " + (r.stdout + r.stderr)[-300:]
    finally:
        shutil.rmtree(d)
    return res
a = sys.argv[1]
ids = sorted(os.path.basename(p) for p in glob.glob(f"{V}/seeded/*"))
if a == "verify":
    for i in sys.argv[2:] or ids: print(i, verify(i) or "ok", flush=True)
elif a == "check":
    i = sys.argv[2]; ps = sys.argv[3:] or [json.load(open(f"{V}/seeded/{i}/meta.json"))["property"]]
    print(i, check(i, ps))
elif a == "all":
    for i in ids:
        if len(sys.argv) > 2 and i not in sys.argv[2:]: continue
        m = json.load(open(f"{V}/seeded/{i}/meta.json")); print(i, check(i, [m["property"]]), flush=True)
