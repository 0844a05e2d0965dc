#!/usr/bin/env python3
"""mutants.py OUT [LIMIT_S] [WORKERS] [FILTER]: small changes to /repo, one at a time in
a private copy; those that build and pass the stable tests are given to the checks
until one reports a violation. Appends one JSON line per mutant to OUT."""
import json, os, subprocess, sys, shutil, tempfile, glob, random, time, threading, fnmatch
V = os.environ.get("VERIF_COPY", "/verif")
out, limit, workers = sys.argv[1], float(sys.argv[2]) if len(sys.argv) > 2 else 3600, int(sys.argv[3]) if len(sys.argv) > 3 else 4
filt = sys.argv[4] if len(sys.argv) > 4 else "*"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, text=True, capture_output=True, **k)
files = [f for f in sh("git -C /repo ls-files '*.go'").stdout.split() if not f.endswith("_test.go") and "testing/" not in f and fnmatch.fnmatch(f, filt)]
env = ". /opt/vp/env.sh; "
sh(env + f"cd {V}/mc && go build -o /tmp/mutate ./cmd/mutate")
ms = [json.loads(l) for l in sh("cd /repo && /tmp/mutate " + " ".join(files)).stdout.splitlines()]
done = set()
if os.path.exists(out):
    for l in open(out):
        m = json.loads(l); done.add((m["File"], m["From"], m["New"]))
ms = [m for m in ms if (m["File"], m["From"], m["New"]) not in done]
random.Random(int(os.environ.get("MSEED", "1"))).shuffle(ms)
ED = ["P03", "P04", "P05", "P08", "P09", "P11", "P06", "P07", "P02", "P10", "P12", "P24", "P27", "P25", "P01", "P19"]
LANG = ["P14", "P15", "P13", "P10", "P19", "P28", "P01"]
CLI = ["P18", "P28", "P16", "P17", "P19", "P25", "P26", "P21", "P20", "P29", "P15"]
def order(f):
    b = os.path.basename(f)
    first = []
    for k, p in [("search", ["P06", "P07"]), ("looking", ["P08", "P06"]), ("replace_match", ["P07"]), ("replace_regexp", ["P09"]), ("string", ["P09"]), ("mark", ["P05"]), ("delete", ["P03"]), ("kill", ["P03"]),
                 ("char", ["P04"]), ("word", ["P04"]), ("line", ["P04"]), ("equal", ["P27"]), ("documentation", ["P25"]), ("eval", ["P10", "P12", "P11"]), ("doc", ["P25"]), ("parse", ["P15"]), ("mcp", ["P29"]), ("test", ["P26"])]:
        if k in b: first += p
    if f.startswith("edlisp/parser") or f.startswith("edlisp/writer"): rest = LANG
    elif f.startswith("edlisp"): rest = ED
    elif f.startswith("tools"): rest = ["P29", "P22", "P17", "P25", "P19", "P16", "P21"]
    elif f.startswith("commands"): rest = CLI
    else: rest = ["P16", "P17", "P19", "P22", "P21", "P29", "P24", "P14"]
    r = []
    for p in first + rest:
        if p not in r: r.append(p)
    return r
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
lock = threading.Lock(); t0 = time.time(); it = iter(ms); count = {}
def work(k):
    d = tempfile.mkdtemp(prefix="mut.", dir="/tmp"); os.rmdir(d)
    subprocess.check_call(["cp", "-a", "/repo", d])
    try:
        while time.time() - t0 < limit:
            with lock: m = next(it, None)
            if m is None: return
            p = f"{d}/{m['File']}"; orig = open(p, "rb").read()
            open(p, "wb").write(orig[:m["From"]] + m["New"].encode() + orig[m["To"]:])
            try:
                r = sh(env + f"cd {d} && go build ./... && go vet ./{os.path.dirname(m['File'])} ")
                if r.returncode and "vet:" not in r.stderr and sh(env + f"cd {d} && go build ./...").returncode: m["r"] = "no build"
                else:
                    o = f"{d}.out.json"
                    try: r = sh(f"timeout 60 {V}/tools/nsrun.sh {d} bash /opt/vp/test.sh {o}")
                    except Exception: pass
                    try: got = set(json.load(open(o))["passed"])
                    except Exception: got = set()
                    if os.path.exists(o): os.remove(o)
                    if stable - got: m["r"] = "tests"
                    else:
                        m["r"] = "MISSED"; m["tried"] = []
                        for c in order(m["File"]):
                            t = time.time()
                            r = sh(f"timeout 300 {V}/tools/nsrun.sh {d} {V}/run.sh {c} quick")
                            m["tried"].append(f"{c}:{r.returncode}:{time.time()-t:.0f}s")
                            if r.returncode == 1 and f"VIOLATION property={c}" in r.stdout:
                                m["r"] = "caught " + c; break
                            if r.returncode not in (0, 1): m["r"] = f"rc {r.returncode} {c} " + (r.stdout + r.stderr)[-300:]; break
            finally:
                open(p, "wb").write(orig)
            with lock:
                count[m["r"][:6]] = count.get(m["r"][:6], 0) + 1
                open(out, "a").write(json.dumps(m) + "\n")
    finally:
        shutil.rmtree(d)
ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
print(count, f"{len(ms)} mutants listed")
