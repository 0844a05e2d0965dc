"""plant(id, prop, needs, breaks, edits, demo, **files): writes /verif/seeded/<id>."""
import json, os, subprocess, shutil, tempfile
HEAD = '''#!/bin/bash
# exit 0: behaves as documented; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w=$(mktemp -d) || exit 3
trap 'rm -rf "$w"' EXIT
'''
CLI = 'go build -o "$w/texted" ./cmd/texted || exit 3\nt="$w/texted"\n'
def plant(id, prop, needs, breaks, edits, demo, cli=True, **files):
    d = f"/verif/seeded/{id}"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    c = tempfile.mkdtemp(prefix="plant.", dir="/tmp"); os.rmdir(c)
    subprocess.check_call(["cp", "-a", "/repo", c])
    try:
        for path, old, new in edits:
            p = f"{c}/{path}"; s = open(p).read()
            if s.count(old) != 1: raise SystemExit(f"{id}: {path}: {s.count(old)} times {old!r}")
            open(p, "w").write(s.replace(old, new))
        subprocess.check_call("gofmt -l . | grep . && exit 1 || true", shell=True, cwd=c)
        diff = subprocess.check_output(["git", "diff"], cwd=c, text=True)
        open(f"{d}/patch.diff", "w").write(diff)
    finally:
        shutil.rmtree(c)
    open(f"{d}/demo.sh", "w").write(HEAD + (CLI if cli else "") + demo.strip("\n") + "\n")
    os.chmod(f"{d}/demo.sh", 0o755)
    for name, text in files.items():
        open(f"{d}/{name.replace('_go', '.go')}", "w").write(text.lstrip("\n"))
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
