#!/usr/bin/env python3
"""tools/mkseed.py FILE.py... : makes seeded/<id>/ from descriptions. Each FILE.py defines SEEDS, a list of
dict(id, property, needs, breaks, edits=[(file, old, new[, count])], module, pkg, test=<go test source>).
Works on a scratch copy of /repo; keeps a seed only if it builds, passes the stable tests, and its demo
passes without and fails with the change."""
import json, os, subprocess, sys, shutil, runpy
WT = "/tmp/seedwt"
def sh(cmd, cwd=None, t=900):
    return subprocess.run(["bash", "-c", ". /verif/env.sh; " + cmd], cwd=cwd, capture_output=True, text=True, timeout=t, errors="replace")
DEMO = '''#!/bin/bash
# exit 0 if the property holds on the code in the current directory, nonzero if not
export HOME=/root PATH=/opt/veriftools/go1.23.12/bin:/usr/local/bin:/usr/bin:/bin
export GOROOT= GOTOOLCHAIN=local GOPROXY=off GOWORK=off CGO_ENABLED=1 GOPATH=/root/go GOFLAGS="-mod=mod -buildvcs=false"
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
export TMPDIR="$tmp"
echo "{\\"Replace\\": {\\"$repo/%(module)s/%(pkg)s/zz_demo_test.go\\": \\"$here/demo_test.go.txt\\"}}" > "$tmp/overlay.json"
cd "$repo/%(module)s" && go test -vet=off -count=1 -timeout 200s -overlay "$tmp/overlay.json" -run '^TestZZDemo$' ./%(pkg)s
'''
def ids(f):
    d = json.load(open(f)); return d
def main():
    if os.path.exists(WT): shutil.rmtree(WT)
    subprocess.run(["cp", "-a", "/repo", WT], check=True)
    seeds = []
    for f in sys.argv[1:]:
        seeds += runpy.run_path(f)["SEEDS"]
    for s in seeds:
        sh("git checkout -q -- . && git clean -fdq", WT)
        ok = True
        for e in s["edits"]:
            p = os.path.join(WT, e[0]); t = open(p).read(); n = e[3] if len(e) > 3 else 1
            if t.count(e[1]) != n:
                print(s["id"], "EDIT does not match", e[0], t.count(e[1])); ok = False; break
            open(p, "w").write(t.replace(e[1], e[2]))
        if not ok: continue
        sh("gofmt -w " + " ".join({e[0] for e in s["edits"]}), WT)
        d = os.path.join("/verif/seeded", s["id"]); os.makedirs(d, exist_ok=True)
        diff = sh("git diff", WT).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.sh", "w").write(DEMO % dict(module=s["module"], pkg=s["pkg"])); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/demo_test.go.txt", "w").write(s["test"].lstrip())
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        m = s["module"]
        b = sh(f"go build ./... && go vet ./{s['pkg']} >/dev/null 2>&1; go test -vet=off -count=1 ./... 2>&1 | grep -E '^(---|FAIL|panic)' | head", os.path.join(WT, m))
        tests = b.stdout.strip() + b.stderr.strip()
        w = sh(f"bash {d}/demo.sh", WT)
        sh("git checkout -q -- .", WT)
        wo = sh(f"bash {d}/demo.sh", WT)
        print(s["id"], "tests:", tests[-300:] or "pass", "| demo with:", w.returncode, "without:", wo.returncode)
        if w.returncode == 0 or wo.returncode != 0 or tests:
            print("   NOT KEPT\n", (wo.stdout + wo.stderr)[-1500:] if wo.returncode else "", (w.stdout+w.stderr)[-600:])
            shutil.rmtree(d)
        elif "build failed" in w.stdout or "setup failed" in w.stdout:
            print("   NOT KEPT (demo does not build)", w.stdout[-500:]); shutil.rmtree(d)
        else:
            print("   ", [l.strip() for l in w.stdout.splitlines() if "demo_test" in l or "panic" in l][:3])
    shutil.rmtree(WT)
main()
