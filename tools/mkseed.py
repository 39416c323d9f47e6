#!/usr/bin/env python3
"""mkseed.py FILE: plant bugs described in FILE (python: SEEDS = [dict(id, property, pkg, edits=[(file, old, new)], test, needs, breaks)])
in a scratch copy of /repo, confirm them (builds, repository tests pass, demo passes without and fails with) and write seeded/<id>/"""
import json, os, shutil, subprocess, sys, tempfile
W = "/tmp/seedwork"
def sh(c, cwd=W): return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; " + c], cwd=cwd, capture_output=True, text=True)
DEMO = '''#!/bin/bash
# exit 0: the guarantee holds; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp)
echo "{\\"Replace\\":{\\"$PWD/%(pkg)s/zz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T"
exec timeout 250 go test -count=1 -vet=off -timeout 200s -overlay "$T" -run '^TestDemo$' ./%(pkg)s
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for s in ns["SEEDS"]:
    if only and s["id"] not in only: continue
    d = "/verif/seeded/" + s["id"]
    if os.path.exists(d) and not only: continue
    if os.path.exists(W): shutil.rmtree(W)
    shutil.copytree("/repo", W, symlinks=True)
    sh("git checkout -q -- .")
    tmp = tempfile.mkdtemp()
    open(tmp + "/demo_test.go", "w").write(s["test"].lstrip())
    open(tmp + "/demo.sh", "w").write(DEMO % {"pkg": s["pkg"]})
    os.chmod(tmp + "/demo.sh", 0o755)
    r = sh(f"gofmt -l {tmp}; bash {tmp}/demo.sh")
    if r.returncode != 0: print("DEMO FAILS UNCHANGED", s["id"], (r.stdout + r.stderr)[-1500:]); continue
    bad = False
    for f, a, b in s["edits"]:
        p = W + "/" + f; t = open(p).read()
        if t.count(a) != 1: print("NOMATCH", s["id"], f, t.count(a)); bad = True; break
        open(p, "w").write(t.replace(a, b))
    if bad: continue
    r = sh("go build ./... && go vet ./... && go test -count=1 ./... 2>&1 | grep -E '^(---|FAIL|panic)' ")
    if "FAIL" in r.stdout or "panic" in r.stdout or r.returncode not in (0, 1) or r.stderr.strip(): print("TESTS", s["id"], r.stdout[-800:], r.stderr[-800:]); continue
    r = sh(f"bash {tmp}/demo.sh")
    if r.returncode == 0: print("DEMO PASSES WITH PATCH", s["id"]); continue
    out = r.stdout[-300:]
    diff = sh("git diff").stdout
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(tmp + "/demo_test.go", d); shutil.copy(tmp + "/demo.sh", d)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # do the checks catch it?
    c = subprocess.run(["python3", "/verif/check.py", s["property"]], cwd="/verif", env=dict(os.environ, VERIF_REPO=W, VERIF_SEED="1"), capture_output=True, text=True)
    v = [l for l in c.stdout.splitlines() if l.startswith("VIOLATION")]
    print("OK", s["id"], s["property"], "caught" if c.returncode == 1 and v else "MISSED rc=%d" % c.returncode, v[:1], [l.strip()[:150] for l in c.stdout.splitlines() if "failed obligation" in l][:2], flush=True)
    shutil.rmtree(tmp)
if os.path.exists(W): shutil.rmtree(W)
