#!/usr/bin/env python3
"""check.py PROPERTY: decide one property of /repo.

1. gocv generates every proof obligation of specs/PROPERTY.spec from /repo's current source and
   has the SMT solvers discharge them (the deciding step);
2. the replay harness (witness/*/PROPERTY_test.go, injected with `go test -overlay`) runs the real
   code to turn a failed obligation into a concrete failing input, and validates the trusted
   contracts on a bounded set of inputs (bounded, never counted as proved).

exit 0: every obligation discharged and no failing input; exit 1: VIOLATION line.
"""
import json, os, re, subprocess, sys, time, threading, glob, tempfile, shutil

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
PKGDIR = {"root": ".", "bytecode": "bytecode", "cache": "bytecode/cache", "helpers": "helpers", "tester": "tester"}


def env():
    e = dict(os.environ)
    if os.path.exists("/opt/vp/env.sh"):
        out = subprocess.run(["bash", "-c", ". /opt/vp/env.sh; env -0"], capture_output=True, text=True).stdout
        for kv in out.split("\0"):
            if "=" in kv:
                k, v = kv.split("=", 1)
                e[k] = v
    e["GOSUMDB"] = "off"
    e.setdefault("HOME", "/root")
    return e


def build(e):
    """build gocv; always from the committed source (go's build cache makes this cheap)"""
    os.makedirs(ROOT + "/bin", exist_ok=True)
    r = subprocess.run(["go", "build", "-o", ROOT + "/bin/gocv", "."], cwd=ROOT + "/gocv", env=e, capture_output=True, text=True)
    if r.returncode != 0:
        print("cannot build gocv:\n" + r.stdout + r.stderr)
        sys.exit(2)


def verify(pid, e, tier, res):
    out = tempfile.mktemp(suffix=".json")
    cmd = [ROOT + "/bin/gocv", "-spec", f"{ROOT}/specs/{pid}.spec", "-repo", REPO, "-json", out]
    if tier == "thorough":
        cmd += ["-step", "15000", "-hou", "6000", "-final", "60000"]
    res["cmd"] = " ".join(cmd)
    try:
        r = subprocess.run(cmd, env=e, capture_output=True, text=True, timeout=780)
        res["log"] = r.stdout[-6000:] + r.stderr[-3000:]
        res["rc"] = r.returncode
    except subprocess.TimeoutExpired as x:
        res["log"] = "verifier timed out"
        res["rc"] = 124
    try:
        res["rep"] = json.load(open(out))
        os.unlink(out)
    except Exception:
        res["rep"] = None


def witness(pid, e, tier, seed, res, tmp):
    """run the replay harness of every package that has one for this property"""
    res["runs"] = []
    for d in sorted(glob.glob(f"{ROOT}/witness/*")):
        pk = os.path.basename(d)
        f = f"{d}/{pid}_test.go"
        if pk == "common" or not os.path.exists(f):
            continue
        pkg = PKGDIR[pk]
        # the shared helpers carry a placeholder package clause
        m = re.search(r"^package (\S+)", open(f).read(), re.M)
        rep = {}
        for cf in sorted(glob.glob(f"{ROOT}/witness/common/*.go")):
            dst = f"{tmp}/{pk}_{os.path.basename(cf)}"
            txt = open(cf).read().replace("package common", "package " + m.group(1), 1)
            open(dst, "w").write(txt)
            rep[f"{REPO}/{pkg}/zz_verif_{os.path.basename(cf)[:-3]}_test.go"] = dst
        for x in sorted(glob.glob(f"{d}/shared_*.go")):
            rep[f"{REPO}/{pkg}/zz_verif_{os.path.basename(x)[:-3]}_test.go"] = x
        rep[f"{REPO}/{pkg}/zz_verif_{pid}_test.go"] = f
        # leave the repository's own tests out: only the harness is compiled
        for x in glob.glob(f"{REPO}/{pkg}/*_test.go"):
            rep[os.path.abspath(x)] = ""
        ov = f"{tmp}/{pk}_overlay.json"
        json.dump({"Replace": rep}, open(ov, "w"))
        cur = f"{tmp}/{pk}_cur"
        ee = dict(e)
        ee.update(VERIF_CUR=cur, VERIF_SEED=str(seed), VERIF_TIER=tier)
        lim = 500 if tier == "thorough" else 200
        cmd = ["go", "test", "-count=1", "-v", "-vet=off", f"-timeout={lim}s", "-overlay", ov, "-run", f"^TestVerif{pid}", "./" + pkg]
        run = {"pkg": pk, "witness": None, "ok": False, "cases": 0, "samples": [], "bound": ""}
        try:
            r = subprocess.run(cmd, cwd=REPO, env=ee, capture_output=True, timeout=lim + 120)
            out = r.stdout.decode("utf-8", "replace") + r.stderr.decode("utf-8", "replace")
            run["ok"] = r.returncode == 0
        except subprocess.TimeoutExpired as x:
            out = "harness timed out"
        known = []
        for line in out.splitlines():
            i = line.find("VERIF-")
            if i < 0:
                continue
            line = line[i:]
            if line.startswith("VERIF-WITNESS ") and run["witness"] is None:
                run["witness"] = line[14:]
            elif line.startswith("VERIF-CASES "):
                run["cases"] += int(line.split()[1])
            elif line.startswith("VERIF-SAMPLE "):
                run["samples"].append(line[13:])
            elif line.startswith("VERIF-BOUND "):
                run["bound"] += line[12:] + "; "
        if not run["ok"] and run["witness"] is None:
            # the process died: a Go panic or fatal error outside recover, or a hang
            if re.search(r"^(fatal error:|runtime: goroutine stack exceeds)", out, re.M) and "[build failed]" not in out:
                try:
                    c = open(cur).read()
                except Exception:
                    c = ""
                first = re.search(r"^(fatal error:.*|runtime: goroutine stack exceeds.*)", out, re.M).group(1)
                if "test timed out" not in first:
                    run["witness"] = json.dumps({"what": "the process died: " + first, "input": c})
        run["log"] = out[-3000:]
        res["runs"].append(run)


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    e = env()
    t0 = time.time()
    build(e)
    tmp = tempfile.mkdtemp(prefix="verif_" + pid + "_")
    v, w = {}, {}
    th = threading.Thread(target=witness, args=(pid, e, tier, seed, w, tmp))
    th.start()
    verify(pid, e, tier, v)
    th.join()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(ROOT + "/evidence", exist_ok=True)
    replay = f"{ROOT}/evidence/replay-{pid}.txt"
    if os.path.exists(replay):
        os.unlink(replay)
    rep = v.get("rep")
    failed = []
    if rep is None:
        failed = [{"name": "load | the verifier could not process the source", "status": "error", "output": v.get("log", "")}]
        rep = {"obligations": 1, "discharged": 0, "functions": [], "by_backend": {}, "by_kind": {}, "trusted": [], "externs": [], "assumptions": [], "inlined": [], "solver_s": 0, "notes": []}
    else:
        failed = rep.get("failed") or []
    wit = [(r["pkg"], r["witness"]) for r in w["runs"] if r["witness"]]
    viol = 0
    if wit or failed:
        viol = 1
        with open(replay, "w") as f:
            f.write(f"property {pid}\n")
            for pk, x in wit:
                f.write(f"\nfailing input (replayed on the real code, package {pk}):\n{x}\n")
            if not wit:
                f.write("\nno failing input found\n")
            for ob in failed:
                f.write(f"\nfailed obligation: {ob['name']}\nstatus: {ob['status']}\n{(ob.get('output') or '')[:4000]}\n")
            f.write("\nreproduce: " + v["cmd"] + "\n")
    known = []
    kf = ROOT + "/known-findings.txt"
    if os.path.exists(kf):
        for line in open(kf):
            m = re.match(r"known: property=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                known.append(m.group(2).strip())
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": rep["obligations"], "discharged": rep["discharged"],
            "checker_cmd": v["cmd"],
            "trusted_base": ["gocv VC generator (/verif/gocv) and golang.org/x/tools/go/ssa", "z3 5.3.2 / z3 4.8.12 / cvc5 1.1.2",
                             "Go memory model of gocv: field/element heaps, sequential execution, int and int64 mathematical"]
            + ["contract assumed on external function " + x for x in (rep.get("externs") or [])]
            + ["body not verified, contract trusted: " + x for x in (rep.get("trusted") or [])],
            "functions_under_contract": rep.get("functions") or [],
            "functions_inlined_into_callers": rep.get("inlined") or [],
            "by_backend": rep.get("by_backend"), "by_kind": rep.get("by_kind"),
            "solver_s": rep.get("solver_s"), "slowest": rep.get("slowest"), "loop_invariants_found": rep.get("invariants"),
            "failed_obligations": [x["name"] for x in failed],
            "bounded_replay": [{k: r[k] for k in ("pkg", "cases", "bound", "samples", "ok")} for r in w["runs"]],
        },
        "assumptions": (rep.get("assumptions") or []) + (rep.get("notes") or []),
        "wall_s": round(time.time() - t0, 2),
        "violations": viol,
    }
    json.dump(ev, open(f"{ROOT}/evidence/{pid}.json", "w"), indent=1)
    print(f"{pid}: obligations {rep['obligations']} discharged {rep['discharged']} failed {len(failed)}; replay cases {sum(r['cases'] for r in w['runs'])}; {ev['wall_s']} s")
    for ob in failed[:8]:
        print("  failed obligation:", ob["name"], "-", ob["status"])
    for r in w["runs"]:
        if not r["ok"] and not r["witness"]:
            print("  replay harness unavailable in package", r["pkg"], ":", r["log"][-400:])
    for k in known:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if wit:
        print("  failing input:", wit[0][1][:600])
        print(f"VIOLATION property={pid} replay={replay}")
        sys.exit(1)
    if failed:
        print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        sys.exit(1)
    sys.exit(0)


main()
