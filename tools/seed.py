"""Development tool: makes and confirms planted changes.

usage: seed.py SPEC.py [ID ...]   SPEC.py defines BUGS = [dict(id, prop, edits=[(file, old, new)], needs, breaks,
demo)].  For each: builds the patch in a scratch copy of /repo, runs the demo on the unchanged and the changed copy,
the stable tests on the changed copy, and property `prop`'s quick check on the changed copy; keeps it in
/verif/seeded when the first three are as they should be.  With --check only the check is run again."""
import json, os, re, shutil, subprocess, sys, runpy
VENV = "/opt/venv/bin/python"
BASE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def env(copy):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1",
             OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", CUDA_VISIBLE_DEVICES="", MPLCONFIGDIR="/tmp/w/mpl", RV_REPO=copy,
             PYTHONPATH=f"{copy}:{copy}/torchlie:{copy}/torchkin:/opt/vp/pytest_plugins")
    return e


def sh(cmd, copy, timeout=1500):
    return subprocess.run(cmd, cwd=copy, env=env(copy), shell=True, capture_output=True, text=True, timeout=timeout)


def stable(copy):
    x = f"{copy}.xml"
    sh(f"{VENV} -m pytest tests -m 'not cudaext' -n 8 --dist loadfile -q -p no:cacheprovider -p vp_seed --timeout=300 "
       f"--continue-on-collection-errors -o junit_family=xunit2 --junitxml={x}", copy)
    out = f"{copy}.json"
    subprocess.run(["python3", "/opt/vp/results.py", out, f"junit:{x}"], capture_output=True)
    miss = sorted(BASE - set(json.load(open(out))["passed"]))
    for f in (x, out):
        os.path.exists(f) and os.remove(f)
    return miss


def check(prop, copy, tier="quick"):
    r = sh(f"bash /verif/check.sh {prop} {tier}", copy)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, v[:1], r.stdout.strip().splitlines()[-1:] if r.stdout.strip() else r.stderr[-300:]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    only_check = "--check" in sys.argv
    bugs = runpy.run_path(args[0])["BUGS"]
    for b in bugs:
        if args[1:] and b["id"] not in args[1:]:
            continue
        copy = f"/tmp/seed-{b['id']}"
        shutil.rmtree(copy, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", copy], check=True)
        try:
            work = f"/tmp/seed-{b['id']}-demo"
            shutil.rmtree(work, ignore_errors=True); os.makedirs(work)
            open(f"{work}/demo.py", "w").write(b["demo"])
            open(f"{work}/demo.sh", "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
            if not only_check:
                r = sh(f"bash {work}/demo.sh", copy, 300)
                if r.returncode:
                    print(b["id"], "DEMO FAILS UNCHANGED", (r.stdout + r.stderr)[-600:], flush=True); continue
            bad = False
            for f, old, new in b["edits"]:
                s = open(f"{copy}/{f}").read()
                if s.count(old) != 1:
                    print(b["id"], f"EDIT {f}: {s.count(old)} matches: {old[:60]!r}"); bad = True; break
                open(f"{copy}/{f}", "w").write(s.replace(old, new))
            if bad:
                continue
            if not only_check:
                r = sh(f"bash {work}/demo.sh", copy, 300)
                if r.returncode == 0:
                    print(b["id"], "DEMO PASSES CHANGED", (r.stdout + r.stderr)[-300:], flush=True); continue
                dmsg = (r.stdout + r.stderr).strip().splitlines()[-1:]
                miss = stable(copy)
                if miss:
                    print(b["id"], "TESTS CATCH IT", len(miss), miss[:2], flush=True); continue
                diff = subprocess.run(["git", "-C", copy, "diff"], capture_output=True, text=True).stdout
                for f in {e[0] for e in b["edits"]}:
                    orig = subprocess.run(["git", "-C", "/repo", "show", f"7b52199:{f}"], capture_output=True,
                                          text=True).stdout.splitlines()
                    base = open(f"/repo/{f}").read().splitlines()
                    now = open(f"{copy}/{f}").read().splitlines()
                    gone = [l for l in base if l not in now]
                    if gone and not any(l in orig for l in gone):
                        print(b["id"], "NOTE: only changes lines of fix commits", f)
                d = f"/verif/seeded/{b['id']}"
                os.makedirs(d, exist_ok=True)
                for n in ("demo.py", "demo.sh"):
                    shutil.copy(f"{work}/{n}", d)
                open(f"{d}/patch.diff", "w").write(diff)
                json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                          open(f"{d}/meta.json", "w"), indent=1)
                print(b["id"], "KEPT demo:", dmsg, flush=True)
            rc, v, last = check(b["prop"], copy)
            rc, v, last = check(b["prop"], copy)
            f = "/verif/tools/seed_results.json"
            res = json.load(open(f)) if os.path.exists(f) else {}
            if os.path.isdir(f"/verif/seeded/{b['id']}"):
                res[b["id"]] = "caught by " + b["prop"] if rc == 1 and v else f"missed by {b['prop']}"
                json.dump(res, open(f, "w"), indent=0, sort_keys=True)
            print(b["id"], "CAUGHT" if rc == 1 and v else f"*** MISSED rc={rc}", b["prop"], last, flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)
            shutil.rmtree(f"/tmp/seed-{b['id']}-demo", ignore_errors=True)


main()
