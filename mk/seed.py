"""Author and verify planted bugs (development tool; no check uses it).

  seed.py make SPEC.py [ID...]   write /verif/seeded/ID from the BUGS table of SPEC.py
  seed.py verify ID...           build, tests, demo on both trees, and the check, in a scratch copy
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

SEEDED = "/verif/seeded"
SCRATCH = "/tmp/sb"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def copy_repo(name):
    dst = f"{SCRATCH}/{name}"
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(SCRATCH, exist_ok=True)
    subprocess.check_call(["cp", "-a", "/repo", dst])
    return dst


def make(spec, only):
    bugs = runpy.run_path(spec)["BUGS"]
    for b in bugs:
        if only and b["id"] not in only:
            continue
        dst = copy_repo("mk_" + b["id"])
        try:
            for path, old, new in b["edits"]:
                p = f"{dst}/bayes_optim/{path}"
                s = open(p).read()
                assert s.count(old) == 1, (b["id"], path, s.count(old), old)
                open(p, "w").write(s.replace(old, new))
            diff = sh("git diff", cwd=dst).stdout
            assert diff
            # removed lines must be original ones
            base = sh("git rev-list --max-parents=0 HEAD", cwd=dst).stdout.strip()[:7]
            for path in {e[0] for e in b["edits"]}:
                blame = sh(f"git blame -s HEAD -- bayes_optim/{path}", cwd=dst).stdout.splitlines()
                d = sh(f"git diff -U0 -- bayes_optim/{path}", cwd=dst).stdout
                import re
                for m in re.finditer(r"^@@ -(\d+)(?:,(\d+))? \+", d, re.M):
                    a, n = int(m[1]), int(m[2] or 1)
                    for ln in blame[a - 1 : a - 1 + n]:
                        if not ln.startswith("^"):
                            print("  NOT ORIGINAL", b["id"], ln)
                    if n == 0:
                        print("  pure insertion hunk", b["id"])
            out = f"{SEEDED}/{b['id']}"
            os.makedirs(out, exist_ok=True)
            open(out + "/patch.diff", "w").write(diff)
            open(out + "/demo.py", "w").write(b["demo"].lstrip("\n"))
            open(out + "/demo.sh", "w").write(
                "#!/bin/bash\n"
                "export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONNOUSERSITE=1 OMP_NUM_THREADS=1 "
                "OPENBLAS_NUM_THREADS=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=\n"
                'D=$(cd "$(dirname "$0")" && pwd)\nR=$PWD\nT=$(mktemp -d)\ntrap \'rm -rf "$T"\' EXIT\ncd "$T"\n'
                'PYTHONPATH="$R" timeout 280 /opt/venv/bin/python -W ignore "$D/demo.py"\n'
            )
            os.chmod(out + "/demo.sh", 0o755)
            json.dump(
                {"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                open(out + "/meta.json", "w"), indent=1,
            )
            print("made", b["id"])
        finally:
            shutil.rmtree(dst, ignore_errors=True)


def verify(ids, tests=True):
    for i in ids:
        meta = json.load(open(f"{SEEDED}/{i}/meta.json"))
        dst = copy_repo(i)
        res = {}
        try:
            r = sh(f"bash {SEEDED}/{i}/demo.sh", cwd=dst)
            res["demo_clean"] = r.returncode
            if r.returncode:
                print(r.stdout[-800:], r.stderr[-1500:])
            a = sh(f"git apply {SEEDED}/{i}/patch.diff", cwd=dst)
            res["apply"] = a.returncode
            r = sh(f"bash {SEEDED}/{i}/demo.sh", cwd=dst)
            res["demo_bug"] = r.returncode
            res["demo_msg"] = (r.stdout + r.stderr).strip().splitlines()[-1:] 
            if tests:
                t = open("/opt/vp/test.sh").read().replace("/repo", dst).replace("/opt/vp/run.", f"{SCRATCH}/run.")
                open(f"{SCRATCH}/t_{i}.sh", "w").write(t)
                sh(f"bash {SCRATCH}/t_{i}.sh {SCRATCH}/{i}.json")
                o = json.load(open(f"{SCRATCH}/{i}.json"))
                base = json.load(open("/opt/vp/BASELINE.json"))
                res["tests_missing"] = [t for t in base["stable"] if t not in o["passed"]]
            props = meta["property"]
            r = sh(f"VERIF_SEED=1 VERIF_TIER=quick VERIF_REPO={dst} bash /verif/run.sh {props} quick", cwd="/verif")
            res["check"] = r.returncode
            res["check_out"] = [l[:300] for l in r.stdout.strip().splitlines()[-3:]]
            if r.returncode not in (0, 1):
                res["err"] = r.stderr[-800:]
        finally:
            shutil.rmtree(dst, ignore_errors=True)
        ok = res["demo_clean"] == 0 and res["apply"] == 0 and res["demo_bug"] != 0 and not res.get("tests_missing")
        print(i, meta["property"], "COUNTS" if ok else "BAD", "CAUGHT" if res["check"] == 1 else "MISSED", json.dumps(res), flush=True)


if __name__ == "__main__":
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        verify([a for a in sys.argv[2:] if a != "--notests"], "--notests" not in sys.argv)
