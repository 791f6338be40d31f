import importlib
import json
import os
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, ROOT)
sys.path.insert(0, REPO)


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    rest = args[1:]
    while rest:
        a = rest.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = rest.pop(0)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1

    import warnings

    from mc import core

    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)

    def report(err, case, trail):
        path = os.path.join(ROOT, "replays", f"{pid}.json")
        with open(path, "w") as f:
            json.dump({"property": pid, "case": case, "violation": err, "trail": trail, "replay_cmd": f"bash {ROOT}/run.sh {pid} --replay {path}"}, f, indent=1, default=str)
        print(f"--- {pid}: {err}")
        print(f"    case: {json.dumps(case, default=str)[:1500]}")
        for t in trail[-25:]:
            print("    *", t)
        print(f"VIOLATION property={pid} replay={path}", flush=True)

    try:
        import bayes_optim

        assert os.path.abspath(bayes_optim.__file__).startswith(os.path.abspath(REPO) + os.sep), bayes_optim.__file__
        mod = importlib.import_module(f"checks.{pid}")
        warnings.filterwarnings("ignore")
        only = None
        if replay:
            with open(replay) as f:
                only = json.load(f)["case"]
        viol, res, n, done, incomplete, wall = core.run(mod, pid, tier, seed, ROOT, only)
    except Exception as e:
        report(f"the code under test could not be exercised: {type(e).__name__}: {e}\n{traceback.format_exc()}", None, [])
        return 1

    cov = {"samples": res["samples"], "exhaustive": not incomplete and not viol, "cases_enumerated": n, "cases_executed": done, "bounds": mod.BOUNDS(tier)}
    if mod.LEVEL == "model_checking":
        cov.update(states=len(res["keys"]), transitions=res["transitions"], traces_validated_against_impl=res["traces"])
    else:
        cov.update(evaluations=res["evals"] + res["transitions"], distinct_nontrivial=len(res["keys"]), rule=mod.RULE)
    if incomplete:
        cov["cap_hit"] = "time budget; cases_executed of cases_enumerated were completed"
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": len(viol),
    }
    with open(os.path.join(ROOT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for k in res["known"]:
        print(f"KNOWN-FINDING: property={pid} {k}")
    if viol:
        v = viol[0]
        report(v["err"], v["case"], v["trail"])
        return 1
    print(f"OK {pid} [{tier}] cases={done}/{n} states={len(res['keys'])} transitions={res['transitions']} traces={res['traces']} evals={res['evals']} wall={wall:.1f}s" + (" INCOMPLETE (time budget)" if incomplete else ""))
    return 0


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    os._exit(code)
