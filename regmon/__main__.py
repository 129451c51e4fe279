"""python -m regmon C01 [--tier quick|thorough] [--only KIND] [--scale X] [--jobs N] | --replay FILE"""
import argparse
import json
import os
import sys

ENV = dict(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg",
           OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1")

if any(os.environ.get(k) != v for k, v in ENV.items()):
    os.environ.update(ENV)
    os.execv(sys.executable, [sys.executable, "-m", "regmon"] + sys.argv[1:])

from . import core  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--only")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--jobs", type=int)
    ap.add_argument("--budget", type=float)
    ap.add_argument("--replay")
    a = ap.parse_args()
    # the code under test is /repo's working tree, never a stale install
    sys.path.insert(0, core.REPO)
    import regain

    where = os.path.realpath(os.path.dirname(regain.__file__))
    if where != os.path.realpath(os.path.join(core.REPO, "regain")):
        print("regain is imported from %s, not from %s" % (where, core.REPO))
        return 4
    if a.replay:
        d = json.load(open(a.replay))
        r = core._run_case((d["property"], d["kind"], d["index"], d["seed"], d["tier"], 600))
        print(json.dumps({k: r[k] for k in ("desc", "violations", "known", "inconclusive")},
                         indent=1, default=str))
        return 1 if r["violations"] else 0
    try:
        seed = int(a.seed)
    except ValueError:
        seed = 1
    return core.run(a.prop, a.tier, seed, only=a.only, scale=a.scale, jobs=a.jobs,
                    budget=a.budget)


if __name__ == "__main__":
    sys.stdout.flush()
    code = main()
    sys.stdout.flush()
    os._exit(code if isinstance(code, int) else 5)
