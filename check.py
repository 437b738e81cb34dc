#!/opt/venv/bin/python
"""
check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--scale X] [--sub NAME]

Exit 0: held on everything explored.  Exit 1 + a VIOLATION line: broken.  Exit 2: the check
itself failed.
"""
import argparse
import glob
import importlib
import os
import sys

os.environ.setdefault("PYTHONHASHSEED", "0")
if os.environ.get("PYTHONHASHSEED") != "0" or not os.environ.get("_PBT_RE"):
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["_PBT_RE"] = "1"
    os.environ["PYTHONWARNINGS"] = "ignore"
    py = "/opt/venv/bin/python"
    os.execv(py, [py, "-B"] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from pbt import bootstrap  # noqa: E402

bootstrap.setup()
from pbt import core  # noqa: E402


def load(pid):
    names = glob.glob(os.path.join(HERE, "checks", pid.lower() + "_*.py"))
    if len(names) != 1:
        raise SystemExit("no such property: " + pid)
    mod = importlib.import_module("checks." + os.path.basename(names[0])[:-3])
    return mod.PROP


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--workers", type=int, default=8)
    ap.add_argument("--sub", action="append")
    a = ap.parse_args()
    try:
        prop = load(a.property)
        if a.replay:
            return core.replay(prop, a.replay)
        return core.drive(
            prop, a.tier, a.seed, nworkers=a.workers, scale=a.scale, only=a.sub
        )
    except core.HarnessError as err:
        print("ERROR: {}".format(err))
        return 2
    except Exception as err:
        import traceback

        traceback.print_exc()
        # the code under test could not even be imported / initialised
        if core.through_repo(err):
            path = core.save_replay(
                a.property,
                {"sub": "import", "case": {}, "message": traceback.format_exc()},
            )
            print("VIOLATION property={} replay={}".format(a.property, path))
            return 1
        return 2


if __name__ == "__main__":
    sys.exit(main())
