#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--sub NAME] [--scale X] | --replay FILE"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
if os.environ.get("PBT_REEXEC") != "1":
    env = dict(os.environ, PBT_REEXEC="1", PYTHONHASHSEED="0", PYTHONUTF8="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1")
    os.execve(PY if os.path.exists(PY) else sys.executable, [PY, os.path.abspath(__file__)] + sys.argv[1:], env)

sys.path.insert(0, HERE)
# numpy / matplotlib come from the project's own venv; only hypothesis is taken from the tools venv.
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import shutil
import tempfile

_mpl = tempfile.mkdtemp(prefix="pbt-mpl-")
os.environ["MPLCONFIGDIR"] = _mpl
try:  # reuse the project's font cache (read only) instead of rebuilding it on every run
    for _f in os.listdir("/opt/vp/mplconfig"):
        if _f.endswith(".json"):
            shutil.copy(os.path.join("/opt/vp/mplconfig", _f), _mpl)
except OSError:
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--sub")
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    ap.add_argument("--smoke", action="store_true", help="import everything and list the properties")
    a = ap.parse_args()
    from pbt import core

    core.load_target()
    try:
        if a.smoke:
            from pbt import registry

            print("ready:", " ".join(sorted(registry.load())))
            return 0
        if a.replay:
            return core.replay(a.replay)
        return core.run_property(a.property, a.tier, a.seed, a.sub, a.scale)
    finally:
        shutil.rmtree(sys.pycache_prefix, ignore_errors=True)
        shutil.rmtree(_mpl, ignore_errors=True)


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback

        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    os._exit(rc)
