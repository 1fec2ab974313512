"""run.py ID [--tier quick|thorough] [--replay FILE]   -- run one property check against /repo's working tree."""

import argparse
import importlib
import os
import sys

ROOT = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/venv/bin/python"
FIXED_ENV = {
    "LANG": "C.UTF-8",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "PROJ_NETWORK": "OFF",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "VERIF_REEXEC": "1",
}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    tier = a.tier or os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    if os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ)
        for k in ("PYTHONPATH", "PYTHONHOME"):
            env.pop(k, None)
        env.update(FIXED_ENV)
        os.execve(PY, [PY, "-B", os.path.join(ROOT, "run.py")] + sys.argv[1:], env)
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    repo_src = os.environ.get("VERIF_REPO", "/repo") + "/src"
    sys.path.insert(0, repo_src)
    sys.path.insert(1, ROOT)
    sys.path.append(os.path.join(ROOT, "vendor"))
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    os.chdir(ROOT)
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    from lib import pbt

    import aws.osml.photogrammetry as m

    if not os.path.abspath(m.__file__).startswith(os.path.abspath(repo_src)):
        print(f"ERROR: code under test imported from {m.__file__}, not {repo_src}", file=sys.stderr)
        sys.exit(3)
    mod = importlib.import_module(f"checks.{a.pid.lower()}")
    if a.replay:
        sys.exit(pbt.replay(mod.check, a.replay))
    sys.exit(pbt.run_check(mod.check, tier, seed))


main()
