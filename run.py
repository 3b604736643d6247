"""python run.py <property> [--replay FILE]  -  see DESIGN.md.  Tier from VERIF_TIER (quick | thorough)."""
import os
import sys

for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NUMEXPR_NUM_THREADS"):
    os.environ[v] = "1"
os.environ["MPLBACKEND"] = "Agg"
os.environ["PYTHONHASHSEED"] = "0"


def boot():
    import tempfile
    import warnings
    sys.dont_write_bytecode = True
    # never read byte code left next to the sources: the checks must see the working tree as it is
    scratch = tempfile.mkdtemp(prefix="mc_pyc_")
    sys.pycache_prefix = scratch
    os.environ["MPLCONFIGDIR"] = scratch
    import atexit
    import shutil
    owner = os.getpid()
    atexit.register(lambda: os.getpid() == owner and shutil.rmtree(scratch, ignore_errors=True))
    warnings.filterwarnings("ignore")
    here = os.path.dirname(os.path.abspath(__file__))
    repo = os.environ.get("SPAFE_REPO", "/repo")
    sys.path[:] = [repo, here] + [p for p in sys.path if os.path.abspath(p or ".") not in (repo, here)]


def main(argv):
    boot()
    import importlib
    import traceback
    pid = argv[0].upper()
    from mc import core
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    try:
        import numpy as np
        np.seterr(all="ignore")
        from mc import api
        api.preload()
        module = importlib.import_module("mc.checks." + pid.lower())
    except Exception:
        traceback.print_exc()
        tb = traceback.format_exc()
        if "/spafe/" in tb:      # the library itself no longer imports
            p = os.path.join(core.VERIF, "evidence", pid + "_replay_import.txt")
            os.makedirs(os.path.dirname(p), exist_ok=True)
            open(p, "w").write(tb)
            print(f"VIOLATION property={pid} replay={p}")
            return 1
        raise
    if len(argv) > 2 and argv[1] == "--replay":
        return core.replay(module, argv[2])
    budget = 600.0 if tier == "quick" else 3 * 3600.0
    return core.main(module, tier, seed, float(os.environ.get("VERIF_BUDGET", budget)))


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
