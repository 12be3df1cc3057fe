"""Entry point of every check: run_check.py <property> [--replay <file>]."""
import os
import sys
import traceback

# One thread per worker process, no bytecode written next to the sources.
for _k in ("OMP_NUM_THREADS", "MKL_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[_k] = "1"
os.environ.setdefault("PYTHONHASHSEED", "0")
os.environ["CUDA_VISIBLE_DEVICES"] = ""
os.environ["MPLBACKEND"] = "Agg"
sys.dont_write_bytecode = True

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, REPO)

from vp import core  # noqa: E402

if __name__ == "__main__":
    try:
        code = core.main(sys.argv[1:], HERE, REPO)
    except Exception:
        traceback.print_exc()
        code = core.HARNESS_ERROR
    sys.exit(code)
