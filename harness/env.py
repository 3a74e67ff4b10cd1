"""Process environment shared by every entry point. Import this first."""
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")

for _k, _v in {
    "OMP_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "CUDA_VISIBLE_DEVICES": "",
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "DASK_DISTRIBUTED__SCHEDULER__DASHBOARD__ENABLED": "False",
}.items():
    os.environ[_k] = _v
sys.dont_write_bytecode = True

for _p in (os.path.join(VERIF, "vendor"), VERIF, REPO):
    if _p in sys.path:
        sys.path.remove(_p)
    sys.path.insert(0, _p)

import warnings  # noqa: E402

warnings.filterwarnings("ignore")
