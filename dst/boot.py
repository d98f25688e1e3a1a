"""Imports nannos from /repo under the simulator's seams."""
import os
import sys

REPO = os.environ.get("DST_REPO", "/repo")
ENV = dict(
    PYTHONDONTWRITEBYTECODE="1",
    JAX_PLATFORMS="cpu",
    OMP_NUM_THREADS="1",
    OPENBLAS_NUM_THREADS="1",
    MKL_NUM_THREADS="1",
    MPLBACKEND="agg",
    PYVISTA_OFF_SCREEN="true",
    CUDA_VISIBLE_DEVICES="",
)


def boot(block=(), instrumented=True, locks=("nannos", "joblib.parallel")):
    """Install the seams, then import nannos. block: optional packages made unavailable."""
    import warnings

    warnings.filterwarnings("ignore")
    from . import clock, sched, instrument

    clock.install()
    sched.install_locks(locks)
    for name in block:
        sys.modules[name] = None
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import nannos

    root = os.path.realpath(os.path.dirname(nannos.__file__))
    assert root == os.path.realpath(os.path.join(REPO, "nannos")), root
    warnings.filterwarnings("ignore")
    if instrumented:
        instrument.install(root)
        instrument.collect()
    return nannos
