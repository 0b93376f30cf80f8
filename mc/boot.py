"""Process set-up: import the code under test from the working tree, deterministically and without leaving files in it."""
import os
import sys

REPO = os.environ.get("SAD_REPO", "/repo")  # overridden only when developing against scratch mutants
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

for var in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(var, "1")
os.environ.setdefault("JAX_PLATFORMS", "cpu")
os.environ.setdefault("XLA_FLAGS", "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1")
sys.dont_write_bytecode = True


def attach():
    """Put the working tree first on the path and insist that is what gets imported."""
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    # dependencies first, from their own byte code; the code under test always from its source text
    import jax.experimental.ode  # noqa: F401
    import pint  # noqa: F401
    import pydantic  # noqa: F401
    import scipy.integrate  # noqa: F401
    import scipy.spatial.transform  # noqa: F401

    sys.pycache_prefix = f"/tmp/sad-no-bytecode-{os.getpid()}"
    import safe_autonomy_dynamics
    import safe_autonomy_dynamics.base_models
    import safe_autonomy_dynamics.cwh.rotational_model
    import safe_autonomy_dynamics.cwh.sixdof_model
    import safe_autonomy_dynamics.cwh.sun_model
    import safe_autonomy_dynamics.dubins
    import safe_autonomy_dynamics.external.aerobench.controlled_f16
    import safe_autonomy_dynamics.external.aerobench.lowlevel.clf16
    import safe_autonomy_dynamics.integrators
    import safe_autonomy_dynamics.utils  # noqa: F401

    path = os.path.realpath(safe_autonomy_dynamics.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"safe_autonomy_dynamics imported from {path}, not from {REPO}")


def tier():
    t = os.environ.get("VERIF_TIER", "quick")
    return t if t in ("quick", "thorough") else "quick"


def seed():
    try:
        return int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        return 1
