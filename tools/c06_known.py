"""Development tool: print the known-finding entries of C06 (inputs whose step meets a limit and exceeds the solver tolerance)."""
import sys

sys.path.insert(0, __file__.rsplit("/", 2)[0])
from mc import boot, lib  # noqa: E402

boot.attach()
from mc.checks import c06  # noqa: E402

for key, kind, cfg, x, u, T in c06.limit_grid():
    err, got, want = c06.limit_error(kind, cfg, x, u, T)
    if err > lib.FACTOR:
        i = int(max(range(len(want)), key=lambda j: abs(got[j] - want[j])))
        print(f"known: property=C06 key={key} bound={err:.2f} RK45 step in which a state limit is first met: {c06.zoo.KINDS[kind].names[i]} is {got[i]:.6g} instead of {want[i]:.6g}")
