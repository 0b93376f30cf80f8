"""C33: F-16 utilities: extraction of one aircraft's results, frozen attributes, rounding, names and printing."""
import contextlib
import io
import itertools
import math
import re
import sys
from fractions import Fraction

import numpy as np

from mc import core

ORDER = ["vt", "alpha", "beta", "phi", "theta", "psi", "P", "Q", "R", "pos_n", "pos_e", "alt", "pow"]
LISTS = ("xd_list", "ps_list", "Nz_list", "Ny_r_list", "u_list")


def util():
    import safe_autonomy_dynamics.external.aerobench.util as u

    return u


class Llc:
    """Stands in for a controller with any number of integrators."""

    def __init__(self, n):
        self.n = n

    def get_num_integrators(self):
        return self.n


def result(aircraft, width, ticks, ext):
    states = np.array([[1e6 * t + 1e3 * a + v for a in range(aircraft) for v in range(width)] for t in range(ticks)]) + 0.5
    res = {"status": f"finished{aircraft}", "times": [0.25 * t for t in range(ticks)], "modes": [f"m{t}" for t in range(ticks)], "states": states}
    if ext:
        for j, k in enumerate(LISTS):
            if k in ("xd_list", "u_list"):
                res[k] = [[np.array([j + 10.0 * a + 100.0 * t, a]) for a in range(aircraft)] for t in range(ticks)]
            else:
                res[k] = [tuple(j + 10.0 * a + 100.0 * t for a in range(aircraft)) for t in range(ticks)]
    return res


def freeze(o):
    if isinstance(o, dict):
        return {k: freeze(v) for k, v in o.items()}
    if isinstance(o, np.ndarray):
        return ("a", o.shape, tuple(o.ravel().tolist()))
    if isinstance(o, (list, tuple)):
        return ("l", tuple(freeze(v) for v in o))
    return o


def extraction(rec, aircraft, ticks, ext, integrators):
    """Every index of one layout, in every order of two extractions."""
    from safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller import LowLevelController

    u = util()
    width = 13 + integrators
    for llc in [Llc(integrators)] + ([LowLevelController()] if integrators == 3 else []):
        for order in itertools.permutations(range(aircraft), min(2, aircraft)):
            res = result(aircraft, width, ticks, ext)
            before = freeze(res)
            outs = []
            for i in order:
                with core.CodeUnderTest():
                    outs.append((i, u.extract_single_result(res, i, llc)))
                rec.transition()
                rec.check(freeze(res) == before, "extracting an aircraft changes the result it is taken from", aircraft=aircraft, index=i)
            for i, o in outs:
                info = dict(aircraft=aircraft, ticks=ticks, extended=ext, index=i, integrators=integrators)
                if aircraft == 1:
                    rec.check(freeze(o) == before, "a single aircraft's result is not returned as it is", **info)
                    continue
                want = {"status": res["status"], "times": res["times"], "modes": res["modes"], "states": np.array([[1e6 * t + 1e3 * i + v + 0.5 for v in range(width)] for t in range(ticks)])}
                if ext:
                    for k in LISTS:
                        want[k] = [row[i] for row in res[k]]
                rec.check(set(o) == set(want), "the extracted result has other entries", got=sorted(o), want=sorted(want), **info)
                for k in want:
                    a, b = freeze(list(o[k]) if k in LISTS else o[k]), freeze(want[k])
                    rec.check(a == b, f"the extracted {k} is not that aircraft's", got=o[k], want=want[k], **info)
            rec.trace()
            rec.state(aircraft, ticks, ext, integrators, order)
            rec.outcome(aircraft, order)
        if aircraft == 1:
            for i in (1, 2, -1):
                try:
                    with core.CodeUnderTest():
                        u.extract_single_result(result(1, width, ticks, ext), i, llc)
                    rec.fail("an aircraft that does not exist is extracted", index=i)
                except Exception:  # pylint: disable=W0718
                    pass
                rec.transition()
    rec.sample({"aircraft": aircraft, "ticks": ticks, "extended": ext})


def makers():
    u = util()
    import safe_autonomy_dynamics.external.aerobench.lowlevel.low_level_controller as l

    class Own(u.Freezable):
        """A class of a user's, frozen on request."""

        shared = 1

        def __init__(self):
            self.a = 1
            self.b = None

    return {
        "own": (Own, ("a", "b", "shared"), False),
        "Euler": (lambda: u.Euler(lambda t, y: y, 0.0, np.array([1.0]), 1.0, step=0.5), ("t", "y", "tprev", "status", "der_func"), True),
        "SafetyLimits": (lambda: u.SafetyLimits(v=(1, 2)), ("altitude", "v", "Nz", "alpha", "betaMaxDeg"), True),
        "CtrlLimits": (l.CtrlLimits, ("ThrottleMax", "NzMin", "RudderMinDeg"), True),
        "LowLevelController": (l.LowLevelController, ("K_lqr", "xequil", "ctrlLimits"), True),
        "SafetyLimitsVerifier": (lambda: u.SafetyLimitsVerifier(u.SafetyLimits(), None), ("safety_limits", "llc"), False),
        "LowLevelControllerOfUser": (type("Mine", (l.LowLevelController,), {}), ("K_lqr", "uequil"), True),
    }


def frozen(rec, name, depth):
    """Every sequence of writes, freezes and deletions-free reads up to a depth against a model of the attribute set."""
    make, known, is_frozen = makers()[name]
    ops = [("set", k) for k in known[:1] + known[-1:]] + [("set", "brand_new"), ("set", "other_new"), ("set", known[-1] + "_"), ("set", "_private"), ("freeze",), ("sibling", "brand_new")]
    for seq in itertools.product(ops, repeat=depth):
        with core.CodeUnderTest():
            o = make()
            sib = make()
        have = {k: getattr(o, k) for k in known}
        fr = is_frozen
        for i, op in enumerate(seq):
            rec.transition()
            if op[0] == "freeze":
                with core.CodeUnderTest():
                    o.freeze_attrs()
                fr = True
                continue
            if op[0] == "sibling":  # freezing one object must not freeze another one
                if not is_frozen:
                    try:
                        setattr(sib, op[1], i)
                    except TypeError:
                        rec.fail("freezing an object freezes another one", object=name, sequence=seq[: i + 1])
                continue
            k, val = op[1], ("value", i)
            ok = not fr or k in have
            try:
                setattr(o, k, val)
                if rec.check(ok, "a frozen object accepts a new attribute", object=name, sequence=seq[: i + 1]):
                    have[k] = val
                else:
                    break
            except TypeError:
                if not rec.check(not ok, "an attribute cannot be set", object=name, sequence=seq[: i + 1]):
                    break
            for q in ("brand_new", "other_new", known[-1] + "_", "_private"):
                rec.check(hasattr(o, q) == (q in have), "a rejected attribute exists or an accepted one does not", object=name, attribute=q, sequence=seq[: i + 1])
            for q, w in have.items():
                rec.check(getattr(o, q) is w, "an attribute does not have the value it was given", object=name, attribute=q, sequence=seq[: i + 1])
        rec.trace()
        rec.state(name, seq)
    rec.outcome(name, depth)
    rec.sample({"object": name, "depth": depth})


def floats(scale):
    ks = list(range(-40, 41)) + [99, 100, 101, 1023, 1024, 65535, 2**31 - 1, 2**31, 2**53 - 1, 2**53, 10**15]
    for k in ks + [-k for k in ks[81:]]:
        for f in (0.0, 0.1, 0.25, 0.4999999999, 0.5, 0.5000000001, 0.75, 0.9, 0.9999999999):
            yield (k + f) * scale
        for s in (1, 2):
            x = float(k) * scale
            lo = hi = x
            for _ in range(s):
                lo, hi = float(np.nextafter(lo, -math.inf)), float(np.nextafter(hi, math.inf))
            yield lo
            yield hi
    yield from (0.0, -0.0, 5e-324, -5e-324, 1e-300, -1e-300, 1e300, -1e300, 1.7976931348623157e308)


def trunc(x):
    q = Fraction(x)
    n = abs(q.numerator) // q.denominator
    return n if q >= 0 else -n


def rounding(rec, scale):
    """fix and sign on all floats of a grid and their neighbours, as Python and as NumPy numbers."""
    u = util()
    for x in floats(scale):
        for c in (float, np.float64):
            v = c(x)
            with core.CodeUnderTest():
                a, b = u.fix(v), u.sign(v)
            rec.transition(2)
            rec.check(a == trunc(x) and a == int(a), "fix does not round towards zero", x=x, type=c.__name__, got=a, want=trunc(x))
            rec.check(b == (x > 0) - (x < 0), "sign is wrong", x=x, type=c.__name__, got=b)
        rec.trace()
        rec.state(repr(x))
    for v in (math.inf, -math.inf, 3, -3, 0, np.int64(-7), True, 5e-324, -5e-324, 1e-310, -2.3e-308, 1e-200, -1e-160, 1.7e-30, np.float32(1e-40), np.float32(-1e-30), 10**30, -10**400):
        rec.check(u.sign(v) == int(v > 0) - int(v < 0), "sign is wrong", x=v)
        rec.transition()
    rec.outcome(scale)


def names(rec):
    """State order: names and indices agree with the 13 states, and every call gives a list of its own."""
    u = util()
    with core.CodeUnderTest():
        a = u.get_state_names()
        b = u.get_state_names()
    rec.check(list(a) == ORDER, "the state names are not those of the 13 states in their order", got=a)
    if isinstance(a, list):
        a.append("x")
        rec.check(list(b) == ORDER and list(u.get_state_names()) == ORDER, "changing a list of state names changes later ones")
    want = dict(VT=0, VEL=0, ALPHA=1, BETA=2, PHI=3, THETA=4, PSI=5, P=6, Q=7, R=8, POSN=9, POS_N=9, POSE=10, POS_E=10, ALT=11, H=11, POW=12)
    for k, v in want.items():
        rec.check(getattr(u.StateIndex, k) == v, "a state index is wrong", name=k, got=getattr(u.StateIndex, k))
        rec.transition()
        rec.state(k)
    rec.trace()
    rec.outcome(0)


def printing(rec, rows, cols, label):
    """Printed matrices: the label, the column labels, and each row with its label and entries."""
    u = util()
    vals = (0.0, -1.5, 123.0, 0.001)
    for ent in itertools.product(vals, repeat=rows * cols):
        mat = np.array(ent).reshape(rows, cols)
        for rl in ([None, []] + ([" ".join(f"row{i}" for i in range(rows))] if rows else [])):
            for given in [mat, mat.tolist()] + ([list(ent)] if rows == 1 else []):
                keep = freeze(given)
                out = io.StringIO()
                with contextlib.redirect_stdout(out), core.CodeUnderTest():
                    u.printmat(given, label, rl, " ".join(f"c{j}" for j in range(cols)))
                rec.transition()
                lines = [s for s in out.getvalue().split("\n") if s.strip()]
                ok = rec.check(len(lines) == rows + 2, "a printed matrix has other lines", label=label, matrix=mat, got=lines)
                rec.check(lines[0].rstrip() == f"{label} =", "a printed matrix does not show its label", got=lines[0], want=label)
                if ok:
                    rec.check(lines[1].split() == [f"c{j}" for j in range(cols)], "a printed matrix does not show its column labels", got=lines[1])
                    for i in range(rows):
                        w = lines[2 + i].split()
                        if rl:
                            rec.check(w[0] == f"row{i}", "a printed row does not show its label", got=lines[2 + i])
                            w = w[1:]
                        rec.check(len(w) == cols and all(re.fullmatch(r"[-+0-9.e]+", s) and abs(float(s) - x) <= 1e-3 * abs(x) for s, x in zip(w, mat[i])), "a printed row does not show its entries", got=lines[2 + i], want=mat[i])
                rec.check(freeze(given) == keep, "printing a matrix changes it", got=given, want=keep)
        rec.trace()
        rec.state(rows, cols, ent, label)
    rec.outcome(rows, cols)


def run(tier):
    th = tier == "thorough"
    sc = [("names", {})]
    sc += [("extraction", dict(aircraft=a, ticks=t, ext=e, integrators=n)) for a in range(1, 9 if th else 5) for t in (1, 2, 3, 5) for e in (False, True) for n in (0, 1, 3, 4)]
    sc += [("frozen", dict(name=n, depth=d)) for n in makers() for d in range(1, 6 if th else 5)]
    sc += [("rounding", dict(scale=s)) for s in (1.0, 1e-3, 1.0 / 3.0, math.pi, 1e6)]
    sc += [("printing", dict(rows=r, cols=c, label=l)) for r in (1, 2) for c in (1, 2, 3) for l in ("A", "gain matrix", "main_label") if r * c <= (6 if th else 4)]
    return core.run_check("C33", sys.modules[__name__], sc)
