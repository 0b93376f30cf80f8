"""Reference models: what each entity is documented to do, written independently of the code under test (float64)."""
import math

import numpy as np
from scipy.integrate import solve_ivp
from scipy.linalg import expm

INF = np.inf
NAN = np.nan


def arr(*v):
    return np.array(v, dtype=float)


class Model:
    """One entity kind in one configuration."""

    names = ()
    ctrl = ()
    linear = None  # (A, B) when linear

    def __init__(self):
        n, m = len(self.names), len(self.ctrl)
        self.lo = np.full(n, -INF)
        self.hi = np.full(n, INF)
        self.dlo = np.full(n, -INF)
        self.dhi = np.full(n, INF)
        self.wrap = np.full(n, NAN)
        self.umin = np.full(m, -1.0)
        self.umax = np.full(m, 1.0)

    # -- dynamics --
    def f(self, x, u):
        raise NotImplementedError

    def fmag(self, x, u):
        """Sum of magnitudes of the terms of f, for rounding tolerances (defaults to |f|)."""
        return np.abs(self.f(x, u))

    def slack(self, x, u):
        """How far apart equally valid readings of the documented derivative are at this state."""
        return np.zeros(len(x))

    def limited(self, x, u):
        d = np.minimum(np.maximum(self.f(x, u), self.dlo), self.dhi)
        d = np.where(x <= self.lo, np.maximum(d, 0.0), d)
        d = np.where(x >= self.hi, np.minimum(d, 0.0), d)
        return d

    def ramps(self, x, u):
        """{component: constant rate} for limited components whose unlimited rate is constant under constant control; None if not known."""
        return {}

    # -- flow --
    def flow(self, x0, u, T, dense=None):
        """Exact flow (to ~1e-9) of the limited model from a state within limits.

        Returns (x(T), info) with info['cross']: a limit is first met strictly inside the step; or None when the flow is not
        available. With dense=[t..] returns states at those times (rows) instead of x(T)."""
        x0 = np.asarray(x0, dtype=float)
        u = np.asarray(u, dtype=float)
        times = [T] if dense is None else [min(t, T) for t in dense]
        if T == 0:
            xs = [x0.copy() for _ in times]
            return (xs[-1] if dense is None else np.array(xs)), {"cross": False}
        if self.linear is not None and not np.isfinite(self.lo).any() and not np.isfinite(self.hi).any():
            A, B = self.linear
            n, m = B.shape
            M = np.zeros((n + m, n + m))
            M[:n, :n] = A
            M[:n, n:] = B
            xs = [(expm(M * t) @ np.concatenate([x0, u]))[:n] for t in times]
            return (xs[-1] if dense is None else np.array(xs)), {"cross": False}
        ramps = self.ramps(x0, u)
        if ramps is None:
            return self._flow_nocross(x0, u, T, dense)
        knots = [0.0]
        cross = False
        prof = {}
        for i, rate in ramps.items():
            rate = min(max(rate, self.dlo[i]), self.dhi[i])
            lim = self.hi[i] if rate > 0 else self.lo[i]
            if rate == 0 or not np.isfinite(lim):
                tc = INF
            else:
                tc = max((lim - x0[i]) / rate, 0.0)
            if 0 < tc < T * (1 + 1e-9):
                cross = True
            if 0 < tc < T:
                knots.append(tc)
            prof[i] = (x0[i], rate, tc, lim)
        knots = sorted(set(knots)) + [T]

        def rampval(i, t):
            r0, rate, tc, lim = prof[i]
            return lim if t >= tc and rate != 0 else r0 + rate * t

        rest = [i for i in range(len(x0)) if i not in prof]

        def full(t, y):
            x = np.empty(len(x0))
            x[rest] = y
            for i in prof:
                x[i] = rampval(i, t)
            return x

        def rhs(t, y):
            return np.minimum(np.maximum(self.f(full(t, y), u), self.dlo), self.dhi)[rest]

        out = [None] * len(times)
        y = x0[rest]
        for a, b in zip(knots[:-1], knots[1:]):
            inside = [(k, t) for k, t in enumerate(times) if a < t <= b or (t == 0 and a == 0)]
            if b > a and rest:
                sol = solve_ivp(rhs, (a, b), y, method="DOP853", rtol=1e-10, atol=1e-11, dense_output=bool(dense is not None))
                if not sol.success:
                    return None, {"cross": cross}
                for k, t in inside:
                    out[k] = full(t, sol.sol(t) if dense is not None else sol.y[:, -1])
                y = sol.y[:, -1]
            else:
                for k, t in inside:
                    out[k] = full(t, y)
        return (out[-1] if dense is None else np.array(out)), {"cross": cross}

    def _flow_nocross(self, x0, u, T, dense):
        times = [T] if dense is None else [min(t, T) for t in dense]
        sol = solve_ivp(lambda t, x: self.f(x, u), (0, T), x0, method="DOP853", rtol=1e-10, atol=1e-12, dense_output=True)
        if not sol.success:
            return None, {"cross": True}
        fine = sol.sol(np.linspace(0, T, 201)).T
        if (fine < self.lo - 1e-9).any() or (fine > self.hi + 1e-9).any():
            return None, {"cross": True}
        xs = sol.sol(np.array(times)).T
        return (xs[-1] if dense is None else xs), {"cross": False}

    def wrapped(self, x):
        return wrap_ref(x, self.wrap)

    def clip(self, x):
        return np.minimum(np.maximum(x, self.lo), self.hi)

    def finish(self, x):
        """Limiting and wrapping applied at the end of a step."""
        return self.wrapped(self.clip(x))

    def angle_diff(self, a, b):
        """a - b with wrapped components compared modulo 2 pi."""
        d = np.asarray(a, dtype=float) - np.asarray(b, dtype=float)
        w = ~np.isnan(self.wrap)
        d[..., w] = np.remainder(d[..., w] + math.pi, 2 * math.pi) - math.pi
        return d


def wrap_ref(x, centers):
    x = np.array(x, dtype=float)
    for i, c in enumerate(np.atleast_1d(centers)):
        if not math.isnan(c):
            k = math.floor((x[i] - c + math.pi) / (2 * math.pi))
            x[i] = x[i] - 2 * math.pi * k
    return x


# ----------------------------------------------------------------------------------------------------------------------
class Dubins2d(Model):
    names = ("x", "y", "heading", "v")
    ctrl = ("heading_rate", "acceleration")

    def __init__(
        self, v_min=200, v_max=400, heading_rate_control_min=-0.174533, heading_rate_control_max=0.174533,
        acceleration_control_min=-96.5, acceleration_control_max=96.5
    ):
        super().__init__()
        self.lo[3], self.hi[3] = v_min, v_max
        self.wrap[2] = 0
        self.umin = arr(heading_rate_control_min, acceleration_control_min)
        self.umax = arr(heading_rate_control_max, acceleration_control_max)

    def f(self, x, u):
        return arr(x[3] * math.cos(x[2]), x[3] * math.sin(x[2]), u[0], u[1])

    def fmag(self, x, u):
        return arr(abs(x[3]), abs(x[3]), abs(u[0]), abs(u[1]))

    def ramps(self, x, u):
        return {3: u[1]}


class Dubins3d(Model):
    names = ("x", "y", "z", "heading", "gamma", "roll", "v")
    ctrl = ("gamma_rate", "roll_rate", "acceleration")
    G = 32.17

    def __init__(
        self, v_min=200, v_max=400, gamma_min=-0.349066, gamma_max=0.349066, roll_min=-1.047198, roll_max=1.047198,
        gamma_rate_control_min=-0.174533, gamma_rate_control_max=0.174533, roll_rate_control_min=-0.087266,
        roll_rate_control_max=0.087266, acceleration_control_min=-96.5, acceleration_control_max=96.5
    ):
        super().__init__()
        self.lo[4:7] = gamma_min, roll_min, v_min
        self.hi[4:7] = gamma_max, roll_max, v_max
        self.wrap[3:6] = 0
        self.umin = arr(gamma_rate_control_min, roll_rate_control_min, acceleration_control_min)
        self.umax = arr(gamma_rate_control_max, roll_rate_control_max, acceleration_control_max)

    def f(self, x, u):
        _, _, _, psi, gam, roll, v = x
        return arr(
            v * math.cos(psi) * math.cos(gam), v * math.sin(psi) * math.cos(gam), -v * math.sin(gam), self.G / v * math.tan(roll), u[0],
            u[1], u[2]
        )

    def fmag(self, x, u):
        v = abs(x[6])
        return arr(v, v, v, abs(self.G / x[6] * math.tan(x[5])), abs(u[0]), abs(u[1]), abs(u[2]))

    def ramps(self, x, u):
        return {4: u[0], 5: u[1], 6: u[2]}


def cw_terms(p, v, n):
    return (3 * n * n * p[0] + 2 * n * v[1], -2 * n * v[0], -n * n * p[2])


def cw_mags(p, v, n):
    return (3 * n * n * abs(p[0]) + 2 * abs(n * v[1]), 2 * abs(n * v[0]), n * n * abs(p[2]))


class CWH(Model):
    names = ("x", "y", "z", "x_dot", "y_dot", "z_dot")
    ctrl = ("thrust_x", "thrust_y", "thrust_z")

    def __init__(self, m=12.0, n=0.001027):
        super().__init__()
        self.m, self.n = m, n
        A = np.zeros((6, 6))
        A[0, 3] = A[1, 4] = A[2, 5] = 1
        A[3, 0] = 3 * n * n
        A[3, 4] = 2 * n
        A[4, 3] = -2 * n
        A[5, 2] = -n * n
        B = np.zeros((6, 3))
        B[3, 0] = B[4, 1] = B[5, 2] = 1.0 / m
        self.linear = (A, B)

    def f(self, x, u):
        a = cw_terms(x[0:3], x[3:6], self.n)
        return arr(x[3], x[4], x[5], a[0] + u[0] / self.m, a[1] + u[1] / self.m, a[2] + u[2] / self.m)

    def fmag(self, x, u):
        a = cw_mags(x[0:3], x[3:6], self.n)
        return np.abs(arr(x[3], x[4], x[5], a[0] + abs(u[0]) / self.m, a[1] + abs(u[1]) / self.m, a[2] + abs(u[2]) / self.m))

    def closed_form(self, x0, u, t):
        """Textbook Clohessy-Wiltshire solution with constant specific thrust."""
        n = self.n
        a = [c / self.m for c in u]
        x, y, z, xd, yd, zd = x0
        s, c = math.sin(n * t), math.cos(n * t)
        X = (4 - 3 * c) * x + s / n * xd + 2 / n * (1 - c) * yd + a[0] / n**2 * (1 - c) + a[1] * (2 * t / n - 2 * s / n**2)
        Y = (
            6 * (s - n * t) * x + y + 2 / n * (c - 1) * xd + (4 * s / n - 3 * t) * yd + a[0] * (2 * s / n**2 - 2 * t / n) + a[1] *
            (4 * (1 - c) / n**2 - 1.5 * t * t)
        )
        Z = c * z + s / n * zd + a[2] * (1 - c) / n**2
        XD = 3 * n * s * x + c * xd + 2 * s * yd + a[0] * s / n + a[1] * (2 / n - 2 * c / n)
        YD = 6 * n * (c - 1) * x - 2 * s * xd + (4 * c - 3) * yd + a[0] * (2 * c / n - 2 / n) + a[1] * (4 * s / n - 3 * t)
        ZD = -n * s * z + c * zd + a[2] * s / n
        return arr(X, Y, Z, XD, YD, ZD)


class Rot2d(Model):
    names = ("x", "y", "theta", "x_dot", "y_dot", "wz")
    ctrl = ("thrust_x", "thrust_y", "moment_z")

    def __init__(
        self, m=12.0, inertia=0.0573, ang_acc_limit=0.017453, ang_vel_limit=0.034907, inertia_wheel=4.1e-5, acc_limit_wheel=181.3,
        vel_limit_wheel=576, n=0.001027
    ):
        super().__init__()
        self.m, self.n, self.I = m, n, inertia
        self.acc = min(ang_acc_limit, inertia_wheel * acc_limit_wheel / inertia)
        self.vel = min(ang_vel_limit, inertia_wheel * vel_limit_wheel / inertia)
        self.lo[5], self.hi[5] = -self.vel, self.vel
        self.dlo[2], self.dhi[2] = -self.vel, self.vel
        self.dlo[5], self.dhi[5] = -self.acc, self.acc
        self.wrap[2] = 0
        self.umin = arr(-1, -1, -self.acc * inertia)
        self.umax = -self.umin

    def f(self, x, u):
        ax, ay, _ = cw_terms((x[0], x[1], 0.0), (x[3], x[4], 0.0), self.n)
        c, s = math.cos(x[2]), math.sin(x[2])
        return arr(x[3], x[4], x[5], ax + (c * u[0] - s * u[1]) / self.m, ay + (s * u[0] + c * u[1]) / self.m, u[2] / self.I)

    def fmag(self, x, u):
        ax, ay, _ = cw_mags((x[0], x[1], 0.0), (x[3], x[4], 0.0), self.n)
        t = (abs(u[0]) + abs(u[1])) / self.m
        return np.abs(arr(x[3], x[4], x[5], ax + t, ay + t, u[2] / self.I))

    def ramps(self, x, u):
        return {5: u[2] / self.I}


def quat_mul(a, b):
    """Hamilton product, scalar last."""
    ax, ay, az, aw = a
    bx, by, bz, bw = b
    return arr(
        aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx, aw * bz + ax * by - ay * bx + az * bw,
        aw * bw - ax * bx - ay * by - az * bz
    )


def quat_matrix(q):
    """Rotation matrix (body to Hill) of a unit quaternion, scalar last."""
    x, y, z, w = q
    return np.array(
        [
            [1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
            [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
            [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)],
        ]
    )


def three(v):
    return np.full(3, float(v)) if isinstance(v, (int, float)) else np.array([float(c) for c in v])


class SixDof(Model):
    names = ("x", "y", "z", "q1", "q2", "q3", "q4", "x_dot", "y_dot", "z_dot", "wx", "wy", "wz")
    ctrl = ("thrust_x", "thrust_y", "thrust_z", "moment_x", "moment_y", "moment_z")

    def __init__(
        self, m=12.0, inertia_matrix=None, ang_acc_limit=0.017453, ang_vel_limit=0.034907, inertia_wheel=4.1e-5, acc_limit_wheel=181.3,
        vel_limit_wheel=576, thrust_control_limit=1.0, body_frame_thrust=True, n=0.001027
    ):
        super().__init__()
        self.m, self.n, self.body = m, n, body_frame_thrust
        self.I = np.full(3, 0.0573) if inertia_matrix is None else np.array([float(inertia_matrix[i, i]) for i in range(3)])
        self.acc = np.minimum(three(ang_acc_limit), inertia_wheel * acc_limit_wheel / self.I)
        self.vel = np.minimum(three(ang_vel_limit), inertia_wheel * vel_limit_wheel / self.I)
        self.lo[10:13], self.hi[10:13] = -self.vel, self.vel
        lim = np.concatenate([np.full(3, float(thrust_control_limit)), self.acc * self.I])
        self.umin, self.umax = -lim, lim

    def f(self, x, u):
        p, q, v, w = x[0:3], x[3:7], x[7:10], x[10:13]
        F = np.asarray(u[0:3], dtype=float)
        if self.body:
            F = quat_matrix(q) @ F
        a = np.array(cw_terms(p, v, self.n)) + F / self.m
        qd = 0.5 * quat_mul(q, (w[0], w[1], w[2], 0.0))
        h = self.I * w
        wd = (np.asarray(u[3:6], dtype=float) - np.cross(w, h)) / self.I
        return np.concatenate([v, qd, a, wd])

    def fmag(self, x, u):
        p, q, v, w = (np.abs(x[0:3]), np.abs(x[3:7]), np.abs(x[7:10]), np.abs(x[10:13]))
        F = np.sum(np.abs(u[0:3])) if self.body else np.max(np.abs(u[0:3]))
        a = np.array(cw_mags(p, v, self.n)) + F / self.m
        qd = np.full(4, 0.5 * np.sum(w) * max(q.max(), 1e-9))
        h = self.I * w
        wd = (np.abs(u[3:6]) + np.array([w[1] * (h[2] + h[1]), w[0] * (h[0] + h[2]), w[0] * (h[0] + h[1])])) / self.I
        return np.concatenate([v, qd, a, wd])

    def slack(self, x, u):
        # rotating with a quaternion that is not of unit norm (Euler steps) is not defined by the documentation
        out = np.zeros(13)
        if self.body:
            q2 = float(np.dot(x[3:7], x[3:7]))
            if abs(q2 - 1) > 1e-9:
                out[7:10] = 2 * max(q2, 1.0) * abs(q2 - 1) * np.sum(np.abs(u[0:3])) / self.m
        return out

    def ramps(self, x, u):
        if abs(self.I - self.I[0]).max() < 1e-15:
            return {10 + i: u[3 + i] / self.I[i] for i in range(3)}
        return None


class Sun(Model):
    names = ("theta", )
    ctrl = ()

    def __init__(self, n=0.001027):
        super().__init__()
        self.n = n

    def f(self, x, u):
        return arr(self.n)


class Integ(Model):
    dim = 1

    def __init__(self, m=1.0, damping=0.0):
        super().__init__()
        self.m, self.c = m, damping
        d = self.dim
        A = np.zeros((2 * d, 2 * d))
        A[:d, d:] = np.eye(d)
        A[d:, d:] = -damping * np.eye(d)
        B = np.zeros((2 * d, d))
        B[d:, :] = np.eye(d) / m
        self.linear = (A, B)

    def f(self, x, u):
        d = self.dim
        v = np.asarray(x[d:], dtype=float)
        return np.concatenate([v, -self.c * v + np.asarray(u, dtype=float) / self.m])

    def fmag(self, x, u):
        d = self.dim
        v = np.abs(x[d:])
        return np.concatenate([v, abs(self.c) * v + np.abs(u) / self.m])

    def closed_form(self, x0, u, t):
        d = self.dim
        p, v = np.array(x0[:d], dtype=float), np.array(x0[d:], dtype=float)
        a = np.asarray(u, dtype=float) / self.m
        c = self.c
        if c == 0:
            return np.concatenate([p + v * t + a * t * t / 2, v + a * t])
        e = math.exp(-c * t)
        vt = a / c + (v - a / c) * e
        pt = p + a / c * t + (v - a / c) * (1 - e) / c
        return np.concatenate([pt, vt])


class Int1(Integ):
    dim = 1
    names = ("x", "x_dot")
    ctrl = ("thrust_x", )


class Int2(Integ):
    dim = 2
    names = ("x", "y", "x_dot", "y_dot")
    ctrl = ("thrust_x", "thrust_y")


class Int3(Integ):
    dim = 3
    names = ("x", "y", "z", "x_dot", "y_dot", "z_dot")
    ctrl = ("thrust_x", "thrust_y", "thrust_z")


class Lin(Model):
    """User-built linear model dx/dt = A x + B u with limits, rate limits and wrap centers."""

    def __init__(self, A, B, lo=-INF, hi=INF, dlo=-INF, dhi=INF, wrap=None):
        A, B = np.asarray(A, dtype=float), np.asarray(B, dtype=float)
        self.names = tuple(f"s{i}" for i in range(A.shape[0]))
        self.ctrl = tuple(f"u{i}" for i in range(B.shape[1]))
        super().__init__()
        self.A, self.B = A, B
        if all(np.isinf(np.atleast_1d(v)).all() for v in (dlo, dhi)):
            self.linear = (A, B)
        n = A.shape[0]
        self.lo, self.hi = np.full(n, lo) if np.isscalar(lo) else np.array(lo, float), np.full(n, hi) if np.isscalar(hi) else np.array(hi, float)
        self.dlo, self.dhi = np.full(n, dlo) if np.isscalar(dlo) else np.array(dlo, float), np.full(n, dhi) if np.isscalar(dhi) else np.array(dhi, float)
        if wrap is not None:
            self.wrap = np.array(wrap, float)

    def f(self, x, u):
        return self.A @ np.asarray(x, float) + self.B @ np.asarray(u, float)

    def fmag(self, x, u):
        return np.abs(self.A) @ np.abs(x) + np.abs(self.B) @ np.abs(u)

    def flow(self, x0, u, T, dense=None):
        if np.isfinite(self.lo).any() or np.isfinite(self.hi).any():
            x0 = np.asarray(x0, float)
            if T == 0:
                return (x0.copy() if dense is None else np.array([x0 for _ in dense])), {"cross": False}
            free = Lin(self.A, self.B, dlo=self.dlo, dhi=self.dhi)
            fine = free.flow(x0, u, T, dense=list(np.linspace(0, T, 201)))[0]
            if fine is None or (fine < self.lo - 1e-9).any() or (fine > self.hi + 1e-9).any():
                return None, {"cross": True}
            return free.flow(x0, u, T, dense)
        return super().flow(x0, u, T, dense)
