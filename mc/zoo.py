"""The entities under test: how to build each kind in each configuration, its reference model, its states and its accessors."""
import itertools
import math
import warnings

import numpy as np

from mc import ref

PI = math.pi


def _mods():
    import safe_autonomy_dynamics.base_models as bm
    import safe_autonomy_dynamics.cwh as cwh
    import safe_autonomy_dynamics.cwh.rotational_model as rot
    import safe_autonomy_dynamics.cwh.sixdof_model as six
    import safe_autonomy_dynamics.cwh.sun_model as sun
    import safe_autonomy_dynamics.dubins as dub
    import safe_autonomy_dynamics.integrators as integ
    from safe_autonomy_dynamics.cwh import point_model as pt

    return bm, pt, rot, six, sun, dub, integ, cwh


class Kind:

    def __init__(self, key, cls, model, configs, ctor_names=None, jax=False, samples=True):
        self.key, self._cls, self.model, self.configs = key, cls, model, configs
        self.ctor_names = ctor_names or model.names
        self.names = model.names
        self.ctrl = model.ctrl
        self.jax = jax
        self.samples = samples

    @property
    def cls(self):
        return self._cls()

    def ref(self, cfg):
        return self.model(**self.configs[cfg][1])

    def make(self, cfg, state=None, method="RK45", name="e", **over):
        kw = dict(self.configs[cfg][0]())
        kw.update(over)
        e = self.cls(name=name, integration_method=method, **kw)
        if state is not None:
            e.state = np.array(state, dtype=float)
        return e

    def init_kwargs(self, values):
        return dict(zip(self.ctor_names, [float(v) for v in values]))


def _k(**kw):
    """Config whose constructor keywords and reference keywords coincide."""
    return (lambda: dict(kw), dict(kw))


def _six(I=None, refI=None, **kw):
    refkw = dict(kw)
    ctor = dict(kw)
    if I is not None:
        refkw["inertia_matrix"] = np.array(I, dtype=float)

    def make():
        c = {k: (list(v) if isinstance(v, list) else v) for k, v in ctor.items()}
        if I is not None:
            c["inertia_matrix"] = np.array(I, dtype=float)
        for k in ("ang_vel_limit", "ang_acc_limit"):
            if k in c and isinstance(c[k], tuple):
                c[k] = np.array(c[k], dtype=float)
        return c

    return (make, refkw)


def kinds():
    return {
        "dubins2d": Kind(
            "dubins2d", lambda: _mods()[5].Dubins2dAircraft, ref.Dubins2d, {
                "default": _k(),
                "custom": _k(
                    v_min=10.5, v_max=1000.0, heading_rate_control_min=-0.5, heading_rate_control_max=0.25,
                    acceleration_control_min=-8.0, acceleration_control_max=16.0
                ),
                "agile": _k(
                    v_min=-50.0, v_max=50.0, heading_rate_control_min=-4.0, heading_rate_control_max=3.0,
                    acceleration_control_min=-2.0, acceleration_control_max=1.0
                ),
            }
        ),
        "dubins3d": Kind(
            "dubins3d", lambda: _mods()[5].Dubins3dAircraft, ref.Dubins3d, {
                "default": _k(),
                "custom": _k(
                    v_min=50.0, v_max=800.0, gamma_min=-0.75, gamma_max=0.5, roll_min=-0.5, roll_max=1.25,
                    gamma_rate_control_min=-0.25, gamma_rate_control_max=0.125, roll_rate_control_min=-0.5, roll_rate_control_max=1.0,
                    acceleration_control_min=-20.0, acceleration_control_max=10.0
                ),
                "loops": _k(
                    v_min=100.0, v_max=300.0, gamma_min=-10.0, gamma_max=12.0, roll_min=-0.25, roll_max=0.25,
                    gamma_rate_control_min=-1.0, gamma_rate_control_max=2.0
                ),
            }
        ),
        "cwh": Kind(
            "cwh", lambda: _mods()[1].CWHSpacecraft, ref.CWH, {
                "default": _k(),
                "light": _k(m=3.0, n=0.01),
                "heavy": _k(m=1000.0, n=0.0005),
            }
        ),
        "rot2d": Kind(
            "rot2d", lambda: _mods()[2].CWHRotation2dSpacecraft, ref.Rot2d, {
                "default": _k(),
                "agile": _k(
                    m=5.0, inertia=0.2, ang_acc_limit=0.5, ang_vel_limit=1.0, inertia_wheel=0.01, acc_limit_wheel=100.0,
                    vel_limit_wheel=50.0, n=0.003
                ),
                "wheel": _k(
                    m=40.0, inertia=0.05, ang_acc_limit=1.0, ang_vel_limit=2.0, inertia_wheel=0.001, acc_limit_wheel=20.0,
                    vel_limit_wheel=30.0, n=0.01
                ),
            }, jax=True
        ),
        "sixdof": Kind(
            "sixdof", lambda: _mods()[3].SixDOFSpacecraft, ref.SixDof, {
                "default": _k(),
                "hill": _k(body_frame_thrust=False, m=4.0, n=0.005, thrust_control_limit=2.5),
                "tri": _six(
                    I=[[0.05, 0, 0], [0, 0.1, 0], [0, 0, 0.2]], m=5.0, ang_acc_limit=[0.5, 0.25, 0.125], ang_vel_limit=(1.0, 2.0, 0.5),
                    inertia_wheel=0.01, acc_limit_wheel=100.0, vel_limit_wheel=50.0, n=0.003
                ),
                "wheel": _six(
                    I=[[0.05, 0, 0], [0, 0.1, 0], [0, 0, 0.2]], m=20.0, ang_acc_limit=3, ang_vel_limit=[0.1, 5.0, 5.0],
                    inertia_wheel=0.001, acc_limit_wheel=20.0, vel_limit_wheel=30.0, thrust_control_limit=0.5
                ),
                "cube": _six(
                    I=[[0.1, 0, 0], [0, 0.1, 0], [0, 0, 0.1]], m=8.0, ang_acc_limit=(0.5, 0.25, 0.125), ang_vel_limit=2.0,
                    inertia_wheel=0.01, acc_limit_wheel=100.0, vel_limit_wheel=50.0, n=0.002
                ),
            }
        ),
        "sun": Kind(
            "sun", lambda: _mods()[4].SunEntity, ref.Sun, {
                "default": _k(),
                "fast": _k(n=0.25),
                "retro": _k(n=-0.01),
            }, jax=True, samples=False
        ),
        "int1d": Kind("int1d", lambda: _mods()[6].Integrator1d, ref.Int1, {
            "default": _k(),
            "damped": _k(m=4.0, damping=0.5)
        }, ctor_names=("x", "xdot")),
        "int2d": Kind(
            "int2d", lambda: _mods()[6].Integrator2d, ref.Int2, {
                "default": _k(),
                "damped": _k(m=4.0, damping=0.5)
            }, ctor_names=("x", "y", "xdot", "ydot")
        ),
        "int3d": Kind(
            "int3d", lambda: _mods()[6].Integrator3d, ref.Int3, {
                "default": _k(),
                "damped": _k(m=4.0, damping=0.5)
            }, ctor_names=("x", "y", "z", "xdot", "ydot", "zdot")
        ),
    }


KINDS = kinds()


# --- states ------------------------------------------------------------------------------------------------------------
def unit(q):
    q = np.array(q, dtype=float)
    return q / np.linalg.norm(q)


QUATS = [
    [0, 0, 0, 1.0], unit([1, 0, 0, 1]), unit([0, 1, 0, 1]), unit([0, 0, 1, 1]), unit([1, 1, 1, 1]), unit([1, -1, 1, -1]), [1.0, 0, 0, 0],
    [0, 1.0, 0, 0], [0, 0, 1.0, 0], unit([0.3, -0.2, 0.5, 0.7]), unit([-0.7, 0.1, 0.4, -0.2]), [0, 0, 0, -1.0],
]


def base_states(key, cfg):
    """A few generic states strictly inside the limits, generic in every component (no accidental zeros or symmetries), plus the simple one."""
    m = KINDS[key].ref(cfg)
    if key == "dubins2d":
        v = (m.lo[3] + m.hi[3]) / 2
        return [[0, 0, 0, v + 0.125], [100.5, -250.25, 2.5, v * 0.75 + 5], [-1e4, 3e4, -3.0, m.hi[3] - 1]]
    if key == "dubins3d":
        v = (m.lo[6] + m.hi[6]) / 2
        g, r = m.hi[4], m.hi[5]
        return [
            [0, 0, 0, 0, 0, 0, v], [100.5, -250.25, -900.0, 2.5, 0.4 * g, -0.5 * abs(m.lo[5]), v * 0.8],
            [-1e4, 3e4, 5e3, -3.0, -0.3 * abs(m.lo[4]), 0.7 * r, m.hi[6] - 5]
        ]
    if key == "cwh":
        return [[0, 0, 0, 0, 0, 0], [100.0, -50.0, 25.0, 0.5, -1.0, 0.25], [-1500.0, 900.0, 3000.0, -2.0, 5.0, 1.0]]
    if key == "rot2d":
        w = m.vel
        return [[0, 0, 0, 0, 0, 0], [100.0, -50.0, 0.75, 0.5, -1.0, 0.25 * w], [-1500.0, 900.0, -3.0, -2.0, 5.0, -0.5 * w]]
    if key == "sixdof":
        w = m.vel
        return [
            [0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 0, 0],
            [100.0, -50.0, 25.0, *unit([0.3, -0.2, 0.5, 0.7]), 0.5, -1.0, 0.25, 0.25 * w[0], -0.5 * w[1], 0.125 * w[2]],
            [-1500.0, 900.0, 3000.0, *unit([-0.7, 0.1, 0.4, -0.2]), -2.0, 5.0, 1.0, -0.5 * w[0], 0.25 * w[1], 0.375 * w[2]],
        ]
    if key == "sun":
        return [[0.0], [1.5], [-4.0]]
    d = m.dim
    return [[0.0] * (2 * d), [10.0, -20.0, 5.0][:d] + [1.0, -0.5, 0.25][:d], [-300.0, 400.0, 1000.0][:d] + [-2.0, 7.0, -3.5][:d]]


def odd_states(key, cfg):
    """States off the beaten track: at and outside each limit, angles several turns away, a quaternion that is not of unit length."""
    m = KINDS[key].ref(cfg)
    base = np.array(base_states(key, cfg)[1], float)
    out = []
    for i, n in enumerate(m.names):
        for v in (m.lo[i], m.hi[i], m.lo[i] - 0.3 * (1 + abs(m.lo[i])), m.hi[i] + 0.3 * (1 + abs(m.hi[i]))):
            if np.isfinite(v):
                s = base.copy()
                s[i] = v
                out.append(s)
    for i in np.flatnonzero(~np.isnan(np.atleast_1d(m.wrap))):
        for turns in (1, -3):
            s = base.copy()
            s[i] += turns * 2 * PI
            out.append(s)
    if key == "sixdof":
        s = base.copy()
        s[3:7] *= 1.7
        out.append(s)
    out.append(base * 0)
    if key == "sixdof":
        out[-1][6] = 1.0
    if key.startswith("dubins"):
        out[-1][-1] = base[-1]  # no heading rate is defined at speed zero
    return out


def mid_controls(key, cfg):
    """Controls strictly inside the limits: neutral, generic, and generic with the opposite signs."""
    m = KINDS[key].ref(cfg)
    k = len(m.ctrl)
    fr = np.array([0.5, -0.25, 0.375, -0.625, 0.125, 0.75][:k])
    pos = np.where(fr >= 0, fr * m.umax, -fr * m.umin)
    neg = np.where(fr >= 0, fr * m.umin, -fr * m.umax)
    return [np.zeros(k), pos, neg] if k else [np.zeros(0)]


def corner_controls(key, cfg):
    """All extreme commands (each channel at its minimum, neutral, maximum) for up to three channels, else one-at-a-time plus all-min / all-max."""
    m = KINDS[key].ref(cfg)
    k = len(m.ctrl)
    if k == 0:
        return [np.zeros(0)]
    if k <= 3:
        return [np.array(c) for c in itertools.product(*[(m.umin[i], 0.0, m.umax[i]) for i in range(k)])]
    out = [np.zeros(k), m.umin.copy(), m.umax.copy()]
    for i in range(k):
        for v in (m.umin[i], m.umax[i]):
            u = np.zeros(k)
            u[i] = v
            out.append(u)
    return out


def variants(key):
    """Constructor keywords that change exactly one parameter (name -> value), plus none."""
    one = {
        "dubins2d": dict(v_min=250.0, v_max=350.0, heading_rate_control_min=-0.05, heading_rate_control_max=0.07, acceleration_control_min=-3.0, acceleration_control_max=5.0),
        "dubins3d": dict(
            v_min=250.0, v_max=350.0, gamma_min=-0.1, gamma_max=0.08, roll_min=-0.2, roll_max=0.3, gamma_rate_control_min=-0.05, gamma_rate_control_max=0.07,
            roll_rate_control_min=-0.06, roll_rate_control_max=0.03, acceleration_control_min=-3.0, acceleration_control_max=5.0
        ),
        "cwh": dict(m=7.0, n=0.02),
        "rot2d": dict(m=7.0, inertia=0.09, ang_acc_limit=0.001, ang_vel_limit=0.01, inertia_wheel=1e-5, acc_limit_wheel=10.0, vel_limit_wheel=60.0, n=0.02),
        "sixdof": dict(
            m=7.0, inertia_matrix=((0.04, 0, 0), (0, 0.07, 0), (0, 0, 0.09)), ang_acc_limit=0.001, ang_vel_limit=0.01, inertia_wheel=1e-5, acc_limit_wheel=10.0,
            vel_limit_wheel=60.0, n=0.02, body_frame_thrust=False, thrust_control_limit=0.2
        ),
        "sun": dict(n=0.02),
    }.get(key, dict(m=7.0, damping=0.9))
    out = [{}]
    for k, v in one.items():
        out.append({k: np.array(v, float) if isinstance(v, tuple) else v})
    return out


def close(a, b, rtol, atol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= atol + rtol * np.abs(b)))


def same(a, b):
    """Equal up to double rounding noise (used where both sides go through the code under test)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    with np.errstate(invalid="ignore"):
        return bool(np.all((a == b) | (np.abs(a - b) <= 1e-12 * (1 + np.abs(b))) | (np.isnan(a) & np.isnan(b))))


def identical(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b))))


def for_user(log):
    """Of (category, message) pairs, those for the user: without what numpy, scipy and jax say about their own arithmetic."""
    other = (DeprecationWarning, FutureWarning, RuntimeWarning, PendingDeprecationWarning, np.VisibleDeprecationWarning, np.ComplexWarning)
    return [w for w in log if not issubclass(w[0], other) and not any(k in w[1] for k in ("dtype", "jax", "Gimbal"))]


class quiet:
    """Collect warnings; .clip tells whether a control-limit warning was issued."""

    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.log = self.cm.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.cm.__exit__(*a)
        return False

    @property
    def user(self):
        """Warnings for the user, without what numpy, scipy and jax say about their own arithmetic."""
        return for_user([(w.category, str(w.message)) for w in self.log])


def step(e, T, action=None):
    """Step with warnings swallowed."""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        e.step(T, action)
    return e
