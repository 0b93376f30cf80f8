"""Entities and dynamics of a user's own, written against the abstract base classes: the dynamics records what it is given."""
import numpy as np

from mc import core


def dynamics(k, jumps=None, **kw):
    """A model that is no differential equation: the next state is the state plus the step's duration times the control (or the given jump), the derivative is the control."""
    with core.CodeUnderTest():
        from safe_autonomy_dynamics.base_models import BaseDynamics

        class Recorder(BaseDynamics):
            """Keeps every call's arguments."""

            def _step(self, step_size, state, control):
                self.calls.append((step_size, np.array(state, float), np.array(control, float)))
                move = np.asarray(control if jumps is None else jumps[len(self.calls) - 1], dtype=np.float64)
                return np.asarray(state) + (step_size if jumps is None else 1.0) * move, np.array(control, dtype=np.float64)

        d = Recorder(**kw)
    d.calls = []
    return d


def entity(rotation, dyn, k, default, start=None, **limits):
    """An entity with k channels and a k element state."""
    with core.CodeUnderTest():
        from safe_autonomy_dynamics.base_models import BaseEntity, BaseRotationEntity
        from scipy.spatial.transform import Rotation

        body = {"_build_state": lambda self: np.zeros(k) if start is None else np.array(start, float), "orientation": property(lambda self: Rotation.identity())}
        for n in ("position", "velocity", "angular_velocity"):
            body[n] = property(lambda self: self._state[:3].copy())
        for n in ("x", "y", "z", "q1", "q2", "q3", "q4", "wx", "wy", "wz"):
            body[n] = property(lambda self: float(self._state[0]))
        body["quaternion"] = property(lambda self: np.array([0.0, 0.0, 0.0, 1.0]))
        cls = type("Own", (BaseRotationEntity if rotation else BaseEntity, ), body)
        return cls(dynamics=dyn, control_default=default, name="own", **limits)
