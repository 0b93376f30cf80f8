"""Bounded exhaustive model checking of safe_autonomy_dynamics."""
