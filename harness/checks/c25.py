from ..traj import run  # noqa: F401
