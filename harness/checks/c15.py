from ..files import run_c15 as run  # noqa: F401
