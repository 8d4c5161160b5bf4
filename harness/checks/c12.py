from ..files import run_c12 as run  # noqa: F401
