from ..files import run_c13 as run  # noqa: F401
