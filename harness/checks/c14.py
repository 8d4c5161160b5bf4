from ..files import run_c14 as run  # noqa: F401
