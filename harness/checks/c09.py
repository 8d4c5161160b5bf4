from ..files import run_c09 as run  # noqa: F401
