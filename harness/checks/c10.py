from ..geometry import run  # noqa: F401
