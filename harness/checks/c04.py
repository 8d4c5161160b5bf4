from ..modelchecks import run  # noqa: F401
