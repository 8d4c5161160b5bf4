from harness.training import run  # noqa: F401
