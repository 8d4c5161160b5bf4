from harness.graph import run  # noqa: F401
