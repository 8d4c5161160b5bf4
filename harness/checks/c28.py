from harness.workflow import run  # noqa: F401
