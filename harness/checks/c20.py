from harness.own import run  # noqa: F401
