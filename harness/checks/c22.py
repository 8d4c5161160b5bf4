from harness.datasets import run  # noqa: F401
