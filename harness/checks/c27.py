from harness.frames import run  # noqa: F401
