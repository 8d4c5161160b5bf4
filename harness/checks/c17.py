from harness.spectra import run_c17 as run  # noqa: F401
