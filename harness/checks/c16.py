from harness.spectra import run_c16 as run  # noqa: F401
