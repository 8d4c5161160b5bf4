from harness.spectra import run_c19 as run  # noqa: F401
