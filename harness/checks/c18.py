from harness.spectra import run_c18 as run  # noqa: F401
