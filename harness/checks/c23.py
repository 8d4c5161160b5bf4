from harness.gnn import run  # noqa: F401
