"""Running scenario functions in parallel and collecting their traces."""

from __future__ import annotations

import multiprocessing as mp
import signal
import sys
import traceback

import numpy as np

from . import core

CURRENT: list = []  # recorders created by the scenario that is running


LIMIT = 150.0  # seconds per scenario (they take a few)


class Expired(BaseException):
    """A scenario took far too long."""


def _expired(signum, frame):
    raise Expired()


def _one(args):
    import importlib

    module, name, seed, focus, tmp, kw = args
    fn = getattr(importlib.import_module(module), name)
    CURRENT.clear()
    # code that does not come back is interrupted where it is (an observation)
    signal.signal(signal.SIGALRM, _expired)
    signal.setitimer(signal.ITIMER_REAL, LIMIT)
    try:
        return fn(np.random.default_rng(seed), focus, tmp=tmp, **kw), None
    except (Exception, Expired) as exc:  # pylint: disable=broad-except
        frames = traceback.extract_tb(exc.__traceback__)
        in_repo = any(f.filename.startswith(core.REPO + "/ramannoodle") for f in frames)
        text = "".join(traceback.format_exception(exc))
        partial = None
        try:
            partial = CURRENT[-1].trace() if CURRENT else None
        except Exception:  # pylint: disable=broad-except
            pass
        return partial, {"in_repo": in_repo, "text": text, "scenario": name, "seed": seed}
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def generate(ctx, jobs, procs=7):
    """jobs: [(module, function, index, kwargs)] -> traces (parallel, deterministic)."""
    import ramannoodle.pmodel  # noqa: F401  (imported once, before forking)

    args = [
        (m, f, [ctx.seed, i], ctx.pid, ctx.scratch, kw) for m, f, i, kw in jobs
    ]
    with mp.get_context("fork").Pool(procs) as pool:
        results = pool.map(_one, args, chunksize=max(1, len(args) // (procs * 8)))
    traces = []
    for trace, err in results:
        if trace is not None and trace["ev"]:
            traces.append(trace)
        if err is not None:
            ctx.errors.append(err)
    return traces


def scenarios(ctx, module, name, n, start=0, **kw):
    return generate(ctx, [(module, name, start + i, kw) for i in range(n)])


def register(obj):
    CURRENT.append(obj)


if __name__ == "__main__":
    sys.exit(0)
