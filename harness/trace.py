"""A generic recorder of traces (calls of the real code and what they returned)."""

from __future__ import annotations

import copy

import numpy as np

from . import drive
from .core import outcome


def snap(x):
    """A deep, comparable copy of an argument."""
    if isinstance(x, np.ndarray):
        return ("nd", str(x.dtype), x.shape, x.tobytes())
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(snap(v) for v in x))
    if isinstance(x, dict):
        return ("dict", tuple(sorted((str(k), snap(v)) for k, v in x.items())))
    try:
        return copy.deepcopy(x)
    except Exception:  # pylint: disable=broad-except
        return None


class Tracer:
    def __init__(self, rng, focus, tmp=None, **head):
        self.rng, self.focus, self.tmp, self.head = rng, focus, tmp, head
        self.ev: list[dict] = []
        self.nfile = 0
        drive.register(self)

    def trace(self) -> dict:
        return {"focus": self.focus, **self.head, "ev": self.ev}

    def add(self, op, **kw):
        self.ev.append({"op": op, **kw})

    def call(self, fn, *args, watch=True, **kwargs):
        """Call repository code; records an event if it modified an argument."""
        plain = [a for a in list(args) + list(kwargs.values()) if isinstance(a, (np.ndarray, list, dict))]
        before = [snap(a) for a in plain]
        out, res = outcome(fn, *args, **kwargs)
        if watch:
            changed = [i for i, (b, a) in enumerate(zip(before, plain)) if b != snap(a)]
            if changed or self.rng.random() < 0.02:
                self.add("args", same=not changed, fn=getattr(fn, "__name__", "?"))
        return out, res
