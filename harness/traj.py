"""Scenarios for trajectories (C25)."""

from __future__ import annotations

import itertools
from fractions import Fraction

import numpy as np

from . import drive
from .core import R, RR
from .geometry import _coords
from .trace import Tracer


class Fake(Tracer):
    def __init__(self, rng, focus, tmp=None):
        super().__init__(rng, focus, tmp)
        self.objs = []

    def new(self, ts, timestep, given=None, bad="", make=None):
        from ramannoodle.dynamics import Trajectory

        given_ts = RR(ts) if not bad else []
        out, res = self.call(make or Trajectory, ts, timestep) if make is None else self.call(make)
        ok = res == "ok"
        if ok:
            conf, step = RR(out.positions_ts), R(out.timestep)
        else:
            conf, step = [], []
        self.add(
            "new", bad=bad, ts=given_ts, given=R(timestep if given is None else given) if not bad else [],
            conf=conf, timestep=step, res=res,
        )
        self.objs.append(out if ok else None)
        return len(self.objs) - 1

    def observe(self, i):
        o = self.objs[i]
        self.add("observe", t=i + 1, conf=RR(o.positions_ts), timestep=R(o.timestep))

    def use(self, i, what, *args):
        o = self.objs[i]
        t = i + 1
        if what == "len":
            out, res = self.call(len, o)
            self.add("len", t=t, out=out if res == "ok" else -1, res=res)
        elif what == "index":
            k = args[0]
            out, res = self.call(lambda: o[k])
            self.add("index", t=t, i=int(k), out=RR(out) if res == "ok" else [], res=res)
        elif what == "slice":
            a, b, c = args
            out, res = self.call(lambda: o[slice(a, b, c)])
            opt = lambda v: [] if v is None else [int(v)]  # noqa: E731
            self.add("slice", t=t, a=opt(a), b=opt(b), c=opt(c), out=RR(out) if res == "ok" else ["?"], res=res)
        elif what == "iter":
            out, res = self.call(lambda: list(iter(o)))
            self.add("iter", t=t, out=[RR(x) for x in out] if res == "ok" else [], res=res)
        elif what == "reversed":
            out, res = self.call(lambda: list(reversed(o)))
            self.add("reversed", t=t, out=[RR(x) for x in out] if res == "ok" else [], res=res)
        elif what == "setattr":
            def f():
                if args[0] == "item":
                    o[0] = np.zeros((1, 3))
                elif args[0] == "del":
                    del o[0]
                elif args[0] == "timestep":
                    o.timestep = 3.0
                else:
                    o.positions_ts = np.zeros((1, 1, 3))
            out, res = self.call(f)
            self.add("setattr", what=args[0], res=res)
            self.observe(i)
        if res == "ok" and isinstance(out, np.ndarray) and self.rng.random() < 0.5:
            out += 0.125  # vandalise what was returned
            self.observe(i)


def prof_traj(rng, focus, tmp=None, steps=10):
    from ramannoodle.dynamics import Trajectory

    t = Fake(rng, focus, tmp)
    S, N = int(rng.choice([0, 1, 2, 3, 5, 9])), int(rng.integers(1, 4))
    ts = _coords(rng, (S, N, 3))
    step = rng.choice([0.5, 1.0, 1e-6, 2.5, 1e4])
    kind = int(rng.integers(5))
    given = {0: float(step), 1: np.float64(step), 2: np.float32(0.5), 3: 2, 4: Fraction(1, 2)}[kind]
    i = t.new(ts, given, given=float(given))
    # rejected constructions
    bad = [
        ("timestep", ts, 0.0), ("timestep", ts, -0.5), ("timestep", ts, -1), ("timestep", ts, float("-inf")),
        ("timestep", ts, None), ("timestep", ts, [0.5]), ("timestep", ts, "fast"), ("timestep", ts, {}),
        ("shape", ts[..., :2], 0.5), ("shape", ts[..., None], 0.5),
        ("shape", ts.reshape(-1, 3), 0.5), ("shape", ts.ravel(), 0.5), ("shape", ts[None], 0.5),
        ("type", ts.tolist(), 0.5), ("type", None, 0.5), ("type", 7, 0.5), ("timestep", ts, 0),
    ]
    for j in rng.permutation(len(bad))[:3]:
        t.new(bad[j][1], bad[j][2], bad=bad[j][0])
    if t.objs[i] is None:
        return t.trace()
    # the caller's array is not the trajectory's: changing it has no effect
    ts[...] = 0.25
    t.observe(i)
    for _ in range(steps):
        what = ["len", "index", "slice", "slice", "iter", "reversed", "setattr"][int(rng.integers(7))]
        if what == "index":
            k = int(rng.integers(-S - 2, S + 2))
            t.use(i, what, [k, np.int64(k)][int(rng.integers(2))])
        elif what == "slice":
            pick = lambda: None if rng.random() < 0.3 else int(rng.integers(-S - 3, S + 4))  # noqa: E731
            c = None if rng.random() < 0.3 else int(rng.choice([-3, -2, -1, 1, 2, 3, 7, -7]))
            t.use(i, what, pick(), pick(), c)
        elif what == "setattr":
            t.use(i, what, str(rng.choice(["item", "del", "timestep", "positions_ts"])))
        else:
            t.use(i, what)
    t.observe(i)
    return t.trace()


def prof_slices(rng, focus, tmp=None, S=0, seqs=()):
    """Every slice of the exhaustive model for one length."""
    t = Fake(rng, focus, tmp)
    ts = rng.random((S, 1, 3))
    i = t.new(ts, 1.0)
    for k in range(-S - 2, S + 2):
        t.use(i, "index", k)
    for a, b, c in seqs:
        t.use(i, "slice", a, b, c)
    for what in ("len", "iter", "reversed"):
        t.use(i, what)
    return t.trace()


def prof_pymatgen(rng, focus, tmp=None):
    """pymatgen trajectories stored as positions and as displacements."""
    from pymatgen.core import Lattice
    from pymatgen.core.trajectory import Trajectory as PT

    from ramannoodle.io import pymatgen as rp

    t = Fake(rng, focus, tmp)
    S, N = int(rng.integers(1, 6)), int(rng.integers(1, 4))
    L = np.diag(rng.uniform(3, 6, 3)) + rng.normal(size=(3, 3)) * 0.3
    mode = int(rng.integers(3))
    if mode == 0:
        coords = rng.uniform(-0.7, 1.7, size=(S, N, 3))
    else:
        coords = rng.uniform(0, 1, size=(N, 3)) + np.cumsum(rng.normal(size=(S, N, 3)) * 0.1, axis=0)
    species = ["Ti", "O", "O"][:N]
    if mode == 2:
        # displacements given directly by the user
        disps = rng.normal(size=(S, N, 3)) * 0.2
        disps[0] = 0
        base = rng.uniform(0, 1, size=(N, 3))
        pt = PT(species=species, coords=disps.copy(), lattice=Lattice(L), base_positions=base,
                coords_are_displacement=True)
        expected = base + np.cumsum(disps, axis=0)
    else:
        pt = PT(species=species, coords=coords.copy(), lattice=Lattice(L))
        expected = coords
        if rng.random() < 0.5:
            pt.to_displacements()
    before = (np.array(pt.coords), pt.coords_are_displacement)
    i = t.new(expected, 0.5, make=lambda: rp.construct_trajectory(pt, 0.5))
    t.add("args", same=bool(np.array_equal(before[0], pt.coords)) and before[1] == pt.coords_are_displacement, fn="construct_trajectory")
    if t.objs[i] is not None:
        j = t.new(expected, 0.5, make=lambda: rp.construct_trajectory(pt, 0.5))
        t.observe(i)
        pt.to_displacements() if rng.random() < 0.5 else pt.to_positions()
        t.observe(i)
        for w in ("len", "iter", "reversed"):
            t.use(j, w)
    lats = [L + 0.05 * k for k in range(S)]
    if S > 1:
        pt2 = PT(species=species, coords=rng.random((S, N, 3)), lattice=np.array(lats), constant_lattice=False)
        t.new(None, 0.5, bad="lattice", make=lambda: rp.construct_trajectory(pt2, 0.5))
    t.new(None, 0.5, bad="type", make=lambda: rp.construct_trajectory(expected, 0.5))
    t.new(None, 0.5, bad="timestep", make=lambda: rp.construct_trajectory(pt, -0.5))
    return t.trace()


def run(ctx):
    N, M, K = ctx.pick((4, 5, 3), (7, 9, 8))
    ctx.model_check(
        "TrajMC",
        f"CONSTANTS N = {N} M = {M} K = {K}\nINIT Init\nNEXT Next\n"
        + "".join(f"INVARIANT {i}\n" for i in ("InRange", "Arithmetic", "Identity", "Reversal", "Split", "Complete")),
    )
    jobs = []
    for S in range(N + 1):
        opts = [None] + list(range(-S - 1, S + 2))
        seqs = list(itertools.product(opts, opts, [None] + [k for k in range(-K, K + 1) if k]))
        for n, part in enumerate(range(0, len(seqs), 150)):
            jobs.append(("harness.traj", "prof_slices", 1000 * S + n, {"S": S, "seqs": seqs[part : part + 150]}))
    ctx.validate("TrajTrace", drive.generate(ctx, jobs), "every slice in the bounds")
    ctx.validate("TrajTrace", drive.scenarios(ctx, "harness.traj", "prof_traj", ctx.pick(400, 6000)), "seeded trajectories", chunk=1000)
    ctx.validate("TrajTrace", drive.scenarios(ctx, "harness.traj", "prof_pymatgen", ctx.pick(100, 1500)), "pymatgen trajectories")
