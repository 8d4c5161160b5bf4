"""Scenarios for periodic geometry (C10)."""

from __future__ import annotations

import numpy as np

from .core import RR, R
from .crystals import CRYSTALS, Crystal
from .trace import Tracer

MATS = [
    [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    [[0, 1, 0], [0, 0, 1], [1, 0, 0]],
    [[-1, 0, 0], [0, 1, 0], [0, 0, -1]],
    [[0, -1, 0], [1, -1, 0], [0, 0, 1]],
    [[1, 1, 0], [0, 1, 0], [0, 0, -1]],
    [[2, 1, 1], [1, 1, 0], [0, 0, 1]],
]
TRANS = [[0, 0, 0], [1, 0, 2], [-3, 7, 4]]


def _coords(rng, shape):
    """Positions/displacements of every kind, including awkward ones."""
    mode = int(rng.integers(6))
    if mode == 0:
        x = rng.uniform(-0.5, 0.5, size=shape)
    elif mode == 1:
        x = rng.uniform(-3, 3, size=shape)
    elif mode == 2:
        x = rng.integers(-16, 17, size=shape) / 8.0
    elif mode == 3:
        x = rng.integers(-3, 4, size=shape) * 0.5 + rng.choice([0, 1e-17, -1e-17, 1e-12, -1e-12, 1e-7], size=shape)
    elif mode == 4:
        x = rng.uniform(-2e3, 2e3, size=shape)
    else:
        x = rng.choice([0.0, 1.0, -1.0, 0.5, -0.5, 1 / 3, 2 / 3, -2 / 3, 0.999999999999, -0.0], size=shape)
    return np.array(x, dtype=float)


def _crowd(t, rng, u, ref):
    """Long trajectories and many atoms: every row as if it were alone."""
    if rng.random() < 0.7:
        big = (int(rng.choice([70, 300, 1030, 2100, 4200])), int(rng.integers(1, 4)), 3)
    else:
        big = (int(rng.choice([70, 300, 1030, 2100, 4200])), 3)
    p, q, d = (rng.integers(-24, 25, size=big) / 16.0 for _ in range(3))
    d[np.abs(d) % 1 == 0.5] += 1 / 16
    for what, f in (
        ("long-wrap", lambda i: u.apply_pbc(p[i])),
        ("long-wrap-displacement", lambda i: u.apply_pbc_displacement(d[i])),
        ("long-displacement", lambda i: u.calc_displacement(p[i], p[i] + d[i])),
        ("long-displace", lambda i: u.displace_positions(p[i], d[i])),
        ("long-cartesian", lambda i: ref.get_cart_displacement(d[i])),
        ("long-fractional", lambda i: ref.get_frac_displacement(d[i])),
    ):
        if what == "long-fractional" and len(big) == 3:
            continue  # single structures only
        every, res = t.call(f, slice(None))
        if res != "ok":
            t.add("same", what=what, outs=[RR(p[:1]), res])
            continue
        alone = np.array([f(slice(i, i + 1))[0] for i in range(big[0])])
        if np.shape(every) != alone.shape:
            t.add("same", what=what, outs=[RR(alone), RR(every)])
            continue
        worst = int(np.argmax(np.abs(every - alone).reshape(big[0], -1).max(axis=1)))
        rows = [worst, 0, big[0] - 1, int(rng.integers(big[0]))]
        t.add("same", what=what, outs=[RR(alone[rows]), RR(every[rows])])


def prof_pbc(rng, focus, tmp=None, steps=14):
    from ramannoodle.structure import utils as u

    t = Tracer(rng, focus)
    name = list(CRYSTALS)[int(rng.integers(len(CRYSTALS)))]
    cry = Crystal(name, rng)
    ref = cry.ref()
    for _ in range(steps):
        n = int(rng.integers(1, 5))
        shape = (n, 3) if rng.random() < 0.6 else (int(rng.integers(0, 4)), n, 3)
        if shape[0] == 0:
            shape = (1, n, 3)
        kind = int(rng.integers(10))
        p, q, d = (_coords(rng, shape) for _ in range(3))
        k = rng.integers(-4, 5, size=shape).astype(float)
        if kind == 0:
            out, res = t.call(u.apply_pbc, p)
            t.add("wrap", x=RR(p), out=RR(out) if res == "ok" else [], res=res)
        elif kind == 1:
            out, res = t.call(u.apply_pbc_displacement, d)
            t.add("wrapd", x=RR(d), out=RR(out) if res == "ok" else [], res=res)
        elif kind == 2:
            if rng.random() < 0.3:
                d = _coords(rng, (3,))
            out, res = t.call(u.displace_positions, p, d)
            t.add("displace", p=RR(p), d=RR(d), out=RR(out) if res == "ok" else [], res=res)
            if d.ndim > 1:
                out, res = t.call(u.calc_displacement, p, out)
                t.add("rtrip", p=RR(p), d=RR(d), out=RR(out) if res == "ok" else [], res=res)
        elif kind == 3:
            if rng.random() < 0.3:
                q = p + k + rng.choice([0.0, 0.5, 0.25, 1e-13])
            out, res = t.call(u.calc_displacement, p, q)
            back, res2 = t.call(u.calc_displacement, q, p)
            res = res if res != "ok" else res2
            ok = res == "ok"
            t.add("calc", p=RR(p), q=RR(q), out=RR(out) if ok else [], back=RR(back) if ok else [], res=res)
        elif kind == 4:
            p = p.reshape(-1, 3)
            M = np.array(MATS[int(rng.integers(len(MATS)))], dtype=float)
            tr = _coords(rng, (3,))
            p = u.apply_pbc(p)
            p = np.clip(p, 0, 1)
            out, res = t.call(u.transform_positions, p, M, tr)
            t.add("transform", p=RR(p), R=RR(M), t=RR(tr), out=RR(out) if res == "ok" else [], res=res)
        elif kind == 5:
            d = _coords(rng, shape)
            out, res = t.call(ref.get_cart_displacement, d)
            t.add("cart", L=RR(cry.L), d=RR(d), out=RR(out) if res == "ok" else [], res=res)
            v = _coords(rng, (3,))
            out, res = t.call(ref.get_cart_direction, v)
            t.add("cart", L=RR(cry.L), d=RR(v), out=RR(np.ravel(out)) if res == "ok" else [], res=res)
        elif kind == 6:
            c = rng.normal(size=(n, 3)) * float(rng.choice([0.01, 1.0, 30.0]))
            out, res = t.call(ref.get_frac_displacement, c)
            t.add("frac", L=RR(cry.L), c=RR(c), out=RR(out) if res == "ok" else [], res=res)
            v = rng.normal(size=3) * float(rng.choice([0.01, 1.0, 30.0]))
            out, res = t.call(ref.get_frac_direction, v)
            t.add("frac", L=RR(cry.L), c=RR(v), out=RR(np.ravel(out)) if res == "ok" else [], res=res)
        elif kind == 7:
            d = rng.uniform(-0.499, 0.499, size=(n, 3))
            out, res = t.call(lambda z: ref.get_frac_displacement(ref.get_cart_displacement(z)), d)
            t.add("invert", d=RR(d), out=RR(out) if res == "ok" else [], res=res)
            v = rng.uniform(-0.499, 0.499, size=3)
            out, res = t.call(lambda z: ref.get_frac_direction(np.ravel(ref.get_cart_direction(z))), v)
            t.add("invert", d=RR(v), out=RR(out) if res == "ok" else [], res=res)
            c = v @ cry.L
            out, res = t.call(lambda z: np.ravel(ref.get_cart_direction(ref.get_frac_direction(z))), c)
            if res == "ok":
                t.add("invert", d=RR(c @ np.linalg.inv(cry.L)), out=RR(out @ np.linalg.inv(cry.L)), res=res)
        elif kind == 9:
            _crowd(t, rng, u, ref)
        else:
            # exactly representable coordinates: lattice shifts change nothing at all
            p, q, d = (rng.integers(-8, 9, size=shape) / 8.0 for _ in range(3))
            for what, f in (
                ("shifted-wrap", lambda z: u.apply_pbc(p + z)),
                ("shifted-wrap-displacement", lambda z: u.apply_pbc_displacement(d + z)),
                ("shifted-displace", lambda z: u.displace_positions(p + z, d)),
                ("shifted-displace", lambda z: u.displace_positions(p, d + z)),
                ("shifted-displacement", lambda z: u.calc_displacement(p + z, q)),
                ("shifted-displacement", lambda z: u.calc_displacement(p, q + z)),
            ):
                outs = [f(np.zeros(shape)), f(k)]
                t.add("same", what=what, outs=[RR(o) for o in outs])
            if p.ndim == 3:  # one structure against many, either way round
                p1 = p[:1] if rng.random() < 0.5 else p[0]
                for z1, z2 in ((p1, q), (q, p1), (p1, q[:1]), (q[:1], p1)):
                    o, res = t.call(u.calc_displacement, z1, z2)
                    full = [x if x.ndim == 3 else x[None] for x in (z1, z2)]
                    k_ = max(len(x) for x in full)
                    if z1.ndim == z2.ndim == 2:
                        continue
                    every = [np.broadcast_to(x, (k_,) + x.shape[1:]) for x in full]
                    each = [RR(u.calc_displacement(every[0][i].copy(), every[1][i].copy())) for i in range(k_)]
                    t.add("same", what="broadcast-displacement", outs=[each, RR(o) if res == "ok" else res])
                for what, f in (
                    ("batched-wrap", lambda i: u.apply_pbc(p[i])),
                    ("batched-displacement", lambda i: u.calc_displacement(p[i], q[i])),
                    ("batched-displace", lambda i: u.displace_positions(p[i], d[i])),
                ):
                    t.add("same", what=what, outs=[RR(f(slice(None))), [RR(f(i)) for i in range(len(p))]])
    return t.trace()


def replay(rng, focus, tmp=None, hist=None, n=4):
    """A PbcMC behaviour executed by the real functions (several atoms at once)."""
    from ramannoodle.structure import utils as u

    t = Tracer(rng, focus)
    x = np.array([hist[0]["x"]], dtype=float) / n
    y = np.zeros((1, 3))
    for h in hist[1:]:
        lift = rng.integers(-2, 3, size=(1, 3)).astype(float)
        if h["act"] == "displace":
            d = np.array([h["x"]], dtype=float) / n
            out, res = t.call(u.displace_positions, y + lift, d)
            t.add("displace", p=RR(y + lift), d=RR(d), out=RR(out), res=res)
            y = out
        elif h["act"] == "swap":
            x, y = y, x
        else:
            k, tr = h["x"]
            M, tr = np.array(MATS[k - 1], dtype=float), np.array(tr, dtype=float) / n
            for which in (0, 1):
                p = (x, y)[which]
                out, res = t.call(u.transform_positions, p, M, tr)
                t.add("transform", p=RR(p), R=RR(M), t=RR(tr), out=RR(out), res=res)
                if which:
                    y = out
                else:
                    x = out
        a, res = t.call(u.calc_displacement, x + lift, y)
        b, res2 = t.call(u.calc_displacement, y, x)
        t.add("calc", p=RR(x), q=RR(y), out=RR(a), back=RR(b), res=res if res != "ok" else res2)
    return t.trace()


def run(ctx):
    import json

    from . import drive

    def spec(nn, maxlen, num):
        path = ctx.scratch / f"pbc{nn}.json"
        disps = [[1, 0, 0], [nn // 2, -nn // 2, 0], [-1, nn + 1, 2], [0, 0, -2 * nn + 1]]
        path.write_text(
            json.dumps({"n": nn, "disps": disps, "mats": MATS, "trans": TRANS, "maxlen": maxlen})
        )
        env = {"MC": str(path)}
        invs = ["TypeOK", "ShiftInvariant", "MeasuresDisplacement", "Antisymmetric", "Reaches", "Bounds", "Equivariant"]
        ctx.model_check(
            "PbcMC",
            "INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n"
            + "".join(f"INVARIANT {i}\n" for i in invs),
            name=f"PbcMC(n={nn})",
            env=env,
        )
        return ctx.behaviours(
            "PbcMC",
            "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bounded\nINVARIANT PrintHist\n",
            num=num,
            depth=9,
            env=env | {"MC": str(_longer(path, 7))},
        )

    def _longer(path, maxlen):
        d = json.loads(path.read_text())
        d["maxlen"] = maxlen
        p = path.with_name("l" + path.name)
        p.write_text(json.dumps(d))
        return p

    traces = []
    for nn, maxlen in ctx.pick([(4, 2)], [(4, 4), (5, 2), (6, 2), (8, 2)]):
        hists = spec(nn, maxlen, ctx.pick(60, 400))
        seen = {json.dumps(h[:-1]): h for h in hists}
        jobs = [("harness.geometry", "replay", i, {"hist": h, "n": nn}) for i, h in enumerate(list(seen.values())[:600])]
        traces += drive.generate(ctx, jobs)
    ctx.validate("PbcTrace", traces, "spec behaviours replayed")
    n = ctx.pick(500, 8000)
    ctx.validate("PbcTrace", drive.scenarios(ctx, "harness.geometry", "prof_pbc", n), "seeded geometry calls", chunk=1000)
