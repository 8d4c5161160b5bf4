"""Scenarios for polarizability datasets (C21, C22)."""

from __future__ import annotations

import os

import numpy as np

from . import drive, vaspgen
from .core import R, RR
from .crystals import CRYSTALS, Crystal
from .trace import Tracer

S = "harness.datasets"
SOURCES = ("arrays", "pymatgen", "outcar", "vasprun.xml")


class Sets(Tracer):
    """Datasets under observation."""

    def __init__(self, rng, focus, tmp=None):
        super().__init__(rng, focus, tmp)
        self.sets: list = []

    # ------------------------------------------------------------- building
    def arg(self, paths):
        """A list of paths, or a lone one, as str or Path."""
        k = int(self.rng.integers(3))
        paths = [str(p) if k == 0 or (k == 1 and self.rng.random() < 0.5) else p for p in paths]
        return paths[0] if len(paths) == 1 and self.rng.random() < 0.5 else paths

    def build(self, ins, source, raw32=None):
        """ins: [(L, sp, P, pol)] as given to the library."""
        import torch

        from ramannoodle.dataset.torch import PolarizabilityDataset
        from ramannoodle.io import generic
        from ramannoodle.io import pymatgen as rn_pymatgen
        from ramannoodle.io.vasp import outcar, vasprun

        rng = self.rng
        raw32 = source == "arrays" and rng.random() < 0.2 if raw32 is None else raw32
        if source == "arrays":
            L, sp = ins[0][0], ins[0][1]
            P, pol = np.array([x[2] for x in ins]), np.array([x[3] for x in ins])
            if raw32:
                pol = pol.astype(np.float32)
            out, res = self.call(PolarizabilityDataset, L, list(sp), P, pol)
            ins = [(L, sp, P[i], pol[i]) for i in range(len(ins))]
        elif source == "pymatgen":
            import pymatgen.core

            structs = [
                pymatgen.core.Structure(pymatgen.core.Lattice(L), [vaspgen.SYMBOL[z] for z in sp], P) for L, sp, P, _ in ins
            ]
            out, res = self.call(rn_pymatgen.construct_polarizability_dataset, structs, np.array([x[3] for x in ins]))
        else:
            paths, read = [], []
            for k, (L, sp, P, pol) in enumerate(ins):
                twin = [j for j in range(k) if ins[j] is ins[k]]
                if twin:  # the same file listed again
                    paths.append(paths[twin[0]])
                    read.append(read[twin[0]])
                    continue
                L = vaspgen.printed(L, 13)
                text, p, a = vaspgen.structure_file(source, rng, L, sp, P, pol)
                path = self.tmp / f"ds_{os.getpid()}_{id(self)}_{self.nfile}"
                self.nfile += 1
                path.write_text(text)
                paths.append(path)
                read.append((L, sp, p, a))
            ins = read
            mod = {"outcar": outcar, "vasprun.xml": vasprun}[source]
            if rng.random() < 0.5:
                out, res = self.call(generic.read_polarizability_dataset, self.arg(paths), source)
            else:
                out, res = self.call(mod.read_polarizability_dataset, self.arg(paths))
            for p in set(paths):
                p.unlink()
        self.add(
            "build", source=source, res=res, raw32=raw32, dtype=str(torch.get_default_dtype()).removeprefix("torch."),
            periodic=source != "arrays", printed=source in ("outcar", "vasprun.xml"),
            ins=[{"L": RR(L), "sp": [int(z) for z in sp], "P": RR(P), "pol": RR(pol)} for L, sp, P, pol in ins],
        )
        if res == "ok":
            self.sets.append(out)
            self.look(len(self.sets) - 1)
            return len(self.sets) - 1
        return None

    def malformed(self):
        from ramannoodle.dataset.torch import PolarizabilityDataset

        rng = self.rng
        P, pol, L, sp = rng.random((3, 2, 3)), rng.normal(size=(3, 3, 3)), np.eye(3), [22, 8]
        bad = [
            ("lattice", (L[:2], sp, P, pol)), ("lattice", (L.tolist(), sp, P, pol)), ("lattice", (L[None], sp, P, pol)),
            ("numbers", (L, [22], P, pol)), ("numbers", (L, np.array(sp), P, pol)), ("numbers", (L, (22, 8), P, pol)),
            ("numbers", (L, [22, 8, 8], P, pol)), ("positions", (L, sp, P[:2], pol)), ("positions", (L, sp, P[..., :2], pol)),
            ("positions", (L, sp, P[0], pol)), ("positions", (L, sp, P.tolist(), pol)),
            ("polarizabilities", (L, sp, P, pol[:2])), ("polarizabilities", (L, sp, P, pol[..., :2])),
            ("polarizabilities", (L, sp, P, pol.tolist())), ("polarizabilities", (L, sp, P, pol.reshape(3, 9))),
        ]
        name, args = bad[int(rng.integers(len(bad)))]
        _, res = self.call(PolarizabilityDataset, *args)
        self.add("build-bad", bad=name, res=res)

    # ------------------------------------------------------------- reading
    def look(self, d):
        ds = self.sets[d]

        def f():
            sc = ds.scaled_polarizabilities
            return {
                "len": len(ds), "num_samples": int(ds.num_samples), "num_atoms": int(ds.num_atoms),
                "sp": [int(z) for z in ds.atomic_numbers], "P": RR(ds.positions), "pol": RR(ds.polarizabilities),
                "mean": RR(ds.mean_polarizability), "std": RR(ds.stddev_polarizability), "scaled": RR(sc),
                "scaled_dtype": str(sc.dtype), "P_dtype": str(ds.positions.dtype),
            }

        out, res = self.call(f)
        self.add("look", d=d + 1, res=res, **(out if res == "ok" else {}))

    def item(self, d, i):
        out, res = self.call(lambda: self.sets[d][i])
        kw = {}
        if res == "ok":
            kw = {"L": RR(out[0].numpy()), "sp": [int(z) for z in out[1]], "P": RR(out[2].numpy()), "scaled": RR(out[3].numpy())}
        self.add("item", d=d + 1, i=int(i), res=res, **kw)

    def loader(self, d, batch):
        """All items in the order a data loader hands them out."""
        from torch.utils.data import DataLoader

        k = 0
        for lat, num, pos, pol in DataLoader(self.sets[d], batch_size=batch, shuffle=False):
            for j in range(len(lat)):
                self.add(
                    "item", d=d + 1, i=k, res="ok", L=RR(lat[j].numpy()), sp=[int(z) for z in num[j]], P=RR(pos[j].numpy()),
                    scaled=RR(pol[j].numpy()),
                )
                k += 1

    # ------------------------------------------------------------- scaling
    def scale(self, d, mean, std):
        _, res = self.call(self.sets[d].scale_polarizabilities, mean, std)
        self.add("scale", d=d + 1, res=res, mean=RR(mean), std=RR(std))
        self.look(d)

    def scale_bad(self, d):
        rng = self.rng
        m, s = rng.normal(size=(3, 3)), rng.uniform(1, 2, size=(3, 3))
        bad = [
            ("mean", (m[:2], s)), ("stddev", (m, s[:2])), ("mean", (m.tolist(), s)), ("stddev", (m, 2.0)), ("mean", (m[None], s)),
            ("stddev", (m, s.ravel())), ("mean", (None, s)), ("stddev", (m, [s])),
        ]
        name, args = bad[int(rng.integers(len(bad)))]
        _, res = self.call(self.sets[d].scale_polarizabilities, *args)
        self.add("scale-bad", d=d + 1, bad=name, res=res)
        self.look(d)

    def new_scale(self, d):
        rng = self.rng
        k = int(rng.integers(5))
        if k == 0 and len(self.sets) > 1:
            o = self.sets[int(rng.integers(len(self.sets)))]
            if np.all(np.abs(o.stddev_polarizability) > 1e-12):
                return o.mean_polarizability, o.stddev_polarizability
        mean, std = rng.normal(size=(3, 3)) * 3, rng.uniform(0.1, 4, size=(3, 3))
        if k == 1:
            return np.zeros((3, 3)), np.ones((3, 3))
        if k == 2:
            return mean, std * 10.0 ** rng.integers(-4, 4)
        if k == 3:  # strided views
            return np.repeat(mean, 2, axis=0)[::2].T, np.asfortranarray(std)
        return mean, std * rng.choice([-1, 1], size=(3, 3))

    # ------------------------------------------------------------- conversions
    def convert(self):
        import torch

        from ramannoodle.dataset.torch.utils import (
            polarizability_tensors_to_vectors,
            polarizability_vectors_to_tensors,
        )

        rng = self.rng
        n = int(rng.choice([0, 1, 2, 3, 5, 6, 9, 17, 36]))
        v = torch.tensor(rng.normal(size=(n, 6)))
        out, res = self.call(polarizability_vectors_to_tensors, v)
        self.add("tensors", v=RR(v.numpy()), res=res, out=RR(out.numpy()) if res == "ok" else [])
        t = torch.tensor(rng.normal(size=(n, 3, 3)))
        if rng.random() < 0.5 and res == "ok":
            t = out
        out, res = self.call(polarizability_tensors_to_vectors, t)
        self.add("vectors", t=RR(t.numpy()), res=res, out=RR(out.numpy()) if res == "ok" else [])
        bad = [torch.zeros(6), torch.zeros(2, 5), torch.zeros(2, 3, 3), torch.zeros(2, 7), np.zeros((2, 6)).tolist(), None]
        _, res = self.call(polarizability_vectors_to_tensors, bad[int(rng.integers(len(bad)))])
        self.add("convert-bad", res=res)
        bad = [torch.zeros(3, 3), torch.zeros(2, 6), torch.zeros(2, 3, 4), torch.zeros(1, 1, 3, 3), None, "x"]
        _, res = self.call(polarizability_tensors_to_vectors, bad[int(rng.integers(len(bad)))])
        self.add("convert-bad", res=res)


# ---------------------------------------------------------------------- inputs
def sample(rng, cry, pos=None):
    sym = rng.random() < 0.7
    a = rng.normal(size=(3, 3)) + np.diag(rng.uniform(2, 9, 3))
    P = (cry.positions if pos is None else pos) + rng.normal(size=(len(cry.sp), 3)) * 0.02
    return cry.L.copy(), list(cry.sp), P, (a + a.T) / 2 if sym else a


def spoil(rng, x, kind):
    """An input that does not belong with x's like."""
    L, sp, P, pol = x
    if kind == "lattice":
        L = L.copy()
        i, j = rng.integers(3, size=2)
        L[i, j] += float(rng.choice([-1, 1])) * rng.choice([2e-2, 0.3, 1.7])
    elif kind == "rotated":
        L = L[[1, 2, 0]] + np.diag([0.4, 0, 0])
    elif kind == "species":
        sp = list(sp)
        k = int(rng.integers(len(sp)))
        sp[k] = int(sp[k]) % 80 + 1
    elif kind == "order" and len(set(sp)) > 1:
        k = [i for i in range(len(sp)) if sp[i] != sp[0]][0]
        sp = list(sp)
        sp[0], sp[k] = sp[k], sp[0]
    elif kind == "more":
        sp, P = list(sp) + [sp[-1]], np.vstack([P, rng.random((1, 3))])
    elif kind == "fewer" and len(sp) > 1:
        sp, P = list(sp)[:-1], P[:-1]
    else:
        return spoil(rng, x, "lattice")
    return L, sp, P, pol


KINDS = ("lattice", "rotated", "species", "order", "more", "fewer")


def crystal(rng):
    while True:
        cry = Crystal(sorted(CRYSTALS)[int(rng.integers(len(CRYSTALS)))], rng)
        if len(cry.sp) <= 12:
            return cry


def use(t, d, steps):
    rng = t.rng
    n = len(t.sets[d])
    for _ in range(steps):
        k = int(rng.integers(6))
        if k <= 1:
            t.scale(d, *t.new_scale(d))
        elif k == 2:
            t.scale_bad(d)
        elif k == 3:
            t.item(d, int(rng.integers(-n - 2, n + 2)))
        elif k == 4:
            t.loader(d, int(rng.integers(1, n + 2)))
        else:
            t.convert()


def prof_sets(rng, focus, tmp=None, steps=6):
    """Lists with and without an input that does not belong, then a history."""
    import torch

    t = Sets(rng, focus, tmp)
    double = rng.random() < 0.3
    torch.set_default_dtype(torch.float64 if double else torch.float32)
    try:
        cry = crystal(rng)
        for _ in range(2):
            source = SOURCES[int(rng.integers(4))]
            n = int(rng.choice([1, 2, 3, 4, 7])) if source != "arrays" else int(rng.choice([1, 2, 5, 9, 20]))
            late = rng.random() < (0.3 if source == "pymatgen" else 0.12)
            if late:
                n = 25 if source == "pymatgen" else n
                n = int(rng.choice([31, 35, 64, 120])) if source == "arrays" else n
            ins = [sample(rng, cry) for _ in range(n)]
            if n > 2 and rng.random() < 0.3:
                ins[int(rng.integers(1, n))] = ins[0]  # a repeated sample
            narrow = source == "arrays" and rng.random() < 0.25
            if narrow:  # values that vary little about a large mean
                top = 10.0 ** rng.integers(2, 6)
                base, spread = rng.normal(size=(3, 3)) * top, 10.0 ** rng.uniform(-3, 0)
                ins = [(x[0], x[1], x[2], base + spread * rng.normal(size=(3, 3))) for x in ins]
            if source != "arrays":
                if rng.random() < 0.3:  # rounding of the lattice in some file
                    k = int(rng.integers(n))
                    ins[k] = (ins[k][0] + rng.uniform(-4e-6, 4e-6, (3, 3)),) + ins[k][1:]
                if n > 1 and rng.random() < 0.5:
                    for _ in range(int(rng.integers(1, 3))):
                        k = int(rng.integers(n)) if not late else n - 1 - int(rng.integers(3))
                        ins[k] = spoil(rng, ins[k], KINDS[int(rng.integers(2 if late else len(KINDS)))])
                elif rng.random() < 0.15:
                    # every file agrees with the one before it, not with the first
                    step = np.zeros((3, 3))
                    step[0, 0] = 4e-5
                    base = ins[0]
                    m = int(8 + 100 * np.abs(cry.L).max() / 40)
                    ins = [(base[0] + k * step,) + sample(rng, cry)[1:] for k in range(m)]
            d = t.build(ins, source, False if narrow else None)
            if d is not None and len(ins) > 1:
                use(t, d, steps)
            elif d is not None:
                t.item(d, 0), t.item(d, -1), t.item(d, 1)
            t.malformed()
        for d in range(len(t.sets)):
            t.look(d)
        return t.trace()
    finally:
        torch.set_default_dtype(torch.float32)


def replay(rng, focus, tmp=None, hist=()):
    """A behaviour of DatasetMC."""
    import torch

    t = Sets(rng, focus, tmp)
    cry = crystal(rng)
    torch.set_default_dtype(torch.float64 if rng.random() < 0.3 else torch.float32)
    move = rng.uniform(-1, 1, (3, 3))
    move /= np.abs(move).max()
    shift = {0: 0 * move, 1: 5e-6 * move, 5: 0.2 * move}
    index = {}
    n = 0
    try:
        for r in hist:
            if r["act"] == "build":
                ins = []
                for x in r["ins"]:
                    L, sp, P, pol = sample(rng, cry)
                    if x["sp"] == "b":
                        L, sp, P, pol = spoil(rng, (L, sp, P, pol), "species")
                        sp = [int(z) for z in sp] if not ins else sp
                        sp = [(int(z) % 80) + 1 for z in cry.sp]
                    ins.append((L + shift[x["L"]], sp, P, pol))
                same = all(x["sp"] == r["ins"][0]["sp"] and x["L"] == r["ins"][0]["L"] for x in r["ins"])
                source = SOURCES[int(rng.integers(0 if same else 1, 4))]
                d = t.build(ins, source)
                if d is not None:
                    n += 1
                    index[n] = d
            elif index.get(r["d"]) is None:
                continue
            elif r["act"] == "scale":
                d = index[r["d"]]
                other = index[(r["d"] % n) + 1]
                if r["x"] == 2 and len(t.sets[other]) > 2:
                    t.scale(d, t.sets[other].mean_polarizability, t.sets[other].stddev_polarizability)
                else:
                    t.scale(d, *t.new_scale(d))
            elif r["act"] == "scale-bad":
                t.scale_bad(index[r["d"]])
            else:
                t.item(index[r["d"]], r["x"])
        for d in range(len(t.sets)):
            t.look(d)
        return t.trace()
    finally:
        torch.set_default_dtype(torch.float32)


def run(ctx):
    c21 = ctx.pid == "C21"
    cfg = (
        "CONSTANTS Lattices = {} Species = {} Tol = 1 MaxIn = {} MaxSets = {} MaxScale = {} MaxLen = {}\n"
        "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bounded\n"
    )
    inv = "VIEW View\nINVARIANT Common\nINVARIANT Ordered\nINVARIANT LastScaling\n"
    two = '{"a", "b"}'
    if c21:
        ctx.model_check("DatasetMC", cfg.format("{0, 1, 2}", two, ctx.pick(3, 4), 1, 1, 2) + inv)
    else:
        ctx.model_check("DatasetMC", cfg.format("{0, 1}", '{"a"}', 2, 2, 3, ctx.pick(5, 7)) + inv)
    hists = ctx.behaviours(
        "DatasetMC", cfg.format("{0, 1, 5}", two, 3, 3, 2, 9) + "INVARIANT PrintHist\n", num=ctx.pick(400, 4000), depth=40
    )
    hists = list({str(h): h for h in hists}.values())
    pick = np.random.default_rng([ctx.seed, 9]).permutation(len(hists))
    hists = [hists[i] for i in sorted(pick[: ctx.pick(120, 1500)])]
    traces = drive.generate(ctx, [(S, "replay", i, {"hist": h}) for i, h in enumerate(hists)])
    ctx.validate("DatasetTrace", traces, "spec behaviours replayed on datasets", chunk=200)
    traces = drive.scenarios(ctx, S, "prof_sets", ctx.pick(160, 3000), start=50000, steps=4 if c21 else 8)
    ctx.validate("DatasetTrace", traces, "lists of inputs, rescaling and reading", chunk=200)
