"""Ownership scenarios (C20): read, overwrite, use, derive, mutate, observe."""

from __future__ import annotations

import os

import numpy as np

from . import drive, vaspgen
from .core import R, RR, outcome
from .crystals import Crystal
from .spectra import series, stand_in, tensors
from .trace import Tracer

S = "harness.own"


def enc(x):
    """Any reported value as nested sequences of reals."""
    if isinstance(x, np.ndarray):
        return RR(x.astype(float))
    if isinstance(x, (list, tuple)):
        return [enc(v) for v in x]
    if isinstance(x, dict):
        return [[enc(k), enc(x[k])] for k in sorted(x)]
    if isinstance(x, (bool, int, float, np.generic)):
        return R(float(x))
    if hasattr(x, "c") and hasattr(x, "t"):  # a spline
        return [enc(np.asarray(x.t)), enc(np.asarray(x.c)), R(float(x.k))]
    if hasattr(x, "lattice") and hasattr(x, "positions"):  # a structure
        return [enc(x.lattice), enc(x.positions), enc(list(x.atomic_numbers))]
    if hasattr(x, "numpy"):
        return enc(x.detach().numpy())
    return "other"


def vandalise(x, depth=0):
    """Overwrite everything mutable in a returned value."""
    if isinstance(x, np.ndarray):
        if x.flags.writeable:
            if x.dtype == bool:
                x[...] = ~x
            elif x.dtype.kind in "fiu":
                x[...] = x * 2 + 3
    elif isinstance(x, list):
        for v in x:
            vandalise(v, depth + 1)
        if x and isinstance(x[0], (int, np.integer)):
            x[0] = x[0] + 1
        if len(x) > 1:
            x.pop()
    elif isinstance(x, tuple):
        for v in x:
            vandalise(v, depth + 1)
    elif isinstance(x, dict):
        for v in list(x.values()):
            vandalise(v, depth + 1)
        if x:
            x.pop(next(iter(x)))
    elif hasattr(x, "c") and hasattr(x, "t"):  # a spline's public arrays
        for v in (x.t, x.c):
            if isinstance(v, np.ndarray):
                vandalise(v, depth + 1)


class World(Tracer):
    def __init__(self, rng, focus, tmp=None):
        super().__init__(rng, focus, tmp)
        self.cry = None
        self.objs: list = []  # (kind, object, context)
        self.last = None

    # ------------------------------------------------------------- making
    def crystal(self):
        from .crystals import CRYSTALS

        if self.cry is None:
            names = sorted(n for n in CRYSTALS)
            name = names[int(self.rng.integers(len(names)))]
            if self.rng.random() < 0.12:
                name = "sup10"
            self.cry = Crystal(name, self.rng)
        return self.cry

    def emit(self, op, res="ok", **kw):
        obs = [self.observe(i) for i in range(len(self.objs))]
        self.add(op, res=res, obs=obs, **kw)

    def put(self, op, kind, obj, res, ctx=None, **kw):
        if res == "ok":
            self.objs.append((kind, obj, ctx or {}))
        self.emit(op, res, kind=kind, **kw)
        return res == "ok"

    def make(self, kind):
        from ramannoodle.dynamics import Phonons, Trajectory
        from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum
        from ramannoodle.structure import ReferenceStructure

        rng = self.rng
        ctx = {}
        big = rng.random() < 0.2
        size = lambda few, many: int(rng.integers(*many)) if big else few  # noqa: E731
        if kind == "ref":
            cry = self.crystal()
            obj, res = self.call(ReferenceStructure, list(cry.sp), cry.L.copy(), cry.positions.copy())
        elif kind == "phonons":
            N = int(rng.integers(1, 4))
            obj, res = self.call(Phonons, rng.random((N, 3)), rng.uniform(10, 500, m := size(4, (9, 30))), rng.normal(size=(m, N, 3)))
            ctx["model"] = stand_in(rng, N)
        elif kind == "traj":
            N = int(rng.integers(1, 4))
            obj, res = self.call(Trajectory, rng.random((size(4, (33, 70)), N, 3)), 1.0)
            ctx["model"] = stand_in(rng, N)
        elif kind == "pspec":
            obj, res = self.call(PhononRamanSpectrum, rng.uniform(10, 900, m := size(3, (10, 60))), tensors(rng, m))
        elif kind == "mspec":
            obj, res = self.call(MDRamanSpectrum, series(rng, size(6, (33, 80))), 1.0)
        elif kind == "dataset":
            from ramannoodle.dataset.torch import PolarizabilityDataset

            n = size(int(rng.integers(2, 5)), (20, 50))
            obj, res = self.call(PolarizabilityDataset, np.eye(3) * 4.0, [22, 8], rng.random((n, 2, 3)), rng.normal(size=(n, 3, 3)))
        else:
            raise KeyError(kind)
        return self.put("make", kind, obj, res, ctx)

    def derive(self, o, kind):
        from ramannoodle.pmodel import ARTModel, InterpolationModel

        k, src, ctx = self.objs[o]
        rng = self.rng
        new = {}
        if kind in ("interp", "art"):
            cls = InterpolationModel if kind == "interp" else ARTModel
            obj, res = self.call(cls, src, rng.normal(size=(3, 3)))
            new = {"N": src.num_atoms, "sample": src.positions[None] + rng.normal(size=(1, src.num_atoms, 3)) * 0.01, "ref": src}
        elif kind == "masked":
            n = len(src.mask)
            obj, res = self.call(src.get_masked_model, [int(i) for i in range(n) if rng.random() < 0.4])
            new = dict(ctx)
        else:
            obj, res = self.call(src.get_raman_spectrum, ctx["model"])
        ok = self.put("derive", kind, obj, res, new, o=o + 1)
        if ok and kind in ("interp", "art"):
            for _ in range(2):
                self.mutate(len(self.objs) - 1, add=True)
        return ok

    # ------------------------------------------------------------- observing
    def props(self, i):
        kind, obj, ctx = self.objs[i]
        if kind == "ref":
            d = ctx.setdefault("d", self.rng.normal(size=(obj.num_atoms, 3)) * 0.01)
            p = {n: (lambda n=n: getattr(obj, n)) for n in ("atomic_numbers", "lattice", "positions", "num_nonequivalent_atoms", "num_atoms")}
            p["get_equivalent_atom_dict"] = lambda: [[k, list(v)] for k, v in sorted(obj.get_equivalent_atom_dict().items())]
            p["equivalent_atom_dict"] = obj.get_equivalent_atom_dict
            p["get_cart_displacement"] = lambda: obj.get_cart_displacement(d)
            p["get_equivalent_displacements"] = lambda: [x["displacements"] for x in obj.get_equivalent_displacements(d)]
            p["get_atom_indexes"] = lambda: obj.get_atom_indexes(vaspgen.SYMBOL[obj.atomic_numbers[0]])
            return p
        if kind in ("interp", "art", "masked"):
            p = {n: (lambda n=n: getattr(obj, n)) for n in ("ref_polarizability", "cart_basis_vectors", "interpolations", "mask", "ref_structure")}
            p["calc_polarizabilities"] = lambda: obj.calc_polarizabilities(ctx["sample"])
            if hasattr(obj, "get_specification_tuples"):
                p["get_specification_tuples"] = obj.get_specification_tuples
                p["get_dof_indexes"] = lambda: obj.get_dof_indexes(list(range(ctx["N"])))
            return p
        names = {
            "phonons": ("ref_positions", "wavenumbers", "displacements"),
            "traj": ("positions_ts", "timestep"),
            "pspec": ("phonon_wavenumbers", "raman_tensors"),
            "mspec": ("polarizability_ts", "timestep"),
            "dataset": ("atomic_numbers", "positions", "polarizabilities", "scaled_polarizabilities", "mean_polarizability", "stddev_polarizability", "num_atoms", "num_samples"),
        }[kind]
        p = {n: (lambda n=n: getattr(obj, n)) for n in names}
        if kind == "phonons":
            p["get_raman_spectrum"] = lambda: obj.get_raman_spectrum(ctx["model"]).raman_tensors
        elif kind == "traj":
            p["get_raman_spectrum"] = lambda: obj.get_raman_spectrum(ctx["model"]).polarizability_ts
            p["item"] = lambda: obj[0]
            p["slice"] = lambda: obj[1:]
        elif kind in ("pspec", "mspec"):
            p["measure"] = obj.measure
            p["measure_corrected"] = lambda: obj.measure(laser_correction=True, bose_einstein_correction=True)
        return p

    def observe(self, i):
        res = {}
        for n, f in self.props(i).items():
            out, r = outcome(f)
            res[n] = enc(out) if r == "ok" else r
        return res

    def read(self, o, x):
        props = self.props(o)
        name = sorted(props)[int(self.rng.integers(len(props)))]
        out, res = self.call(props[name])
        if res == "ok":
            self.last = out
        self.emit("read", res, o=o + 1, prop=name, value=enc(out) if res == "ok" else [])

    def vandal(self):
        vandalise(self.last)
        self.emit("vandalise")

    # ------------------------------------------------------------- using
    def use(self, o, x):
        from ramannoodle.io import generic
        from ramannoodle.spectrum.utils import convolve_spectrum
        from ramannoodle.structure import get_displaced_positions

        kind, obj, ctx = self.objs[o]
        rng = self.rng
        if kind == "ref":
            if x == 1:
                out, res = self.call(get_displaced_positions, obj, rng.normal(size=(obj.num_atoms, 3)), np.array([0.1, -0.2]))
            else:
                path = self.tmp / f"own_{os.getpid()}_{id(self)}_{len(self.ev)}"
                pos = np.clip(obj.positions - np.floor(obj.positions), 0, 1)
                out, res = self.call(generic.write_structure, obj.lattice, obj.atomic_numbers, pos, path, "poscar", True)
                path.unlink(missing_ok=True)
                res = "ok" if res == "ValueError" else res  # ungrouped species are refused
        elif kind in ("interp", "art", "masked"):
            batch = ctx["sample"] + rng.normal(size=(3, ctx["N"], 3)) * 0.01
            out, res = self.call(obj.calc_polarizabilities, batch)
        elif kind in ("phonons", "traj"):
            out, res = self.call(obj.get_raman_spectrum, ctx["model"])
        elif kind in ("pspec", "mspec"):
            (w, i), res = outcome(obj.measure, laser_correction=True)
            if x == 1 and res == "ok" and len(w):
                out, res = self.call(convolve_spectrum, w, i, width=float(rng.choice([0.5, 5, 30, 100])), out_wavenumbers=np.linspace(0, 100, 5))
            out = (w, i)
        else:
            out, res = self.call(lambda: [obj[i] for i in range(len(obj))])
            out = None
        if res == "ok" and out is not None:
            self.last = out
        self.emit("use", res, o=o + 1)
        if res == "ok" and out is not None and rng.random() < 0.3:
            self.vandal()

    def mutate(self, o, x=1, add=False):
        kind, obj, ctx = self.objs[o]
        rng = self.rng
        if kind == "dataset":
            a, b = rng.normal(size=(3, 3)), rng.uniform(0.5, 2, size=(3, 3))
            _, res = self.call(obj.scale_polarizabilities, a, b)
            vandalise(a), vandalise(b)
        elif x == 2 and not add and len(obj.mask):
            m = rng.random(len(obj.mask)) < 0.5

            def assign():
                obj.mask = m

            _, res = outcome(assign)
            vandalise(m)
        else:
            amps, pols = np.array([-0.1, 0.1]), rng.normal(size=(2, 3, 3))
            if hasattr(obj, "add_art"):
                u = rng.normal(size=3)
                args = [int(rng.integers(ctx["N"])), u, amps, pols]
                _, res = self.call(obj.add_art, *args)
            else:
                u = rng.normal(size=(ctx["N"], 3))
                args = [u, amps, pols, 1]
                _, res = self.call(obj.add_dof, *args)
            # the arrays given stay the caller's own
            for a in args:
                vandalise(a)
            res = "ok"
        self.emit("mutate", res, o=o + 1)


def replay(rng, focus, tmp=None, hist=()):
    """A behaviour of OwnMC."""
    w = World(rng, focus, tmp)
    index = {}  # specification object -> object
    n = 0
    for r in hist:
        o = index.get(r["o"])
        if r["act"] in ("make", "derive"):
            n += 1
            before = len(w.objs)
            ok = w.make(r["k"]) if r["act"] == "make" else (o is not None and w.derive(o, r["k"]))
            if ok:
                index[n] = before
        elif r["act"] == "vandalise":
            w.vandal()
        elif o is None:
            continue
        elif r["act"] == "read":
            w.read(o, r["x"])
        elif r["act"] == "use":
            w.use(o, r["x"])
        elif r["act"] == "mutate":
            w.mutate(o, r["x"])
    return w.trace()


def prof_every(rng, focus, tmp=None):
    """Every property of every kind read and overwritten, one after the other."""
    w = World(rng, focus, tmp)
    w.make("ref")
    w.derive(0, str(rng.choice(["interp", "art"])))
    w.derive(1, "masked")
    w.make(str(rng.choice(["phonons", "traj"])))
    w.derive(3, "pspec" if w.objs[3][0] == "phonons" else "mspec")
    w.make("dataset")
    for i in rng.permutation(len(w.objs)):
        props = w.props(int(i))
        for name in props:
            out, res = w.call(props[name])
            w.last = out
            vandalise(out)
            w.emit("vandalise" if res == "ok" else "read", res, o=int(i) + 1, prop=name, value=[])
    return w.trace()


def run(ctx):
    kinds = '{"ref", "interp", "art", "masked", "phonons", "traj", "pspec", "mspec", "dataset"}'
    cfg = "CONSTANTS MaxLen = {} MaxObj = {} MaxCells = {} Kinds = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bounded\n"
    ctx.model_check("OwnMC", cfg.format(ctx.pick(5, 6), 3, 6, kinds) + "VIEW View\nINVARIANT Separation\nINVARIANT Reports\n")
    hists = []
    for k, part in enumerate(('{"ref", "interp", "masked"}', '{"ref", "art", "masked"}', '{"phonons", "pspec", "traj", "mspec", "dataset"}')):
        got = ctx.behaviours("OwnMC", cfg.format(12, 4, 9, part) + "INVARIANT PrintHist\n", num=ctx.pick(40, 500), depth=14, seed=ctx.seed + k)
        got = list({str(h): h for h in got}.values())
        pick = np.random.default_rng([ctx.seed, k]).permutation(len(got))
        hists += [got[i] for i in sorted(pick[: ctx.pick(150, 1500)])]
    traces = drive.generate(ctx, [(S, "replay", i, {"hist": h}) for i, h in enumerate(hists)])
    ctx.validate("OwnTrace", traces, "spec behaviours replayed on the library's objects", chunk=100)
    ctx.validate("OwnTrace", drive.scenarios(ctx, S, "prof_every", ctx.pick(24, 400), start=10000), "every property overwritten", chunk=100)
