"""Recording driver for interpolation / ART models: real calls -> PModelTrace events.

The driver only produces inputs and records outcomes; it never judges them.
"""

from __future__ import annotations

import os
from pathlib import Path

import numpy as np

from . import drive, vaspgen
from .core import R, RR, outcome
from .crystals import CRYSTALS, Crystal

Z3 = np.zeros((3, 3))


def field(v):
    return RR(np.asarray(v, dtype=float))


class Recorder:
    """One trace: a reference structure and a family of models on it."""

    def __init__(self, rng, name: str, focus: str, rotate="random", tmp: Path | None = None):
        self.rng, self.focus, self.tmp = rng, focus, tmp
        self.cry = Crystal(name, rng, rotate)
        self.ref = self.cry.ref()
        self.ev: list[dict] = []
        self.models: list = []
        self.kinds: list[tuple[str, bool]] = []
        self.refpol: list = []
        self.nfile = 0
        drive.register(self)

    @property
    def N(self):
        return self.cry.N

    def trace(self) -> dict:
        return {
            "crystal": self.cry.js(),
            "K": self.cry.K,
            "focus": self.focus,
            "ev": self.ev,
        }

    # ------------------------------------------------------------------ helpers
    def basis(self, m):
        out, res = outcome(lambda: self.models[m].cart_basis_vectors)
        return [field(v) for v in out] if res == "ok" else [["unreadable"]]

    def mask(self, m):
        out, res = outcome(lambda: self.models[m].mask)
        return [bool(v) for v in out] if res == "ok" else ["unreadable"]

    def rawbasis(self, m):
        out, res = outcome(lambda: self.models[m].cart_basis_vectors)
        return out if res == "ok" else []

    def frac(self, cart):
        """Fractional displacement of a Cartesian field."""
        return np.asarray(cart) @ np.linalg.inv(self.cry.L)

    def _same(self, before, after):
        for b, a in zip(before, after):
            if isinstance(b, np.ndarray):
                if not (isinstance(a, np.ndarray) and b.dtype == a.dtype and np.array_equal(b, a)):
                    self.ev.append({"op": "args", "same": False})
                    return
            elif b != a:
                self.ev.append({"op": "args", "same": False})
                return

    # ------------------------------------------------------------------ construction
    def new(self, kind="interp", dummy=False, ref=None):
        from ramannoodle.pmodel import ARTModel, InterpolationModel

        if ref is None:
            ref = 5 * self.cry.symmetric_tensor(self.rng)
        cls = ARTModel if kind == "art" else InterpolationModel
        given = ref.copy()
        out, res = outcome(cls, self.ref, ref, dummy)
        self.ev.append(
            {"op": "new", "kind": kind, "dummy": dummy, "ref": field(given), "res": res}
        )
        self.models.append(out)
        self.kinds.append((kind, dummy))
        self.refpol.append(given)
        return len(self.models) - 1

    # ------------------------------------------------------------------ additions
    def _add_event(self, m, art, via, res, **kw):
        e = {
            "op": "add",
            "m": m + 1,
            "art": art,
            "via": via,
            "bad": "",
            "disp": [],
            "amps": [],
            "pols": [],
            "positions": [],
            "k": 1,
            "incl": not art,
            "res": res,
        }
        e.update(kw)
        e["basis"] = self.basis(m)
        e["mask"] = self.mask(m)
        self.ev.append(e)
        return res

    def add_dof(self, m, disp, amps, pols, k=1, incl=True):
        disp, amps, pols = (np.array(x, dtype=float) for x in (disp, amps, pols))
        saved = [disp.copy(), amps.copy(), pols.copy()]
        _, res = outcome(self.models[m].add_dof, disp, amps, pols, k, incl)
        r = self._add_event(
            m,
            False,
            "dof",
            res,
            disp=field(saved[0]),
            amps=RR(saved[1]),
            pols=field(saved[2]) if len(saved[2]) else [],
            k=k,
            incl=incl,
        )
        self._same(saved, [disp, amps, pols])
        return r

    def add_art(self, m, atom, direction, amps, pols):
        direction, amps, pols = (np.array(x, dtype=float) for x in (direction, amps, pols))
        saved = [direction.copy(), amps.copy(), pols.copy()]
        _, res = outcome(self.models[m].add_art, int(atom), direction, amps, pols)
        disp = np.zeros((self.N, 3))
        disp[atom] = saved[0]
        r = self._add_event(
            m,
            True,
            "dof",
            res,
            disp=field(disp),
            amps=RR(saved[1]),
            pols=field(saved[2]) if len(saved[2]) else [],
        )
        self._same(saved, [direction, amps, pols])
        return r

    def add_bad(self, m, art, why, *args):
        """An addition with malformed arguments."""
        fn = self.models[m].add_art if art else self.models[m].add_dof
        _, res = outcome(fn, *args)
        return self._add_event(m, art, "dof", res, bad=why)

    def add_pymatgen(self, m, art, positions, pols, k=1, npol=None):
        from pymatgen.core import Lattice, Structure

        structs = [
            Structure(
                Lattice(self.cry.L),
                [vaspgen.SYMBOL[z] for z in (self.cry.sp if len(p) == self.N else (self.cry.sp * 3)[: len(p)])],
                p,
            )
            for p in positions
        ]
        used = [np.array(s.frac_coords) for s in structs]
        pols = np.array(pols, dtype=float)
        saved = pols.copy()
        if art:
            _, res = outcome(self.models[m].add_art_from_pymatgen, structs, pols)
        else:
            _, res = outcome(self.models[m].add_dof_from_pymatgen, structs, pols, k)
        r = self._add_event(
            m,
            art,
            "pymatgen",
            res,
            positions=[field(p) for p in used],
            pols=[field(p) for p in saved],
            k=1 if art else k,
        )
        self._same([saved] + used, [pols] + [np.array(s.frac_coords) for s in structs])
        return r

    def add_files(self, m, art, positions, pols, fmt, k=1, single=False):
        """Write one file per configuration and add from them."""
        paths, used, upol = [], [], []
        for p, a in zip(positions, pols):
            self.nfile += 1
            path = self.tmp / f"f{os.getpid()}_{id(self)}_{self.nfile}"
            sp = self.cry.sp if len(p) == self.N else (self.cry.sp * 3)[: len(p)]
            text, got, gota = vaspgen.structure_file(
                fmt, self.rng, self.cry.L, sp, np.asarray(p), np.asarray(a)
            )
            path.write_text(text)
            paths.append(str(path) if self.rng.random() < 0.5 else path)
            used.append(got)
            upol.append(gota)
        arg = paths[0] if single and len(paths) == 1 else list(paths)
        keep = list(paths)
        if art:
            _, res = outcome(self.models[m].add_art_from_files, arg, fmt)
        else:
            _, res = outcome(self.models[m].add_dof_from_files, arg, fmt, k)
        r = self._add_event(
            m,
            art,
            "files",
            res,
            positions=[field(p) for p in used],
            pols=[field(p) for p in upol],
            k=1 if art else k,
        )
        if isinstance(arg, list):
            self._same([keep], [arg])
        for p in paths:
            Path(p).unlink()
        return r

    # ------------------------------------------------------------------ predictions
    def predict(self, m, positions_batch):
        batch = np.array(positions_batch, dtype=float)
        if batch.size == 0:
            batch = batch.reshape(0, self.N, 3)
        saved = batch.copy()
        out, res = outcome(self.models[m].calc_polarizabilities, batch)
        self.ev.append(
            {
                "op": "predict",
                "m": m + 1,
                "positions": [field(p) for p in saved],
                "bad": "",
                "res": res,
                "out": RR(out) if res == "ok" else [],
            }
        )
        self._same([saved], [batch])
        return out if res == "ok" else None

    def predict_bad(self, m, why, arg):
        _, res = outcome(self.models[m].calc_polarizabilities, arg)
        self.ev.append(
            {"op": "predict", "m": m + 1, "positions": [], "bad": why, "res": res, "out": []}
        )

    def crowd(self, m, ps, base, size):
        """The same samples inside a large batch."""
        if base is None:
            return
        idx = self.rng.integers(len(ps), size=size)
        batch = np.array([ps[i] for i in idx])
        out, res = outcome(self.models[m].calc_polarizabilities, batch)
        if res != "ok" or np.shape(out) != (size, 3, 3):
            self.agree([base, None])
            return
        off = [int(np.argmax(np.abs(out - base[idx]).max(axis=(1, 2)))), 0, size - 1]
        for j in off + [int(j) for j in self.rng.integers(size, size=3)]:
            self.agree([base[idx[j]], out[j]])

    def reuse(self, m, ps):
        """The caller refills the array it predicted from, and keeps the results."""
        batch = np.array([ps[0]])
        kept = []
        for p in ps[:3] + ps[:1]:
            batch[0] = p
            saved = batch.copy()
            out, res = outcome(self.models[m].calc_polarizabilities, batch)
            self.ev.append({"op": "predict", "m": m + 1, "positions": [field(saved[0])],
                            "bad": "", "res": res, "out": RR(out) if res == "ok" else []})
            if res == "ok":
                kept.append((out, out.copy()))
                out = out + 0
        for out, copy in kept:
            self.agree([copy, out])
        for out, _ in kept:
            out[:] = 7  # results belong to the caller
        self.predict(m, ps[:1])

    def agree(self, outs):
        self.ev.append({"op": "agree", "outs": [RR(o) if o is not None else "none" for o in outs]})

    # ------------------------------------------------------------------ masks etc.
    def observe(self, m):
        self.ev.append(
            {"op": "observe", "m": m + 1, "basis": self.basis(m), "mask": self.mask(m)}
        )

    def observe_all(self):
        for m in range(len(self.models)):
            self.observe(m)

    def masked(self, m, idx):
        idx = [int(i) for i in idx]
        saved = list(idx)
        out, res = outcome(self.models[m].get_masked_model, idx)
        e = {
            "op": "masked",
            "m": m + 1,
            "idx": [i + 1 for i in saved],
            "res": res,
            "basis": [],
            "mask": [],
            "kind": "?",
            "dummy": False,
        }
        self.models.append(out)
        self.kinds.append(self.kinds[m])
        self.refpol.append(self.refpol[m])
        n = len(self.models) - 1
        if res == "ok":
            e["basis"], e["mask"] = self.basis(n), self.mask(n)
            e["kind"] = {"InterpolationModel": "interp", "ARTModel": "art"}.get(
                type(out).__name__, "?"
            )
            e["dummy"] = bool(out.is_dummy_model)
        self.ev.append(e)
        self._same([saved], [idx])
        return n

    def setmask(self, m, value):
        value = np.array(value, dtype=bool)
        saved = [bool(v) for v in value]

        def assign():
            self.models[m].mask = value

        _, res = outcome(assign)
        if len(saved) and self.rng.random() < 0.5:
            value[:] = ~value  # the caller goes on using its own array
        self.ev.append(
            {"op": "setmask", "m": m + 1, "new": saved, "res": res, "mask": self.mask(m)}
        )

    def unmask(self, m):
        _, res = outcome(self.models[m].unmask)
        self.ev.append({"op": "unmask", "m": m + 1, "res": res, "mask": self.mask(m)})

    def dofidx(self, m, items):
        """items: atom indexes (0-based ints) and symbols."""
        arg = items if not isinstance(items, list) else list(items)
        out, res = outcome(self.models[m].get_dof_indexes, arg)
        lst = items if isinstance(items, list) else [items]
        self.ev.append(
            {
                "op": "dofidx",
                "m": m + 1,
                "atoms": [i + 1 for i in lst if not isinstance(i, str)],
                "species": [vaspgen.NUMBER[i] for i in lst if isinstance(i, str)],
                "res": res,
                "out": [int(i) + 1 for i in out] if res == "ok" else [],
            }
        )
        return [int(i) for i in out] if res == "ok" else []

    def spectup(self, m):
        out, res = outcome(self.models[m].get_specification_tuples)
        self.ev.append(
            {
                "op": "spectup",
                "m": m + 1,
                "res": res,
                "out": [
                    {
                        "atom": int(a) + 1,
                        "equiv": [int(i) + 1 for i in eq],
                        "dirs": [RR(np.asarray(d)) for d in dirs],
                    }
                    for a, eq, dirs in out
                ]
                if res == "ok"
                else [],
            }
        )

    # ------------------------------------------------------------------ structure queries
    def eqatoms(self):
        out, res = outcome(self.ref.get_equivalent_atom_dict)
        num, res2 = outcome(lambda: int(self.ref.num_nonequivalent_atoms))
        if res == "ok" and res2 != "ok":
            res = res2
        self.ev.append(
            {
                "op": "eqatoms",
                "res": res,
                "out": [
                    {"atom": int(k) + 1, "equiv": [int(i) + 1 for i in v]}
                    for k, v in out.items()
                ]
                if res == "ok"
                else [],
                "num": num if res == "ok" else 0,
            }
        )

    def atomidx(self, symbols):
        arg = symbols if isinstance(symbols, str) else list(symbols)
        out, res = outcome(self.ref.get_atom_indexes, arg)
        lst = [symbols] if isinstance(symbols, str) else symbols
        self.ev.append(
            {
                "op": "atomidx",
                "species": [vaspgen.NUMBER[s] for s in lst],
                "res": res,
                "out": [int(i) + 1 for i in out] if res == "ok" else [],
            }
        )

    def eqdisp(self, disp):
        disp = np.array(disp, dtype=float)
        saved = disp.copy()
        out, res = outcome(self.ref.get_equivalent_displacements, disp)
        self.ev.append(
            {
                "op": "eqdisp",
                "disp": field(saved),
                "res": res,
                "out": [[field(d) for d in grp["displacements"]] for grp in out]
                if res == "ok"
                else [],
            }
        )
        self._same([saved], [disp])

    # ------------------------------------------------------------------ generators
    def positions(self, u=None, shift=True):
        """Reference positions displaced by the Cartesian field u (+ lattice shifts)."""
        p = self.cry.positions.copy()
        if u is not None:
            p = p + self.frac(u)
        if shift:
            p = p + self.rng.integers(-2, 3, size=p.shape)
        return p

    def wrapped(self, u):
        p = self.cry.positions + self.frac(u)
        return p - np.floor(p)

    def direction(self, single=None, existing=(), nice=None):
        """A displacement direction orthogonal to `existing` (N,3 unit fields)."""
        rng = self.rng
        for _ in range(60):
            u = np.zeros((self.N, 3))
            nice = rng.random() < 0.5 if nice is None else nice
            if single is None:
                if nice:
                    u = rng.integers(-1, 2, size=(self.N, 3)).astype(float)
                    if rng.random() < 0.3:  # only a few atoms move
                        u[rng.permutation(self.N)[int(rng.integers(1, 3)) :]] = 0
                else:
                    u = rng.normal(size=(self.N, 3))
            elif nice:
                u[single] = rng.integers(-1, 2, size=3)
            else:
                u[single] = rng.normal(size=3)
            if nice and rng.random() < 0.7:  # otherwise along the Cartesian axes
                u = u @ self.cry.L / np.linalg.norm(self.cry.L[0])
            for v in existing:
                u = u - np.sum(u * v) * v
            n = np.linalg.norm(u)
            if n < 0.05:
                continue
            u = u / n
            if not nice and rng.random() < 0.1:  # one of its images becomes nearly orthogonal to it
                group = self.cry.group()
                w = self.cry.image(group[int(rng.integers(len(group)))], u)
                here = single is None or bool(np.all(np.abs(np.delete(w, single, axis=0)) < 1e-9))
                if here and abs(np.sum(u * w)) < 1e-9 and all(abs(np.sum(v * w)) < 1e-9 for v in existing):
                    u = u + w * float(rng.uniform(2e-4, 2e-3))
                    u /= np.linalg.norm(u)
            if self.cry.grey(u, existing):
                continue
            return u
        return None

    def free_direction(self, existing, tries=40):
        """A direction all of whose images are orthogonal to `existing`."""
        if not len(existing):
            return self.direction()
        for _ in range(tries):
            # random combination in the orthogonal complement of the span
            A = np.array([v.ravel() for v in existing])
            q = np.linalg.svd(A)[2][len(A):]
            if not len(q):
                return None
            u = (self.rng.normal(size=len(q)) @ q).reshape(self.N, 3)
            u /= np.linalg.norm(u)
            if not self.cry.grey(u, existing):
                return u
        return None

    def blocked_direction(self, existing, tries=60):
        """A direction orthogonal to `existing` that has an image which is not."""
        for _ in range(tries):
            u = np.zeros((self.N, 3))
            some = self.rng.permutation(self.N)[: int(self.rng.integers(1, 3))]
            u[some] = self.rng.normal(size=(len(some), 3))
            for v in existing if self.rng.random() < 0.5 else ():
                u = u - np.sum(u * v) * v
            if np.linalg.norm(u) < 0.05:
                continue
            u /= np.linalg.norm(u)
            if self.cry.grey(u, existing) or max(self.cry.cosines(u, existing), default=1) > 1e-9:
                continue
            images = [self.cry.image(g, u) for g in self.cry.group()]
            if max(max(self.cry.cosines(w, existing)) for w in images) > 2e-4:
                return u
        return None

    def amplitudes(self, num, flip, zero=True, scale=0.3, close=False):
        """Clearly distinct amplitudes (clear of 0 and, with flip, of each other's -x).

        With `close`, two of them differ by a few 1e-4 only.
        """
        rng = self.rng
        if close and num > 1:
            a = self.amplitudes(num - 1, flip, zero, scale)
            if a is None:
                return None
            return np.append(a, np.round(a[0] + float(rng.choice([-3e-4, 2e-4, 5e-4])), 6))
        gap = 0.02 if num < 4 else 0.01
        for _ in range(400):
            a = np.round(rng.uniform(-scale, scale, size=num), 4)
            x = np.concatenate([a, -a]) if flip else a
            x = np.concatenate([x, [0.0]]) if zero else x
            d = np.abs(x[:, None] - x[None, :])[~np.eye(len(x), dtype=bool)]
            if len(d) == 0 or d.min() > gap:
                return a
        return None

    def data(self, m, u, amps, k=1, poly=True):
        """Polarizabilities for amplitudes along u respecting u's site symmetry."""
        cry, rng = self.cry, self.rng
        st = cry.stabilizer(u)
        ref = self.refpol[m]
        if k == 1 or not poly:
            # any function with f(-x) = image of f(x): project each datum on the
            # operations keeping the sign; odd/even parts are supplied by the spec
            plus = [(Q, 1) for Q, s in st if s > 0]
            return np.array([ref + cry.symmetric_tensor(rng, plus) for _ in amps])
        coef = [cry.symmetric_tensor(rng, st, power=p) for p in range(1, k + 1)]
        return np.array([ref + sum(c * a**p for p, c in enumerate(coef, 1)) for a in amps])


def pick_crystal(rng, names=None):
    names = names or sorted(CRYSTALS)
    return names[int(rng.integers(len(names)))]


SMALL = ["sc", "cscl", "zb", "diam", "nacl", "hcp", "p-1", "p1", "sc2", "bcc", "skew", "pmmm", "mono", "rhom"]
