"""The documented workflow, end to end, on crystals with a known linear response (C28)."""

from __future__ import annotations

import os
from pathlib import Path

import numpy as np

from . import drive, vaspgen
from .core import R, RR
from .crystals import CRYSTALS
from .models import Recorder
from .trace import Tracer

S = "harness.workflow"


def response(rng, cry):
    """Random responses of every atom and axis, averaged over the space group."""
    N = cry.N
    B = rng.normal(size=(N, 3, 3, 3)) * 3
    B = B + np.swapaxes(B, 2, 3)
    A = np.zeros_like(B)
    for Q, q in cry.group():
        inv = np.empty(N, dtype=int)
        inv[np.array(q)] = np.arange(N)
        # A(u) = Q B(image(u)) Q^T; image[j] = u[q[j]] Q
        C = np.einsum("ml,jlab->jmab", Q, B)
        A += np.einsum("xa,imab,yb->imxy", Q, C[inv], Q)
    return A / len(cry.group())


class Flow(Tracer):
    def __init__(self, rng, focus, tmp, name):
        self.rec = Recorder(rng, name, focus, tmp=tmp)
        cry = self.rec.cry
        self.cry, self.N = cry, cry.N
        self.A = response(rng, cry)
        self.alpha = 5 * cry.symmetric_tensor(rng)
        self.alpha = (self.alpha + self.alpha.T) / 2
        super().__init__(rng, focus, tmp, crystal=cry.js(), K=cry.K, A=RR(self.A), alpha=RR(self.alpha))
        self.rec.refpol = [self.alpha]
        self.files = 0

    def path(self):
        self.files += 1
        return Path(self.tmp) / f"w{os.getpid()}_{id(self)}_{self.files}"

    def truth(self, positions):
        d = np.asarray(positions) - self.cry.positions
        d = (d - np.rint(d)) @ self.cry.L
        return self.alpha + np.einsum("...ik,ikab->...ab", d, self.A)

    def begin(self):
        from ramannoodle.io import generic
        from ramannoodle.pmodel import ARTModel, InterpolationModel
        from ramannoodle.structure import ReferenceStructure

        rng, cry = self.rng, self.cry
        if rng.random() < 0.5:
            fmt = str(rng.choice(["outcar", "vasprun.xml", "poscar", "xdatcar"]))
            p = self.path()
            p.write_text(vaspgen.structure_file(fmt, rng, cry.L, cry.sp, cry.positions, self.alpha, digits=14)[0])
            self.ref, res = self.call(generic.read_ref_structure, p, fmt)
            p.unlink()
        else:
            self.ref, res = self.call(ReferenceStructure, list(cry.sp), cry.L.copy(), cry.positions.copy())
        self.art = bool(rng.random() < 0.5)
        if res == "ok":
            self.model, res = self.call(ARTModel if self.art else InterpolationModel, self.ref, self.alpha.copy())
        self.add("start", art=self.art, res=res)
        return res == "ok"

    def basis(self):
        return list(self.model.cart_basis_vectors)

    # ------------------------------------------------------------------ one addition
    def pick(self):
        rng, ex = self.rng, self.basis()
        atom = None
        if self.art or rng.random() < 0.3:
            room = [a for a in range(self.N) if sum(np.abs(v[a]).max() > 1e-5 for v in ex) < 3]
            if not room:
                return None
            atom = int(rng.choice(room))
            ex = [v for v in ex if np.abs(v[atom]).max() > 1e-5] if self.art else ex
        u = self.rec.direction(single=atom, existing=ex, nice=bool(rng.random() < 0.6)) if atom is not None or rng.random() < 0.5 else self.rec.free_direction(ex)
        if u is None or self.cry.grey(u, self.basis()):
            return None
        return atom if self.art else None, u

    def structures(self, atom, u, amps):
        """Displaced structures, from memory or written and read back."""
        from ramannoodle.io import generic
        from ramannoodle.structure import (
            get_ast_displaced_positions, get_displaced_positions, write_ast_displaced_structures, write_displaced_structures,
        )

        rng = self.rng
        size = float(rng.choice([1.0, 0.02, 25.0]))
        # (a file lists its species in groups)
        grouped = len(vaspgen.runs(self.cry.sp)) == len(set(self.cry.sp))
        if rng.random() < 0.5 or not grouped:
            args = (self.ref, u * size, amps) if atom is None else (self.ref, atom, u[atom] * size, amps)
            out, res = self.call(get_displaced_positions if atom is None else get_ast_displaced_positions, *args)
        else:
            fmt = "poscar"
            paths = [self.path() for _ in amps]
            args = (self.ref, u * size, amps, list(paths), fmt) if atom is None else (self.ref, atom, u[atom] * size, amps, list(paths), fmt)
            out, res = self.call(write_displaced_structures if atom is None else write_ast_displaced_structures, *args)
            out = []
            if res == "ok":
                for p in paths:
                    one, r = self.call(generic.read_positions, p, fmt)
                    res = r if r != "ok" else res
                    out.append(one)
            for p in paths:
                p.unlink(missing_ok=True)
        self.add("displaced", disp=RR(u), amps=RR(amps), positions=RR(np.array(out)) if res == "ok" else [], res=res)
        return np.array(out) if res == "ok" else None

    def extend(self):
        rng = self.rng
        got = self.pick()
        if got is None:
            return
        atom, u = got
        flip = self.cry.has_flip(u)
        how = str(rng.choice(["arrays", "files", "pymatgen"]))
        k = 1 if self.art else int(rng.integers(1, 4))
        incl = not self.art and (how != "arrays" or bool(rng.random() < 0.7))
        need = k + 1 - (1 if incl else 0)
        num = (1 if flip else 2) if self.art else max(1, int(np.ceil(need / 2)) if flip else need) + int(rng.integers(0, 2))
        # less than half a cell in every image's fractional coordinates
        most = max(np.abs(self.cry.image(g, u) @ np.linalg.inv(self.cry.L)).max() for g in self.cry.group())
        if most * 0.1 > 0.45:
            return
        amps = self.rec.amplitudes(num, flip, zero=True, scale=min(0.25, 0.15 / most))
        if amps is None or np.abs(amps).max() * most > 0.45:
            return
        positions = self.structures(atom, u, amps)
        if positions is None:
            return
        pols = self.truth(positions)
        if how == "files":
            fmt = str(rng.choice(["outcar", "vasprun.xml"]))
            paths = []
            got_p, got_a = [], []
            for p, a in zip(positions, pols):
                path = self.path()
                text, pp, aa = vaspgen.structure_file(fmt, rng, self.cry.L, self.cry.sp, p, a)
                path.write_text(text)
                paths.append(path), got_p.append(pp), got_a.append(aa)
            positions, pols = np.array(got_p), np.array(got_a)
            self.add("calc", positions=RR(positions), pols=RR(pols))
            if self.art:
                _, res = self.call(self.model.add_art_from_files, list(paths), fmt)
            else:
                _, res = self.call(self.model.add_dof_from_files, list(paths), fmt, k)
            for p in paths:
                p.unlink()
        elif how == "pymatgen":
            from pymatgen.core import Lattice, Structure

            self.add("calc", positions=RR(positions), pols=RR(pols))
            structs = [Structure(Lattice(self.cry.L), [vaspgen.SYMBOL[z] for z in self.cry.sp], p) for p in positions]
            if self.art:
                _, res = self.call(self.model.add_art_from_pymatgen, structs, pols.copy())
            else:
                _, res = self.call(self.model.add_dof_from_pymatgen, structs, pols.copy(), k)
        else:
            self.add("calc", positions=RR(positions), pols=RR(pols))
            size = float(rng.choice([1.0, 0.02, 25.0]))
            if self.art:
                _, res = self.call(self.model.add_art, atom, u[atom] * size, amps.copy(), pols.copy())
            else:
                _, res = self.call(self.model.add_dof, u * size, amps.copy(), pols.copy(), k, incl)
        self.add("add", disp=RR(u), amps=RR(amps), pols=RR(pols), k=k, incl=incl, how=how, res=res,
                 basis=RR(np.array(self.basis())), mask=[bool(b) for b in self.model.mask])

    # ------------------------------------------------------------------ questions
    def field(self, size):
        """Random, of one atom, of all atoms together, or along a known direction."""
        rng = self.rng
        u = rng.normal(size=(self.N, 3))
        kind = rng.random()
        if kind < 0.12:
            u = u * 0 + u[0]
        elif kind < 0.24:
            u = u * (np.arange(self.N) == rng.integers(self.N))[:, None]
        elif kind < 0.36 and self.basis():
            u = self.basis()[int(rng.integers(len(self.basis())))] * rng.normal()
        d = u * size @ np.linalg.inv(self.cry.L)
        return d * min(1.0, 0.45 / np.abs(d).max())

    def predict(self, model):
        rng = self.rng
        ps = np.array([self.cry.positions + self.field(float(rng.choice([0.02, 0.15, 0.8]))) for _ in range(int(rng.integers(1, 4)))])
        if rng.random() < 0.4:
            ps = ps + rng.integers(-2, 3, size=ps.shape)
        out, res = self.call(model.calc_polarizabilities, ps)
        self.add("predict", positions=RR(ps), mask=[bool(b) for b in model.mask], res=res, out=RR(out) if res == "ok" else [])

    def tuples(self):
        out, res = self.call(self.model.get_specification_tuples)
        self.add("tuples", res=res, counts=[len(t[2]) for t in out] if res == "ok" else [])

    def phonons(self, model):
        from ramannoodle.dynamics import Phonons
        from ramannoodle.io import generic
        from ramannoodle.spectrum.utils import convolve_spectrum

        rng = self.rng
        M = int(rng.integers(1, 5))
        wn = np.round(rng.uniform(40, 1200, M), 3)
        if rng.random() < 0.5:
            modes = [(float(w), vaspgen.printed(self.field(0.4) @ self.cry.L, 12)) for w in np.round(rng.uniform(40, 1200, 3 * self.N), 3)]
            p = self.path()
            p.write_text(vaspgen.outcar(rng, vaspgen.printed(self.cry.L, 12), self.cry.sp, vaspgen.printed(self.cry.positions, 12), self.alpha, modes=modes))
            ph, res = self.call(generic.read_phonons, p, "outcar")
            p.unlink()
        else:
            ph, res = self.call(Phonons, self.cry.positions + rng.integers(-1, 2, size=(self.N, 3)), wn.copy(), np.array([self.field(0.4) for _ in range(M)]))

        def spectrum():
            s = ph.get_raman_spectrum(model)
            return (s.raman_tensors, *s.measure())

        out = None
        if res == "ok":
            out, res = self.call(spectrum)
        ok = res == "ok"
        self.add("phonons", res=res, mask=[bool(b) for b in model.mask], disp=RR(ph.displacements) if ok else [], wn=RR(ph.wavenumbers) if ok else [],
                 tensors=RR(out[0]) if ok else [], w=RR(out[1]) if ok else [], I=RR(out[2]) if ok else [])
        if ok:
            shape, width = str(rng.choice(["gaussian", "lorentzian"])), float(rng.uniform(2, 20))
            x = rng.uniform(30, 1250, int(rng.integers(1, 9)))
            got, res = self.call(convolve_spectrum, out[1].copy(), out[2].copy(), shape, width, x.copy())
            fine = res == "ok"
            self.add("smear", res=res, x=RR(x), w=RR(out[1]), I=RR(out[2]), shape=shape, width=R(width), out=RR(got[1]) if fine else [])

    def md(self, model):
        from ramannoodle.dynamics import Trajectory
        from ramannoodle.io import generic

        rng = self.rng
        n = int(rng.integers(3, 10))
        if rng.random() < 0.4:  # all steps along one field
            one = self.field(0.1)
            ts = self.cry.positions + np.array([one * a for a in rng.uniform(-1, 1, n)])
        else:
            ts = self.cry.positions + np.array([self.field(0.1) for _ in range(n)])
        if rng.random() < 0.5:
            p = self.path()
            ts = vaspgen.printed(ts - np.floor(ts), 13)
            p.write_text(vaspgen.outcar(rng, vaspgen.printed(self.cry.L, 13), self.cry.sp, vaspgen.printed(self.cry.positions, 13), steps=[(vaspgen.printed(x @ self.cry.L, 12), False) for x in ts], timestep=1.0, digits=13))
            tr, res = self.call(generic.read_trajectory, p, "outcar")
            p.unlink()
        else:
            tr, res = self.call(Trajectory, ts.copy(), 1.0)

        def spectrum():
            s = tr.get_raman_spectrum(model)
            return (s.polarizability_ts, *s.measure())

        out = None
        if res == "ok":
            out, res = self.call(spectrum)
        ok = res == "ok"
        self.add("md", res=res, mask=[bool(b) for b in model.mask], positions=RR(tr.positions_ts) if ok else [], ts=RR(out[0]) if ok else [], I=RR(out[2]) if ok else [])


def prof_flow(rng, focus, tmp=None):
    names = sorted(n for n in CRYSTALS if len(CRYSTALS[n][2]) <= 6)
    t = Flow(rng, focus, tmp, names[int(rng.integers(len(names)))])
    if not t.begin():
        return t.trace()
    t.predict(t.model)
    stop = int(rng.integers(1, 4)) if rng.random() < 0.3 else 60
    for _ in range(stop):
        if len(t.basis()) == 3 * t.N:
            break
        t.extend()
        if rng.random() < 0.15:
            t.predict(t.model)
            if t.art:
                t.tuples()
    if t.art:
        t.tuples()
    t.add("complete")
    model = t.model
    if t.basis() and rng.random() < 0.25:
        drop = [i for i in range(len(t.basis())) if rng.random() < 0.3]
        out, res = t.call(t.model.get_masked_model, drop)
        model = out if res == "ok" else model
    for q in rng.permutation(3):
        (t.predict, t.phonons, t.md)[q](model)
    if model is not t.model:
        t.predict(t.model)
    return t.trace()


def run(ctx):
    cfg = "CONSTANTS Which = {} K = 1\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join(
        f"INVARIANT {i}\n" for i in ("TypeOK", "Symmetric", "Exact", "Closed", "Complete")
    )
    for w in ctx.pick([1, 4], [1, 2, 3, 4]):
        ctx.model_check("WorkflowMC", cfg.format(w))
    ctx.validate("WorkflowTrace", drive.scenarios(ctx, S, "prof_flow", ctx.pick(100, 1600)), "the documented workflow", chunk=12)
