"""The same questions in several descriptions of one crystal (C27)."""

from __future__ import annotations


import numpy as np

from . import drive
from .core import R, RR
from .crystals import CRYSTALS
from .gnn import quiet
from .models import Recorder
from .trace import Tracer

S = "harness.frames"
I3 = np.eye(3, dtype=int)


class Frame:
    """Description reached from the first one (generator's own bookkeeping)."""

    def __init__(self, Q, M, t, perm):
        self.Q, self.M, self.t, self.perm = Q, M, t, perm

    def then(self, g):
        return Frame(self.Q @ g.Q, g.M @ self.M, self.t + g.t @ self.M, self.perm[g.perm])

    def lattice(self, L):
        return self.M @ L @ self.Q

    def frac(self, x):
        return np.asarray(x)[..., self.perm, :] @ np.linalg.inv(self.M)

    def pos(self, P):
        return (np.asarray(P)[..., self.perm, :] + self.t) @ np.linalg.inv(self.M)

    def field(self, u):
        return np.asarray(u)[..., self.perm, :] @ self.Q

    def vector(self, v):
        return np.asarray(v) @ self.Q

    def tensor(self, A):
        return self.Q.T @ np.asarray(A) @ self.Q

    def atom(self, i):
        return int(np.nonzero(self.perm == i)[0][0])


def change(rng, sp, gentle=False):
    """A change of description (some aspects only)."""
    N = len(sp)
    which = rng.random(4) < (0.75 if rng.random() < 0.6 else 0.3)
    if not which.any():
        which[int(rng.integers(4))] = True
    Q, M, t, perm = np.eye(3), I3.copy(), np.zeros(3), np.arange(N)
    if which[0] and gentle:  # networks are only promised to follow mirrors
        Q = np.diag(rng.choice([-1.0, 1.0], size=3))
    elif which[0]:
        Q = np.linalg.qr(rng.normal(size=(3, 3)))[0] if rng.random() < 0.8 else np.eye(3)[rng.permutation(3)] * rng.choice([-1, 1], size=3)
    if which[1]:
        if gentle:
            M = I3[rng.permutation(3)] * rng.choice([-1, 1], size=3)[:, None]
        else:
            for _ in range(int(rng.integers(1, 3))):
                E = I3.copy()
                i, j = rng.permutation(3)[:2]
                E[i, j] = rng.choice([-1, 1])
                M = E @ M if rng.random() < 0.7 else I3[rng.permutation(3)] @ M
    if which[2]:
        t = rng.uniform(-1, 1, 3) if rng.random() < 0.7 else rng.integers(-3, 4, size=3) / 4
    if which[3]:
        if gentle:  # atoms of one species among themselves
            for z in set(sp):
                idx = np.nonzero(np.array(sp) == z)[0]
                perm[idx] = idx[rng.permutation(len(idx))]
        else:
            perm = rng.permutation(N)
    return Frame(Q, M, t, perm)


class Frames(Tracer):
    def __init__(self, rng, focus, tmp=None, crystal=None, K=0, P=None):
        super().__init__(rng, focus, tmp, crystal=crystal, K=K)
        if P is not None:
            self.head["P"] = RR(P)
        self.frames: list = []
        self.structures: list = []

    def describe(self, L, P, sp, num=2, gentle=False):
        from ramannoodle.structure import ReferenceStructure

        sp = [int(z) for z in sp]
        g = Frame(np.eye(3), I3, np.zeros(3), np.arange(len(sp)))
        self.base = (L, P, sp)
        for k in range(num + 1):
            step = change(self.rng, [sp[i] for i in g.perm], gentle)
            if k:
                g = g.then(step)
            p = g.pos(P)
            if self.rng.random() < 0.8:
                p = p - np.floor(p)
            s, res = self.call(ReferenceStructure, [sp[i] for i in g.perm], g.lattice(L), p)
            if k:
                self.add("describe", g={"Q": RR(step.Q), "M": step.M.tolist(), "t": RR(step.t), "perm": [int(i) + 1 for i in step.perm]},
                         L=RR(g.lattice(L)), P=RR(p), sp=[sp[i] for i in g.perm], res=res)
            elif res != "ok":
                return False
            if res != "ok":
                return False
            self.frames.append(g)
            self.structures.append((s, p))
        self.count = 0
        return True

    def ask(self, name, fn, given, model=True, **kw):
        """fn(k, frame) -> (callable result pairs); given(k, frame) -> argument pairs."""
        self.count += 1
        outs = []
        for k, g in enumerate(self.frames):
            out, res = self.call(fn, k, g, watch=False)
            e = dict(name=name, q=self.count, k=k + 1, given=given(g), model=model, res=res, got=out if res == "ok" else [])
            self.add("ask", **e, **(kw if k == 0 else {}))
            outs.append(out if res == "ok" else None)
        return outs


def small(t, d):
    """Fractional displacements, reduced to less than half a cell in every description."""
    m = max(np.abs(np.asarray(d) @ np.linalg.inv(g.M)).max() for g in t.frames)
    return d * min(1.0, 0.45 / m) if m > 0 else d


def tensors(A):
    return ["tensors", RR(np.asarray(A))]


def norm(u):
    return u / np.linalg.norm(u)


def build(t, rec):
    """Models of one kind in every description, given the same data."""
    from ramannoodle.pmodel import ARTModel, InterpolationModel

    rng = t.rng
    art = rng.random() < 0.4
    ref = 5 * rec.cry.symmetric_tensor(rng)
    models = []

    def new(k, g):
        s, _ = t.structures[k]
        models.append((ARTModel if art else InterpolationModel)(s, g.tensor(ref)))
        return [tensors([models[-1].ref_polarizability])] if hasattr(models[-1], "ref_polarizability") else []

    t.ask("new-model", new, lambda g: [tensors([g.tensor(ref)]), ["exact", "art" if art else "interp"]], must=True)
    if len(models) < len(t.frames):
        return None
    rec.refpol = [ref]
    for _ in range(int(rng.integers(1, 4))):
        ex = list(models[0].cart_basis_vectors)
        atom = int(rng.integers(rec.N)) if art or rng.random() < 0.3 else None
        mine = ex if atom is None else [v for v in ex if np.abs(v[atom]).max() > 1e-5]
        u = clean(rec, atom, mine)
        if u is None:
            continue
        flip = rec.cry.has_flip(u)
        k = 1 if art else int(rng.integers(1, 5))
        incl = art or bool(rng.random() < 0.7)
        need = k if incl else k + 1
        num_ = (1 if flip else 2) if art else max(1, (int(np.ceil(need / 2)) if flip else need) + int(rng.integers(0, 2)))
        if rng.random() < 0.1 and num_ > 1:
            num_ -= 1  # perhaps too few
        amps = rec.amplitudes(num_, flip, zero=incl)
        if amps is None:
            continue
        pols = rec.data(0, u, amps, k, bool(rng.random() < 0.5))
        scale = float(rng.choice([1.0, 0.01, 30.0]))

        def add(i, g):
            if art:
                models[i].add_art(g.atom(atom), g.vector(u[atom]) * scale, amps.copy(), g.tensor(pols))
            else:
                models[i].add_dof(g.field(u) * scale, amps.copy(), g.tensor(pols), k, incl)
            return [["lines", RR(np.array(models[i].cart_basis_vectors))], ["exact", int(np.sum(models[i].mask))]]

        t.ask(
            "add-art" if art else "add-dof", add,
            lambda g: [["field", RR(g.field(u) * scale)], ["numbers", RR(amps)], tensors(g.tensor(pols)), ["exact", [k, incl]]],
            adds=dict(disp=RR(u), ref=RR(ref), amps=RR(amps), pols=RR(pols)),
        )
        if rng.random() < 0.4:
            questions(t, rec, models, u, amps)
    questions(t, rec, models, None, None)
    return models


def clean(rec, atom, existing):
    """A direction whose images are parallel or orthogonal to it, if possible."""
    best = None
    for _ in range(12):
        u = rec.direction(single=atom, existing=existing, nice=bool(rec.rng.random() < 0.7))
        if u is None:
            continue
        if rec.rng.random() < 0.5:  # symmetrise over a subgroup with signs
            g = rec.cry.group()[int(rec.rng.integers(len(rec.cry.group())))]
            s = int(rec.rng.choice([-1, 1]))
            w, v = u, u
            for _ in range(12):
                v = s * rec.cry.image(g, v)
                w = w + v
            for x in existing:
                w = w - np.sum(w * x) * x
            if np.linalg.norm(w) > 0.3 and not rec.cry.grey(w, existing):
                u = norm(w)
        best = u
        c = [abs(np.sum(u * rec.cry.image(g, u))) for g in rec.cry.group()]
        if all(x < 1e-9 or x > 1 - 1e-9 for x in c):
            return u
    return best


def moved(rec, rng, models):
    """Configurations, as fractional displacements of the first description."""
    ex = models[0].cart_basis_vectors
    out = [rng.normal(size=(rec.N, 3)) * 0.06 for _ in range(2)]
    if ex:
        c = rng.uniform(-0.2, 0.2, size=len(ex)) * (rng.random(len(ex)) < 0.7)
        out.append(np.tensordot(c, np.array(ex), axes=1))
        out.append(ex[int(rng.integers(len(ex)))] * float(rng.uniform(-0.4, 0.4)))
    inv = np.linalg.inv(rec.cry.L)
    return np.array([u @ inv for u in out])


def questions(t, rec, models, u, amps):
    from ramannoodle.dynamics import Phonons, Trajectory

    rng = t.rng
    P = rec.cry.positions
    conf = P + np.array([small(t, d) for d in moved(rec, rng, models)])
    if rng.random() < 0.5:
        conf = conf + rng.integers(-2, 3, size=conf.shape)
    use = models
    if len(models[0].cart_basis_vectors) and rng.random() < 0.4:
        ex = models[0].cart_basis_vectors
        drop = [ex[i] for i in range(len(ex)) if rng.random() < 0.4]
        use = list(models)

        def mask(k, g):
            mine = models[k].cart_basis_vectors
            idx = [i for i, v in enumerate(mine) if any(abs(np.sum(v * g.field(d))) > 0.99 for d in drop)]
            use[k] = models[k].get_masked_model(idx)
            return [["exact", int(np.sum(use[k].mask))]]

        t.ask("masked-model", mask, lambda g: [["lines", RR(g.field(np.array(drop)) if drop else [])]])
    t.ask(
        "prediction", lambda k, g: [tensors(use[k].calc_polarizabilities(g.pos(conf)))],
        lambda g: [["positions", RR(g.pos(conf))]], must=True,
    )
    if rng.random() < 0.6:
        M = int(rng.integers(1, 4))
        wn = np.round(rng.uniform(50, 900, M), 3)
        ds = rng.normal(size=(M, rec.N, 3)) * 0.3 @ np.linalg.inv(rec.cry.L)
        flags = dict(laser_correction=bool(rng.random() < 0.5), bose_einstein_correction=bool(rng.random() < 0.5), temperature=float(rng.uniform(50, 900)))

        def phonons(k, g):
            s = Phonons(g.pos(P), wn.copy(), g.frac(ds)).get_raman_spectrum(use[k])
            w, I = s.measure(**flags)
            return [tensors(s.raman_tensors), ["numbers", RR(w)], ["spectrum", RR(I)]] if sym(s.raman_tensors) else [tensors(s.raman_tensors), ["numbers", RR(w)]]

        t.ask("phonon-spectrum", phonons, lambda g: [["numbers", RR(wn)], ["fractions", RR(g.frac(ds))], ["exact", sorted(map(str, flags.items()))]], must=True)
    if rng.random() < 0.4:
        n = int(rng.integers(3, 12))
        ts = P + small(t, rng.normal(size=(n, rec.N, 3)) * 0.05 @ np.linalg.inv(rec.cry.L))
        dt = float(rng.choice([0.5, 1.0, 2.0]))

        def md(k, g):
            s = Trajectory(g.pos(ts), dt).get_raman_spectrum(use[k])
            w, I = s.measure()
            pol = s.polarizability_ts
            return [tensors(pol), ["numbers", RR(w)], ["spectrum", RR(I)]] if sym(pol) else [tensors(pol), ["numbers", RR(w)]]

        t.ask("md-spectrum", md, lambda g: [["positions", RR(g.pos(ts))], ["numbers", R(dt)]], must=True)


def sym(T):
    return bool(np.abs(T - np.transpose(T, (0, 2, 1))).max(initial=0) < 1e-7 * (1 + np.abs(T).max(initial=0)))


def structural(t, rec):
    """Questions to the reference structure alone."""
    from ramannoodle.structure import get_ast_displaced_positions, get_displaced_positions
    from ramannoodle.structure.utils import calc_displacement

    rng = t.rng
    P, N = rec.cry.positions, rec.N

    def classes(k, g):
        s = t.structures[k][0]
        d = s.get_equivalent_atom_dict()
        return [["classes", [[int(a) + 1 for a in [i] + list(js)] for i, js in d.items()]], ["exact", int(s.num_nonequivalent_atoms)]]

    t.ask("equivalent-atoms", classes, lambda g: [], model=False, must=True)
    u = clean(rec, None if rng.random() < 0.5 else int(rng.integers(N)), [])
    if u is not None:
        def images(k, g):
            s = t.structures[k][0]
            L = s.lattice
            out = s.get_equivalent_displacements(g.field(u * 0.05) @ np.linalg.inv(L))
            return [["lines", RR(np.array([norm(d["displacements"][0] @ L) for d in out]))],
                    ["fields", RR(np.array([norm(v @ L) for d in out for v in d["displacements"]]))]]

        t.ask("equivalent-displacements", images, lambda g: [["field", RR(g.field(u))]], model=False, orbit=RR(u), must=True)
        amps = rng.uniform(-0.2, 0.2, 2)
        t.ask(
            "displaced-positions", lambda k, g: [["positions", RR(np.array(get_displaced_positions(t.structures[k][0], g.field(u), amps)))]],
            lambda g: [["field", RR(g.field(u))], ["numbers", RR(amps)]], model=False, must=True,
        )
        i, v = int(rng.integers(N)), rng.normal(size=3)
        t.ask(
            "displaced-atom", lambda k, g: [["positions", RR(np.array(get_ast_displaced_positions(t.structures[k][0], g.atom(i), g.vector(v), amps)))]],
            lambda g: [["atom", g.atom(i) + 1], ["vector", RR(g.vector(v))], ["numbers", RR(amps)]], model=False, must=True,
        )
    w = small(t, rng.normal(size=(N, 3)) * 0.1 @ np.linalg.inv(rec.cry.L))
    t.ask(
        "displacement", lambda k, g: [["field", RR(t.structures[k][0].get_cart_displacement(calc_displacement(t.structures[k][1], g.pos(P + w))))]],
        lambda g: [["positions", RR(g.pos(P + w)[None])]], model=False, must=True,
    )
    from ramannoodle.constants import ATOM_SYMBOLS

    z = ATOM_SYMBOLS[rec.cry.sp[int(rng.integers(N))]]
    t.ask("atom-indexes", lambda k, g: [["atoms", [int(a) + 1 for a in t.structures[k][0].get_atom_indexes(z)]]], lambda g: [["exact", z]], model=False, must=True)


def prof_frames(rng, focus, tmp=None):
    names = sorted(CRYSTALS)
    rec = Recorder(rng, names[int(rng.integers(len(names)))], focus, tmp=tmp)
    t = Frames(rng, focus, tmp, crystal=rec.cry.js(), K=rec.cry.K)
    if not t.describe(rec.cry.L, rec.cry.positions, rec.cry.sp, num=int(rng.integers(1, 4))):
        return t.trace()
    structural(t, rec)
    build(t, rec)
    return t.trace()


def _prof_network(rng, focus, tmp=None, double=True):
    """One PotGNN in several orientations, origins and numberings."""
    import torch

    from ramannoodle.pmodel.torch import PotGNN

    from .graph import structure

    L, sp, P, cut, E, _ = structure(rng)
    t = Frames(rng, focus, tmp, crystal={"n": 1, "G": I3.tolist(), "pos": [[0, 0, 0]] * len(sp), "sp": [int(z) for z in sp], "L": RR(L)}, P=P)
    if not E or not t.describe(L, P, sp, num=2, gentle=True):
        return t.trace()
    mean, sd = np.zeros((3, 3)), np.ones((3, 3))
    size = (int(rng.integers(3, 7)), int(rng.integers(4, 9)), int(rng.integers(1, 4)))
    torch.manual_seed(int(rng.integers(1 << 30)))
    models: list = []

    def new(k, g):
        m = PotGNN(t.structures[k][0], cut, *size, 0.0, cut + 1.0, mean, sd)
        if models:
            m.load_state_dict(models[0].state_dict())
        m.eval()
        models.append(m)
        return []

    t.ask("new-network", new, lambda g: [["exact", list(size)]], must=True, model=False)
    if len(models) < len(t.frames):
        return t.trace()
    inv = np.linalg.inv(L)
    for _ in range(2):
        conf = P + small(t, rng.normal(size=(int(rng.integers(1, 4)), len(sp), 3)) * 0.1 @ inv)
        t.ask("network-prediction", lambda k, g: [tensors(models[k].calc_polarizabilities(g.pos(conf)))],
              lambda g: [["positions", RR(g.pos(conf))]], must=True, model=False)
    return t.trace()


prof_network = quiet(_prof_network)


def run(ctx):
    cfg = "CONSTANTS Start = {} MaxLen = 2 K = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nVIEW View\n" + "".join(
        f"INVARIANT {i}\n" for i in ("Composed", "Distances", "Symmetry")
    )
    for st, K in ctx.pick([(1, 2)], [(1, 3), (2, 3), (3, 3)]):
        ctx.model_check("FrameMC", cfg.format(st, K))
    ctx.validate("FrameTrace", drive.scenarios(ctx, S, "prof_frames", ctx.pick(120, 2000)), "questions in several descriptions", chunk=20)
    ctx.validate("FrameTrace", drive.scenarios(ctx, S, "prof_network", ctx.pick(40, 600), start=9000, double=True), "networks in several descriptions", chunk=20)
