"""Structures and questions that show the neighbour graph of a PotGNN (C26)."""

from __future__ import annotations

import hashlib
import itertools

import numpy as np

from . import drive
from .core import R, RR
from .crystals import CRYSTALS, Crystal
from .gnn import quiet
from .trace import Tracer

S = "harness.graph"
IMAGES = np.array(list(itertools.product((-1, 0, 1), repeat=3)))


def distances(L, P):
    """Minimum-image distances, and whether they are unambiguous."""
    d = P[:, None] - P[None]
    d = d - np.rint(d)
    dist = np.linalg.norm(d @ L, axis=-1)
    near = np.min(np.linalg.norm((d[:, :, None] + IMAGES) @ L, axis=-1), axis=-1)
    off = np.abs(np.abs(d) - 0.5).min(axis=-1) + np.eye(len(P))
    return dist, (np.abs(near - dist) < 1e-9) & (off > 1e-3)


def components(E, N):
    comp = list(range(N))
    for _ in range(N):
        for i, j in E:
            comp[i] = comp[j] = min(comp[i], comp[j])
    return comp


def clusters(rng):
    """Groups of atoms anywhere in the cell (also across its faces)."""
    L = np.diag(rng.uniform(9, 15, 3)) + rng.normal(size=(3, 3)) * 0.3
    if rng.random() < 0.3:
        L = L @ np.linalg.qr(rng.normal(size=(3, 3)))[0]
    P = []
    for _ in range(int(rng.integers(1, 4))):
        c = rng.random(3) if rng.random() < 0.6 else rng.choice([0.0, 0.98, 0.02, 0.5], size=3)
        for _ in range(int(rng.integers(1, 4))):
            v = rng.normal(size=3)
            P.append(c + (v / np.linalg.norm(v) * rng.uniform(0.8, 2.2)) @ np.linalg.inv(L))
    P = np.array(P)
    return L, rng.choice([8, 22, 14], size=len(P)).tolist(), P - np.floor(P)


def structure(rng):
    """(L, species, positions, cutoff, links, components) without doubtful distances."""
    while True:
        if rng.random() < 0.3:
            cry = Crystal(sorted(CRYSTALS)[int(rng.integers(len(CRYSTALS)))], rng)
            L, sp, P = cry.L.copy(), list(cry.sp), cry.positions.copy()
        else:
            L, sp, P = clusters(rng)
        N = len(sp)
        if not 2 <= N <= 8:
            continue
        dist, clear = distances(L, P)
        far = dist[np.triu_indices(N, 1)]
        if far.min() < 0.6 or len(set(sp)) > 4:
            continue
        ds = np.append(np.sort(far), far.max() + 4)
        gaps = [k for k in range(len(far)) if ds[k + 1] - ds[k] > 0.04]
        if not gaps:
            continue
        k = gaps[int(rng.integers(len(gaps)))]
        lo, hi = ds[k], ds[k + 1]
        cut = float(rng.uniform(lo + 0.01, hi - 0.01)) if rng.random() < 0.5 else float(rng.choice([lo + 0.01, hi - 0.01]))
        # every image of a pair has to be on one side of the cutoff
        if np.any(~clear & (np.eye(N) == 0)):
            continue
        E = [(i, j) for i in range(N) for j in range(N) if i != j and dist[i, j] <= cut]
        if len(E) > 40:
            continue
        return L, sp, P, cut, E, components(E, N)


def crowd(rng):
    """Many atoms, nearly all of which are linked to each other."""
    N = int(rng.choice([13, 14, 18, 34, 36]))
    while True:
        n = [int(np.ceil(N ** (1 / 3)))] * 3
        g = np.array(list(itertools.product(*map(range, n))))[rng.permutation(n[0] ** 3)[:N]] / n[0]
        L = np.diag(rng.uniform(1.8, 2.4, 3) * n[0]) + rng.normal(size=(3, 3)) * 0.1
        P = (g + rng.uniform(-0.05, 0.05, g.shape) + rng.random(3)) % 1
        dist, _ = distances(L, P)
        far = np.sort(dist[np.triu_indices(N, 1)])
        d = P[:, None] - P[None]
        if np.abs(np.abs(d - np.rint(d)) - 0.5).min() < 1e-4 or far[0] < 0.5:
            continue
        cut = float(far[-1] + 0.3)
        sp = rng.choice([8, 22], size=N, p=[0.8, 0.2]).tolist()
        return L, sp, P, cut, [(i, j) for i in range(N) for j in range(N) if i != j], [0] * N


class Shown(Tracer):
    def __init__(self, rng, focus, tmp=None, double=True, make=structure):
        import torch

        from ramannoodle.pmodel.torch import PotGNN
        from ramannoodle.structure import ReferenceStructure

        super().__init__(rng, focus, tmp)
        torch.manual_seed(int(rng.integers(1 << 30)))
        self.L, self.sp, self.ref, self.cut, self.E, self.comp = make(rng)
        self.N = len(self.sp)
        m, s = rng.normal(size=(3, 3)), rng.uniform(0.5, 2, (3, 3))
        self.mean = m + m.T
        self.std = (s + s.T) / 2
        self.head.update(
            L=RR(self.L), sp=[int(z) for z in self.sp], ref=RR(self.ref), cutoff=R(self.cut), mean=RR(self.mean),
            tol="1e-9" if double else "2e-4", notice="1e-9" if double else "0",
        )
        structure_, _ = self.call(ReferenceStructure, list(self.sp), self.L.copy(), self.ref.copy())
        self.args = [
            structure_, self.cut, int(rng.integers(3, 7)), int(rng.integers(4, 9)), int(rng.integers(1, 4)), 0.0,
            self.cut + float(rng.uniform(0.5, 3)), self.mean.copy(), self.std.copy(),
        ]
        self.model, res = self.call(PotGNN, *self.args)
        self.add("built", res=res)
        if res == "ok":
            self.model.eval()

    def print_(self):
        h = hashlib.sha256()
        for t in list(self.model.parameters()) + list(self.model.buffers()):
            h.update(t.detach().numpy().tobytes())
        return h.hexdigest()

    def ask(self, Ps):
        Ps = np.array(Ps)
        out, res = self.call(self.model.calc_polarizabilities, Ps)
        for k, P in enumerate(Ps):
            self.add("answer", P=RR(P), res=res, out=RR(out[k]) if res == "ok" else [])

    def moves(self, atoms, wild=False):
        """Displacements of some atoms."""
        u = np.zeros((self.N, 3))
        for i in atoms:
            if wild and not any(i in e for e in self.E):
                u[i] = self.rng.uniform(-0.45, 0.45, 3)
            else:
                v = self.rng.normal(size=3)
                u[i] = (v / np.linalg.norm(v) * self.rng.uniform(0.2, 0.4)) @ np.linalg.inv(self.L)
        return u

    def questions(self):
        rng, N = self.rng, self.N
        base = self.ref + (self.moves(range(N)) if rng.random() < 0.5 else 0)
        asks = [base]
        fields = {}
        for i in range(N):
            fields[i] = self.moves([i], wild=True)
            asks.append(base + fields[i])
        groups = sorted(set(self.comp))
        if len(groups) > 1:
            a, b = rng.permutation(groups)[:2]
            x = self.moves([i for i in range(N) if self.comp[i] == a], wild=True)
            y = self.moves([i for i in range(N) if self.comp[i] == b], wild=True)
            asks += [base + x, base + y, base + x + y]
            i, j = (int(rng.choice([k for k in range(N) if self.comp[k] == g])) for g in (a, b))
            asks.append(base + fields[i] + fields[j])
        asks = [p + (rng.integers(-2, 3, size=p.shape) if rng.random() < 0.3 else 0) for p in asks]
        if rng.random() < 0.5:
            self.ask(asks)
        else:
            k = int(rng.integers(1, len(asks)))
            self.ask(asks[:k]), self.ask(asks[k:])

    def renamings(self):
        rng, N = self.rng, self.N
        E = set(self.E)
        found = []
        for _ in range(60):
            f = list(range(N))
            for _ in range(int(rng.integers(1, 3))):
                i, j = rng.integers(N, size=2)
                f[i], f[j] = f[j], f[i]
            if f != list(range(N)) and all(self.sp[f[i]] == self.sp[i] for i in range(N)) and {(f[i], f[j]) for i, j in E} == E:
                found.append(f)
        for f in found[:2]:
            P = self.ref + self.moves(range(N))
            Q = np.zeros_like(P)
            Q[f] = P
            out, res = self.call(self.model.calc_polarizabilities, np.array([P]))
            out2, res2 = self.call(self.model.calc_polarizabilities, np.array([Q]))
            ok = res == res2 == "ok"
            self.add("rename", perm=[i + 1 for i in f], res=res if res != "ok" else res2,
                     plain=RR(out[0]) if ok else [], out=RR(out2[0]) if ok else [])

    def network(self):
        import torch

        rng = self.rng
        t = torch.get_default_dtype()
        P = self.ref + self.moves(range(self.N))
        signs = [np.array(s) for s in itertools.product((1, -1), repeat=3)]
        batch, mirror = [(self.L, P)], [[1, 1, 1]]
        for k in rng.permutation(8)[:3]:
            s = signs[k]
            batch.append((self.L * s, P if rng.random() < 0.6 else -P))
            mirror.append([int(v) for v in s])
        batch.append((self.L * rng.uniform(0.97, 1.03, (3, 3)), P))
        mirror.append([])
        batch.append((self.L, self.ref + self.moves(range(self.N))))
        mirror.append([])

        def run(items):
            lat = torch.tensor(np.array([x for x, _ in items])).type(t)
            pos = torch.tensor(np.array([x for _, x in items])).type(t)
            num = torch.tensor(self.sp, dtype=torch.int).unsqueeze(0).expand(len(items), self.N)
            return self.model(lat, num, pos).detach().numpy()

        self.model.eval()
        o = list(range(1, len(batch)))
        out, res = self.call(run, batch)
        alone = []
        for x in batch:
            one, r = self.call(run, [x])
            res = r if r != "ok" else res
            alone.append(one)
        ok = res == "ok"
        self.add("forward", res=res, out=RR(out) if ok else [], alone=[RR(a[0]) for a in alone] if ok else [], mirror=mirror)
        return o

    def train(self):
        import torch

        t = torch.get_default_dtype()
        n = 3
        self.model.train()
        P = torch.tensor(np.array([self.ref + self.moves(range(self.N)) for _ in range(n)])).type(t)
        lat = torch.tensor(self.L).type(t).unsqueeze(0).expand(n, 3, 3)
        num = torch.tensor(self.sp, dtype=torch.int).unsqueeze(0).expand(n, self.N)
        opt = torch.optim.Adam(self.model.parameters(), lr=0.02)
        for _ in range(2):
            opt.zero_grad()
            ((self.model(lat, num, P) - 1) ** 2).mean().backward()
            opt.step()
        self.model.eval()

    def reset(self, seed):
        import torch

        torch.manual_seed(seed)
        _, res = self.call(self.model.reset_parameters)
        self.add("reset", seed=int(seed), res=res, weights=self.print_() if res == "ok" else "")

    def reject(self):
        from ramannoodle.pmodel.torch import PotGNN

        rng = self.rng
        z = np.zeros((3, 3))
        bad = [
            ("cutoff", 1, 0.0), ("cutoff", 1, -2.5), ("node-size", 2, 0), ("node-size", 2, -3), ("edge-size", 3, 0), ("edge-size", 3, -1),
            ("passes", 4, 0), ("passes", 4, -1), ("filter-start", 5, -0.25), ("filter-end", 6, 0.0), ("filter-end", 6, -1.0),
            ("mean", 7, z[:2]), ("mean", 7, z.tolist()), ("mean", 7, z[None]), ("stddev", 8, z.ravel()), ("stddev", 8, None), ("stddev", 8, 1.0),
        ]
        for k in rng.permutation(len(bad))[:3]:
            what, i, v = bad[k]
            args = list(self.args)
            args[i] = v
            _, res = self.call(PotGNN, *args)
            self.add("bad", what=what, res=res)


def _prof_graph(rng, focus, tmp=None, double=True):
    t = Shown(rng, focus, tmp, double)
    if t.model is None:
        return t.trace()
    t.questions()
    t.renamings()
    t.network()
    a, b = (int(x) for x in rng.integers(1 << 30, size=2))
    t.reset(a)
    t.train()
    if rng.random() < 0.5:
        t.reset(b)
    t.questions()
    t.reset(a)
    t.network()
    t.reject()
    return t.trace()


def _prof_crowd(rng, focus, tmp=None, double=True):
    t = Shown(rng, focus, tmp, double, make=crowd)
    if t.model is None:
        return t.trace()
    P = t.ref + t.moves(range(t.N))
    i = int(rng.integers(t.N))
    t.ask([P, P + t.moves([i]), P + rng.integers(-1, 2, size=P.shape)])
    t.renamings()
    return t.trace()


prof_graph, prof_crowd = quiet(_prof_graph), quiet(_prof_crowd)


def run(ctx):
    cfg = "CONSTANTS N = {} Rounds = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" + "".join(
        f"INVARIANT {i}\n" for i in ("Local", "Additive", "Isolated", "Heard", "Everything")
    )
    ctx.model_check("GraphMC", cfg.format(ctx.pick(4, 5), ctx.pick(4, 5)))
    ctx.validate("GraphTrace", drive.scenarios(ctx, S, "prof_graph", ctx.pick(70, 1200)), "graphs shown by predictions", chunk=20)
    ctx.validate("GraphTrace", drive.scenarios(ctx, S, "prof_crowd", ctx.pick(12, 150), start=9000), "crowded graphs", chunk=2)
