"""Histories of PotGNN predictions (C23)."""

from __future__ import annotations

import hashlib

import numpy as np

from . import drive
from .core import R, RR
from .crystals import CRYSTALS, Crystal
from .trace import Tracer

S = "harness.gnn"


class Net(Tracer):
    def __init__(self, rng, focus, tmp=None, double=True, kinds=4):
        import torch

        from ramannoodle.pmodel.torch import PotGNN
        from ramannoodle.structure import ReferenceStructure

        super().__init__(rng, focus, tmp)
        torch.manual_seed(int(rng.integers(1 << 30)))
        while True:
            self.cry = Crystal(sorted(CRYSTALS)[int(rng.integers(len(CRYSTALS)))], rng)
            if 2 <= len(self.cry.sp) <= 8:
                break
        N = self.N = len(self.cry.sp)
        self.L, self.sp = self.cry.L.copy(), list(self.cry.sp)
        self.ref = ReferenceStructure(self.sp, self.L, self.cry.positions)
        # every atom has an edge, few enough edges to be quick
        d = self.cry.positions[:, None] - self.cry.positions[None]
        dist = np.linalg.norm((d - np.round(d)) @ self.L, axis=-1) + 1e3 * np.eye(N)
        cut = np.sort(dist.ravel())[: max(2, min(N * (N - 1), 24))].max() + 1e-3
        cut = max(cut, dist.min(axis=1).max() + 1e-3)
        m, s = rng.normal(size=(3, 3)), rng.uniform(0.3, 3, (3, 3))
        self.mean, self.std = (m + m.T) * 2, (s + s.T) / 2
        if rng.random() < 0.3:
            self.std = self.std * 10.0 ** rng.integers(-4, 3)
            if rng.random() < 0.5:
                self.mean = self.mean * np.abs(self.std).max()
        self.model = PotGNN(
            self.ref, float(cut), int(rng.integers(1, 5)), int(rng.integers(2, 6)), int(rng.integers(1, 4)), 0.0,
            float(rng.uniform(3, 8)), self.mean.copy(), self.std.copy(),
        )
        self.model.eval()
        # statistics and weights away from their initial values
        for b in self.model.buffers():
            if b.dtype.is_floating_point and b.ndim == 1 and "offset" not in [n for n, x in self.model.named_buffers() if x is b][0]:
                b.add_(torch.rand(b.shape) * 0.5)
        self.samples = [self._sample() for _ in range(kinds)]
        self.head.update(
            samples=[RR(x) for x in self.samples], weights=self.print_(), mean=RR(self.mean), std=RR(self.std),
            tol="1e-8" if double else "2e-4",
        )

    def _sample(self):
        """Displaced positions with no pair half a cell apart (where the image jumps)."""
        while True:
            P = self.cry.positions + self.rng.normal(size=(self.N, 3)) * 0.03
            d = P[:, None] - P[None]
            off = np.abs(np.abs(d - np.round(d)) - 0.5)
            if off.min() > 1e-3:
                return P

    def print_(self):
        h = hashlib.sha256()
        for t in list(self.model.parameters()) + list(self.model.buffers()):
            h.update(t.detach().numpy().tobytes())
        return h.hexdigest()

    def present(self, k):
        """Sample k as it may be given: shifted by lattice vectors, translated."""
        rng = self.rng
        P = self.samples[k].copy()
        c = rng.random()
        if c < 0.3:
            P = P + rng.integers(-2, 3, size=P.shape)
        elif c < 0.55:
            P = P + rng.uniform(-1, 1, 3)
        elif c < 0.7:
            P = P - np.floor(P)
        elif c < 0.8:
            P = P + rng.integers(-1, 2, size=P.shape) + rng.uniform(-0.5, 0.5, 3)
        return P

    def predict(self, ids):
        P = np.array([self.present(k) for k in ids]).reshape(len(ids), self.N, 3)
        out, res = self.call(self.model.calc_polarizabilities, P)
        short = len(ids) > 20
        keep = sorted(set(self.rng.choice(len(ids), 6).tolist()) | {0, len(ids) - 1, 98, 99, 100, 101} & set(range(len(ids)))) if short else range(len(ids))
        ok = res == "ok" and len(out) == len(ids)
        self.add(
            "predict", res=res, n=len(ids), ids=[int(ids[i]) + 1 for i in keep], P=[RR(P[i]) for i in keep],
            out=[RR(out[i]) for i in keep] if ok else (RR(np.asarray(out)) if res == "ok" else []), after=self.print_(),
        )

    def forward(self, ids):
        import torch

        t = torch.get_default_dtype()
        n = len(ids)
        P = torch.tensor(np.array([self.present(k) for k in ids])).type(t)
        lat = torch.tensor(self.L).type(t).unsqueeze(0).expand(n, 3, 3)
        num = torch.tensor(self.sp, dtype=torch.int).unsqueeze(0).expand(n, self.N)
        out, res = self.call(lambda: self.model(lat, num, P).detach().numpy())
        self.add("forward", res=res, ids=[int(k) + 1 for k in ids], out=RR(out) if res == "ok" else [], after=self.print_())

    def train(self, ids):
        import torch

        t = torch.get_default_dtype()
        n = len(ids)
        self.model.train()
        P = torch.tensor(np.array([self.samples[k] for k in ids])).type(t)
        lat = torch.tensor(self.L).type(t).unsqueeze(0).expand(n, 3, 3)
        num = torch.tensor(self.sp, dtype=torch.int).unsqueeze(0).expand(n, self.N)
        opt = torch.optim.SGD(self.model.parameters(), lr=0.05)
        _, res = self.call(lambda: (self.model(lat, num, P) ** 2).mean().backward())
        opt.step()
        self.add("train", res=res, after=self.print_())

    def switch(self, on):
        self.model.train(on)
        self.add("switch", after=self.print_())

    def reject(self):
        bad = [
            np.zeros((self.N, 3)), np.zeros((2, self.N + 1, 3)), np.zeros((2, self.N, 2)), [[[0, 0, 0]] * self.N], None,
            np.zeros((1, 1, self.N, 3)), np.zeros((2, 3, self.N + 3)),
        ]
        x = bad[int(self.rng.integers(len(bad)))]
        _, res = self.call(self.model.calc_polarizabilities, x)
        self.add("reject", res=res, after=self.print_())


def quiet(fn):
    def g(rng, focus, tmp=None, **kw):
        import torch

        torch.set_num_threads(1)
        double = kw.pop("double", None)
        double = bool(rng.random() < 0.6) if double is None else double
        torch.set_default_dtype(torch.float64 if double else torch.float32)
        try:
            return fn(rng, focus, tmp=tmp, double=double, **kw)
        finally:
            torch.set_default_dtype(torch.float32)

    return g


def _replay(rng, focus, tmp=None, double=True, hist=(), scale=1):
    """A behaviour of GnnMC (sizes may be scaled up to cross sub-batches)."""
    t = Net(rng, focus, tmp, double, kinds=4)
    t.predict([0, 1, 2, 3])
    training = True
    t.switch(True)
    for r in hist:
        n = r["n"] * scale if r["n"] > 2 else r["n"]
        ids = [r["x"] if i % 2 else r["y"] for i in range(n)]
        if r["act"] == "predict":
            t.predict(ids)
            training = False
        elif r["act"] == "forward":
            t.forward(ids)
        elif r["act"] == "train":
            t.train([i % 4 for i in range(n)])
        else:
            training = not training
            t.switch(training)
    for k in range(4):
        t.predict([k])
    return t.trace()


def _history(rng, focus, tmp=None, double=True, steps=9, long=False):
    t = Net(rng, focus, tmp, double, kinds=5)
    for k in range(5):
        t.predict([k])
    for _ in range(steps):
        k = int(rng.integers(8))
        n = int(rng.choice([1, 2, 3, 4, 5, 7, 11, 0]))
        if long and rng.random() < 0.35:
            n = int(rng.choice([99, 100, 101, 150, 200, 201, 237]))
        ids = rng.integers(5, size=n).tolist()
        if k <= 3:
            t.predict(ids)
        elif k == 4:
            t.model.eval()
            t.forward(ids[:12] or [0])
        elif k == 5:
            t.train(rng.integers(5, size=int(rng.integers(2, 6))).tolist())
        elif k == 6:
            t.switch(bool(rng.random() < 0.5))
        else:
            t.reject()
    t.predict([4, 3, 2, 1, 0])
    for k in range(5):
        t.predict([k])
    return t.trace()


replay, history = quiet(_replay), quiet(_history)


def run(ctx):
    cfg = (
        "CONSTANTS Nodes = {} Piece = {} Sizes = {} Samples = {{0, 1}} MaxLen = {}\n"
        "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bounded\n"
    )
    inv = "VIEW View\nINVARIANT CacheIsFresh\nINVARIANT OneResult\nINVARIANT Intact\n"
    ctx.model_check("GnnMC", cfg.format(2, 2, "{0, 1, 2, 3, 5}", ctx.pick(4, 5)) + inv)
    hists = ctx.behaviours(
        "GnnMC", cfg.format(3, 4, "{0, 1, 2, 3, 4, 5, 9}", 8) + "INVARIANT PrintHist\n",
        num=ctx.pick(300, 3000), depth=12,
    )
    hists = list({str(h): h for h in hists}.values())
    pick = np.random.default_rng([ctx.seed, 3]).permutation(len(hists))
    hists = [hists[i] for i in sorted(pick[: ctx.pick(60, 600)])]
    traces = drive.generate(ctx, [(S, "replay", i, {"hist": h}) for i, h in enumerate(hists)])
    ctx.validate("GnnTrace", traces, "spec behaviours replayed on PotGNN", chunk=30)
    traces = drive.scenarios(ctx, S, "history", ctx.pick(40, 500), start=7000)
    traces += drive.scenarios(ctx, S, "history", ctx.pick(14, 150), start=8000, long=True, steps=6)
    ctx.validate("GnnTrace", traces, "histories of predictions", chunk=30)
