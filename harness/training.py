"""Recorded training epochs (C24): the network, loss and optimizer report what happens."""

from __future__ import annotations

import numpy as np

from . import drive
from .core import R, RR
from .trace import Tracer

S = "harness.training"


def flat(ts):
    return np.concatenate([t.detach().double().numpy().ravel() for t in ts]) if ts else np.zeros(0)


class Recorder(Tracer):
    def __init__(self, rng, focus, tmp=None, tol="1e-9"):
        super().__init__(rng, focus, tmp, tol=tol)
        self.model = None
        self.opts: list = []

    def W(self):
        return RR(flat([p for p in self.model.parameters()]))

    def buf(self):
        return RR(flat([b for b in self.model.buffers()]))

    # ------------------------------------------------------------- recorded parts
    def watch(self, cls, *args, **kwargs):
        """A network of class cls whose forward passes are recorded."""
        rec = self

        class Watched(cls):
            def forward(self, lattice, atomic_numbers, positions):
                W, buf = rec.W(), rec.buf()
                out = super().forward(lattice, atomic_numbers, positions)
                rec.add(
                    "forward", training=bool(self.training), W=W, buf=buf, out=RR(out.detach().numpy()),
                    X=[
                        {"L": RR(lattice[i].numpy()), "sp": [int(z) for z in atomic_numbers[i]], "P": RR(positions[i].numpy())}
                        for i in range(len(positions))
                    ],
                )
                return out

        self.model = Watched(*args, **kwargs)
        return self.model

    def loss(self, kind):
        import torch
        from torch.nn.modules.loss import _Loss

        rec = self
        inner = {
            "mse": torch.nn.MSELoss(), "mse-sum": torch.nn.MSELoss(reduction="sum"), "l1": torch.nn.L1Loss(),
            "other": torch.nn.SmoothL1Loss(beta=0.3),
        }[kind]

        class Watched(_Loss):
            def forward(self, out, target):
                value = inner(out, target)
                grad = []
                if rec.model.training and value.requires_grad:
                    params = list(rec.model.parameters())
                    gs = torch.autograd.grad(value, params, retain_graph=True, allow_unused=True)
                    grad = RR(flat([torch.zeros_like(p) if g is None else g for g, p in zip(gs, params)]))
                rec.add(
                    "loss", out=RR(out.detach().numpy()), target=RR(target.detach().numpy()), value=R(float(value)), grad=grad,
                    buf=rec.buf(),
                )
                return value

        return Watched()

    def optimizer(self, kind, rng, calm=1.0):
        import torch

        rec = self
        lr = float(rng.choice([0.3, 0.05, 0.01])) * calm
        opt = {"kind": kind, "lr": R(lr), "mu": R(0), "decay": R(0), "b1": R(0), "b2": R(0), "eps": R(0)}
        if kind == "adam":
            kw = {"lr": lr / 10, "betas": (0.9, 0.99), "eps": 1e-3, "weight_decay": float(rng.choice([0, 0.1]))}
            opt.update(lr=R(kw["lr"]), b1=R(0.9), b2=R(0.99), eps=R(1e-3), decay=R(kw["weight_decay"]))
            base = torch.optim.Adam
        else:
            mu = float(rng.choice([0, 0.5, 0.9]))
            kw = {"lr": lr / 10 if mu else lr, "momentum": mu, "weight_decay": float(rng.choice([0, 0.2]))}
            opt.update(lr=R(kw["lr"]), mu=R(mu), decay=R(kw["weight_decay"]))
            base = torch.optim.SGD

        class Watched(base):
            def step(self, closure=None):
                res = super().step(closure)
                rec.add("step", W=rec.W(), buf=rec.buf())
                return res

        self.opts.append(opt)
        return Watched(self.model.parameters(), **kw), len(self.opts)

    # ------------------------------------------------------------- one epoch
    def items(self, ds):
        res = []
        for i in range(len(ds)):
            lat, num, pos, y = ds[i]
            res.append({"L": RR(lat.numpy()), "sp": [int(z) for z in num], "P": RR(pos.numpy()), "y": RR(y.numpy())})
        return res

    def epoch(self, train, val, b, opt, which, loss, kind, linear):
        from ramannoodle.pmodel.torch import train_single_epoch

        self.add(
            "begin", b=b, loss=kind, opt=self.opts[which - 1], which=which, linear=linear, W=self.W(), buf=self.buf(),
            train=self.items(train), val=self.items(val),
        )
        out, res = self.call(train_single_epoch, self.model, train, val, b, opt, loss)
        kw = {}
        if res == "ok":
            kw = {"train_loss": R(out[0]), "val_loss": R(out[1]), "var": RR(np.asarray(out[2]))}
        self.add("end", res=res, W=self.W(), buf=self.buf(), train=self.items(train), val=self.items(val), **kw)
        return res


def stand_in(n_atoms, variant):
    """Networks small enough for the specification to compute."""
    import torch

    class Linear(torch.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = torch.nn.Parameter(torch.randn(3 * n_atoms + 1, 6) * 0.3)
            self.norm = torch.nn.BatchNorm1d(3 * n_atoms) if variant == "norm" else None
            self.drop = torch.nn.Dropout(0.4) if variant == "dropout" else None

        def forward(self, lattice, atomic_numbers, positions):
            x = positions.reshape(len(positions), -1)
            if self.norm is not None:
                # a lone sample has no batch statistics
                x = self.norm(x) if len(x) > 1 or not self.training else x * self.norm.weight + self.norm.bias
            if self.drop is not None:
                x = self.drop(x)
            return torch.cat([x, torch.ones(len(x), 1)], dim=1) @ self.w

    return Linear


def datasets(rng, n, nv, N, L, sp, same=False):
    from ramannoodle.dataset.torch import PolarizabilityDataset

    def one(k):
        return PolarizabilityDataset(L, list(sp), rng.random((k, N, 3)), rng.normal(size=(k, 3, 3)) * 2 + 1)

    train = one(n)
    if same:
        return train, train
    val = one(nv)
    if nv > 1 and rng.random() < 0.4:  # one sample far from the others
        pol = val.polarizabilities
        pol[int(rng.integers(nv // 2, nv))] *= 1e3
        val = PolarizabilityDataset(L, list(sp), val.positions.astype(float), pol)
    if n == 1:
        train.scale_polarizabilities(rng.normal(size=(3, 3)), np.ones((3, 3)))
    val.scale_polarizabilities(train.mean_polarizability, train.stddev_polarizability if n > 1 else np.ones((3, 3)))
    return train, val


def prof_epochs(rng, focus, tmp=None, n=4, nv=3, b=2, epochs=2, variant="plain", kind="mse", opt="sgd", big=False):
    import torch

    double = not big and rng.random() < 0.75
    torch.set_default_dtype(torch.float64 if double else torch.float32)
    torch.manual_seed(int(rng.integers(1 << 30)))
    try:
        t = Recorder(rng, focus, tmp, tol="1e-9" if double else "3e-5")
        N = int(rng.integers(1, 3))
        L = np.eye(3) * 4 + rng.normal(size=(3, 3)) * 0.2
        train, val = datasets(rng, n, nv, N, L, rng.choice([8, 22, 14], size=N).tolist(), same=rng.random() < 0.15 and n > 1)
        t.watch(stand_in(N, variant))
        if rng.random() < 0.3:
            t.model.eval()  # whatever mode the network was left in
        calm = 0.01 if kind == "mse-sum" else 1.0
        o, which = t.optimizer(opt, rng, calm)
        loss = t.loss(kind)
        for k in range(epochs):
            if k and rng.random() < 0.25:
                o, which = t.optimizer(opt, rng, calm)
            if k and rng.random() < 0.3:
                b = int(rng.integers(1, n + 2))
            if k and rng.random() < 0.3 and n > 1:
                train.scale_polarizabilities(rng.normal(size=(3, 3)), rng.uniform(0.5, 2, (3, 3)))
            t.epoch(train, val, b, o, which, loss, kind, variant == "plain")
        return t.trace()
    finally:
        torch.set_default_dtype(torch.float32)


def prof_gnn(rng, focus, tmp=None, epochs=2):
    """The library's own network."""
    import torch

    from ramannoodle.pmodel.torch import PotGNN
    from ramannoodle.structure import ReferenceStructure

    double = rng.random() < 0.5
    torch.set_default_dtype(torch.float64 if double else torch.float32)
    torch.manual_seed(int(rng.integers(1 << 30)))
    try:
        t = Recorder(rng, focus, tmp, tol="1e-9" if double else "1e-4")
        sp = [22, 8, 8] if rng.random() < 0.5 else [14, 14]
        N = len(sp)
        L = np.eye(3) * 4 + rng.normal(size=(3, 3)) * 0.2
        ref, res = t.call(ReferenceStructure, sp, L, rng.random((N, 3)))
        n, nv = int(rng.integers(2, 6)), int(rng.integers(2, 5))
        train, val = datasets(rng, n, nv, N, L, sp)
        args = (ref, 9.0, 2, 3, int(rng.integers(1, 3)), 0.0, 6.0, train.mean_polarizability, train.stddev_polarizability)
        t.watch(PotGNN, *args)
        o, which = t.optimizer(str(rng.choice(["sgd", "adam"])), rng)
        kind = str(rng.choice(["mse", "l1", "other"]))
        loss = t.loss(kind)
        b = int(rng.integers(1, n + 2))
        for _ in range(epochs):
            t.epoch(train, val, b, o, which, loss, kind, False)
        return t.trace()
    finally:
        torch.set_default_dtype(torch.float32)


def run(ctx):
    cfg = (
        "CONSTANTS MaxN = {} MaxV = {} Batches = {} MaxEpochs = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n"
    )
    ctx.model_check(
        "TrainMC",
        cfg.format(ctx.pick(4, 5), 3, "{1, 2, 3, 5}", 2)
        + "VIEW View\nINVARIANT Once\nINVARIANT Sizes\nINVARIANT Steps\nINVARIANT Fresh\nINVARIANT Validated\n",
    )
    hists = ctx.behaviours(
        "TrainMC", cfg.format(9, 6, "{1, 2, 3, 4, 5, 8, 10}", 3) + "INVARIANT PrintHist\n", num=ctx.pick(600, 4000), depth=160
    )
    sizes = sorted({tuple(sorted(h[0].items())) for h in hists})
    rng = np.random.default_rng(ctx.seed)
    jobs = []
    for i in rng.permutation(len(sizes))[: ctx.pick(90, 400)]:
        jobs.append((S, "prof_epochs", len(jobs), {
            **dict(sizes[i]), "epochs": 3, "variant": str(rng.choice(["plain", "plain", "norm", "dropout"])),
            "kind": str(rng.choice(["mse", "mse", "mse-sum", "l1", "other"])), "opt": str(rng.choice(["sgd", "sgd", "adam"])),
        }))
    # many training batches, the last one incomplete
    for k, (n, nv, b) in enumerate([(43, 2, 2), (25, 3, 1), (64, 2, 3), (103, 3, 4), (121, 101, 5), (70, 2, 30)] * ctx.pick(1, 10)):
        jobs.append((S, "prof_epochs", 3000 + k, {"n": n, "nv": nv, "b": b, "epochs": 1, "variant": ["plain", "norm", "dropout"][k % 3]}))
    # more samples than fit into one validation batch
    for k, (n, nv) in enumerate([(6, 101), (3, 250), (30, 100), (17, 99), (4, 202), (2, 130)] * ctx.pick(1, 10)):
        jobs.append((S, "prof_epochs", 1000 + k, {"n": n, "nv": nv, "b": 4, "epochs": 2, "big": True, "variant": ["plain", "norm"][k % 2]}))
    ctx.validate("TrainTrace", drive.generate(ctx, jobs), "epochs of recorded stand-in networks", chunk=30)
    traces = drive.scenarios(ctx, S, "prof_gnn", ctx.pick(14, 200), start=5000)
    ctx.validate("TrainTrace", traces, "epochs of PotGNN", chunk=20)
