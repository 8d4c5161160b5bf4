"""PModelMC: exhaustive checking of the model specification and replay of its behaviours."""

from __future__ import annotations

import json

import numpy as np

from .core import RR
from .models import Recorder
from .scenarios import probes

INVS = {
    "C01": ["Interpolates", "OrthogonalInert"],
    "C02": ["Equivariant"],
    "C03": ["Orthonormal", "PointsFine"],
    "C04": ["MaskSplits"],
    "C05": ["DummyMirrors"],
    "C06": ["Periodic"],
    "C07": ["ArtBooks"],
    "C08": ["Orthonormal"],
    "C11": ["ArtBooks", "Orthonormal"],
}


class Catalogue:
    """Candidate additions on one crystal (valid, overlapping and insufficient ones)."""

    def __init__(self, rng, name, kind, ncand=5, maxdofs=8, maxmodels=2, maxlen=4, maxlines=6):
        self.rng, self.kind = rng, kind
        self.rec = rec = Recorder(rng, name, "C00")
        self.ref = 5 * rec.cry.symmetric_tensor(rng)
        rec.refpol = [self.ref]
        self.cands = []
        tries = 0
        dirs: list = []
        while len(self.cands) < ncand and tries < 200:
            tries += 1
            single = int(rng.integers(rec.N)) if kind == "art" or rng.random() < 0.5 else None
            if dirs and rng.random() < 0.5:
                # orthogonal to an earlier one (and possibly to its images)
                u = rec.direction(single=single, existing=dirs[-1:], nice=True)
            else:
                u = rec.direction(single=single, nice=True)
            if u is None:
                continue
            if any(rec.cry.grey(u, [v]) for v in dirs):
                continue
            lines = []
            for g in rec.cry.group():
                w = rec.cry.image(g, u)
                if not any(abs(np.sum(w * v)) > 0.999 for v in lines):
                    lines.append(w)
            if len(lines) > maxlines:
                continue
            flip = rec.cry.has_flip(u)
            k = 1 if kind == "art" else int(rng.integers(1, 3))
            incl = kind != "art" and bool(rng.random() < 0.7)
            need = k + 1 - int(incl)
            num = int(np.ceil(need / 2)) if flip else need
            if tries % 4 == 0 and num > 1:
                num -= 1  # insufficient
            amps = rec.amplitudes(max(num, 1), flip, zero=incl)
            if amps is None:
                continue
            if tries % 7 == 0 and len(amps) == 1 and flip and kind == "art":
                amps = np.array([amps[0], -amps[0]])  # duplicate through symmetry
            pols = rec.data(0, u, amps, k)
            dirs.append(u)
            self.cands.append((u, amps, pols, k, incl))
        self.probes = [u * 0.1 for u in dirs[:2]] + [rng.normal(size=(rec.N, 3)) * 0.08]
        self.limits = {"maxdofs": maxdofs, "maxmodels": maxmodels, "maxlen": maxlen}

    def js(self) -> dict:
        return {
            "crystal": self.rec.cry.js(),
            "K": self.rec.cry.K,
            "kind": self.kind,
            "ref": RR(self.ref),
            "cands": [
                {"disp": RR(u), "amps": RR(a), "pols": RR(p), "k": k, "incl": incl}
                for u, a, p, k, incl in self.cands
            ],
            "probes": [RR(u) for u in self.probes],
            **self.limits,
        }


def run(ctx, configs, invs=None, behaviours=0, dummy_twin=True):
    """configs: [(crystal name, kind, overrides)]; returns traces of replayed behaviours."""
    traces = []
    for n, (name, kind, over) in enumerate(configs):
        rng = np.random.default_rng([ctx.seed, 77, n])
        cat = Catalogue(rng, name, kind, **over)
        path = ctx.scratch / f"mc{n}.json"
        path.write_text(json.dumps(cat.js()))
        env = {"MC": str(path)}
        inv = "\n".join(f"INVARIANT {i}" for i in (invs or INVS[ctx.pid]))
        ctx.model_check(
            "PModelMC",
            f"INIT Init\nNEXT Next\nVIEW View\nCONSTRAINT Bounded\nCHECK_DEADLOCK FALSE\n"
            f"{inv}\nPROPERTY IndependentP\n",
            name=f"PModelMC({name},{kind})",
            env=env,
        )
        if behaviours:
            hists = ctx.behaviours(
                "PModelMC",
                "INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bounded\n"
                "INVARIANT PrintHist\n",
                num=behaviours,
                depth=cat.limits["maxlen"] + 1,
                env=env,
            )
            # one behaviour per prefix, in a seeded order
            seen: dict = {}
            for h in hists:
                seen.setdefault(json.dumps(h[:-1]), []).append(h)
            picked = [hs[int(rng.integers(len(hs)))] for hs in seen.values()]
            for h in picked[:behaviours]:
                traces.append(replay(ctx, cat, h, dummy_twin))
    return traces


def replay(ctx, cat: Catalogue, hist, dummy_twin=True) -> dict:
    """Drive real models through a behaviour of the specification."""
    rng = np.random.default_rng([ctx.seed, len(hist)])
    rec = Recorder(rng, cat.rec.cry.name, ctx.pid)
    rec.cry = cat.rec.cry
    rec.ref = rec.cry.ref()
    pairs = [(rec.new(cat.kind, False, cat.ref.copy()), rec.new(cat.kind, True, cat.ref.copy()))]
    added: list = []
    for step in hist:
        pair = pairs[step["m"] - 1]
        if not dummy_twin:
            pair = pair[:1]
        new = []
        for m in pair:
            n = len(rec.rawbasis(m))
            if step["act"] == "add":
                u, amps, pols, k, incl = cat.cands[step["x"][0] - 1]
                if cat.kind == "art":
                    atom = int(np.argmax(np.linalg.norm(u, axis=1)))
                    res = rec.add_art(m, atom, u[atom], amps, pols)
                else:
                    res = rec.add_dof(m, u, amps, pols, k, incl)
                if res == "ok":
                    added.append((u, amps, pols))
            elif step["act"] == "masked":
                new.append(rec.masked(m, [i - 1 for i in step["x"] if i <= n]))
            elif step["act"] == "setmask":
                rec.setmask(m, [i + 1 in step["x"] for i in range(n)])
            else:
                rec.unmask(m)
        if new:
            pairs.append(tuple(new) if len(new) == 2 else (new[0], new[0]))
        rec.observe_all()
        for p in pairs:
            if added:
                rec.predict(p[0], probes(rec, p[0], added, num=1, images=True)[:6])
    if cat.kind == "art":
        rec.spectup(pairs[0][0])
    return rec.trace()
