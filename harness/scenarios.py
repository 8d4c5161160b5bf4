"""Random and corner-case histories of models (inputs to the real code)."""

from __future__ import annotations

import numpy as np

from .models import SMALL, Recorder, pick_crystal


def art_data(rec, m, u, num):
    """Amplitudes and data for an ART along u needing `num` supplied amplitudes."""
    flip = rec.cry.has_flip(u)
    amps = rec.amplitudes(num, flip, zero=False)
    return amps, rec.data(m, u, amps)


def good_art(rec, m, nice=None):
    """Try to add a valid ART; returns (u, amps, pols) or None."""
    rng = rec.rng
    for _ in range(10):
        atom = int(rng.integers(rec.N))
        ex = rec.rawbasis(m)
        mine = [v for v in ex if np.abs(v[atom]).max() > 1e-5]
        u = rec.direction(single=atom, existing=mine, nice=nice)
        if u is None:
            continue
        # off-atom components of the projections vanish for single-atom bases
        num = 1 if rec.cry.has_flip(u) else 2
        amps, pols = art_data(rec, m, u, num)
        d = u[atom] * float(rng.choice([1.0, 0.01, 250.0]))
        rec.add_art(m, atom, d, amps, pols)
        return u, amps, pols
    return None


def good_dof(rec, m, k=None, nice=None, single=None, incl=None, poly=True):
    rng = rec.rng
    ex = rec.rawbasis(m)
    k = int(rng.choice([1, 1, 2, 2, 3, 4, 5])) if k is None else k
    incl = bool(rng.random() < 0.7) if incl is None else incl
    u = None
    if ex and rng.random() < 0.7:
        u = rec.free_direction(ex)
    if u is None:
        u = rec.direction(single=single, existing=ex, nice=nice)
    if u is None:
        return None
    flip = rec.cry.has_flip(u)
    need = k + 1 - (1 if incl else 0)
    num = int(np.ceil(need / 2)) if flip else need
    num = max(1, num + int(rng.integers(0, 2)))
    amps = rec.amplitudes(num, flip, zero=incl)
    if amps is None:
        return None
    pols = rec.data(m, u, amps, k, poly)
    scale = float(rng.choice([1.0, 1e-3, 40.0]))
    rec.add_dof(m, u * scale, amps, pols, k, incl)
    return u, amps, pols


def good_add(rec, m, **kw):
    if rec.kinds[m][0] == "art":
        return good_art(rec, m, kw.get("nice"))
    return good_dof(rec, m, **kw)


def probes(rec, m, added, num=3, images=True):
    """Positions exercising the DOFs of model m (list of position arrays)."""
    rng, cry = rec.rng, rec.cry
    ex = rec.rawbasis(m)
    out = []
    for u, amps, _ in added[-2:]:
        for a in amps[:2]:
            out.append(rec.positions(u * a))  # supplied data points
        if images:
            for _ in range(2):
                g = cry.group()[int(rng.integers(len(cry.group())))]
                w = cry.image(g, u)
                # only displacements along images that were added are determined
                if any(abs(abs(np.sum(w * v)) - 1) < 1e-9 for v in ex):
                    out.append(rec.positions(w * float(rng.uniform(-0.4, 0.4))))
    if ex:
        c = rng.uniform(-0.2, 0.2, size=len(ex)) * (rng.random(len(ex)) < 0.6)
        out.append(rec.positions(np.tensordot(c, np.array(ex), axes=1)))
        # orthogonal to everything
        u = rng.normal(size=(rec.N, 3)) * 0.1
        for v in ex:
            u = u - np.sum(u * v) * v
        out.append(rec.positions(u))
    for _ in range(num):
        out.append(rec.positions(rng.normal(size=(rec.N, 3)) * 0.15))
    out.append(rec.positions(rng.normal(size=(rec.N, 3)) * 10 ** rng.uniform(-9, -3), shift=False))
    out.append(rec.positions(None))
    safe = []
    for p in out:
        d = p - cry.positions
        d = np.abs(d - np.rint(d))
        if d.max() < 0.48:  # clear of the half-cell discontinuity
            safe.append(p)
    return safe


# --------------------------------------------------------------------------- profiles
def prof_predict(rng, focus, tmp=None, names=None, steps=4):
    """C01/C02: additions and predictions."""
    rec = Recorder(rng, pick_crystal(rng, names), focus, tmp=tmp)
    m = rec.new("art" if rng.random() < 0.4 else "interp")
    rec.predict(m, [rec.positions(None), rec.positions(rng.normal(size=(rec.N, 3)) * 0.1)])
    added = []
    for _ in range(steps):
        r = good_add(rec, m)
        if r and rec.ev[-1].get("res", "ok") == "ok":
            added.append(r)
        if added:
            ps = probes(rec, m, added)
            rec.predict(m, ps)
    return rec.trace()


def prof_admission(rng, focus, tmp=None, names=None):
    """C03: valid and invalid additions of every kind, state observed around them."""
    rec = Recorder(rng, pick_crystal(rng, names), focus, tmp=tmp)
    kind = "art" if rng.random() < 0.4 else "interp"
    m = rec.new(kind)
    added = []
    if rec.N >= 20 and kind == "interp":  # every direction of every atom
        axes = np.linalg.qr(rng.normal(size=(3, 3)))[0]
        for axis in axes:
            u = np.zeros((rec.N, 3))
            u[int(rng.integers(rec.N))] = axis
            flip = rec.cry.has_flip(u)
            amps = rec.amplitudes(1 if flip else 2, flip, zero=False)
            rec.add_dof(m, u, amps, rec.data(m, u, amps), 1, True)
    r = good_add(rec, m)
    if r and rec.ev[-1].get("res", "ok") == "ok":
        added.append(r)
    for _ in range(int(rng.integers(3, 6))):
        case = int(rng.integers(11))
        ex = rec.rawbasis(m)
        if ex and rng.random() < 0.3:  # masked DOFs are still there
            rec.setmask(m, rng.random(len(ex)) < float(rng.choice([0.5, 1.0])))
        k = int(rng.integers(1, 4))
        incl = bool(rng.random() < 0.6)
        if kind == "art":
            atom = int(rng.integers(rec.N))
            mine = [v for v in ex if np.abs(v[atom]).max() > 1e-5]
            u = rec.direction(single=atom, existing=mine if case not in (0, 1) else [])
        else:
            u = rec.direction(existing=ex if case not in (0, 1) else [])
        if u is None:
            continue
        flip = rec.cry.has_flip(u)
        if case == 0 and ex:  # overlaps an existing DOF
            v = ex[int(rng.integers(len(ex)))]
            mix = 0.0 if rng.random() < 0.3 else float(rng.uniform(0.2, 1.0))
            if rng.random() < 0.4:  # nearly orthogonal
                u = u - np.sum(u * v) * v
                mix = float(rng.choice([300.0, 1000.0, 3000.0])) * float(rng.uniform(0.8, 1.2))
            u2 = v + mix * u if kind != "art" or mix > 200 and np.abs(v[atom]).max() > 0.9 else v
            u = u2 / np.linalg.norm(u2)
            if rec.cry.grey(u, ex):
                continue
        if case == 1 and ex:  # collinear with an existing one
            u = -ex[int(rng.integers(len(ex)))]
        if case == 9 and ex and kind != "art":  # only images are in the way
            w = rec.blocked_direction(ex)
            u = u if w is None else w
        flip = rec.cry.has_flip(u)
        if kind == "art":
            atom = int(np.argmax(np.linalg.norm(u, axis=1)))
            num = 1 if flip else 2
            amps = rec.amplitudes(num, flip, zero=False)
            if case == 2:
                amps = np.array([amps[0], -amps[0] if flip else amps[0]])
            elif case == 3:
                amps = amps[:1]
            elif case == 4 and flip:
                amps = np.array([0.0])
            elif case == 5:
                a = rec.amplitudes(2, flip, zero=False)
                amps = a
            elif case == 6:
                u = u * 0.0
            pols = rec.data(m, ex[0] if case == 6 and ex else (u if case != 6 else rec.direction()), amps)
            if case == 7:
                bad = int(rng.integers(5))
                d = u[atom]
                args = [
                    (atom, d, np.array([0.1, 0.2, 0.3]), np.zeros((3, 3, 3))),
                    (atom, d, [0.1], np.zeros((1, 3, 3))),
                    (float(atom), d, np.array([0.1]), np.zeros((1, 3, 3))),
                    (atom, np.zeros(2), np.array([0.1]), np.zeros((1, 3, 3))),
                    (atom, d, np.array([0.1]), np.zeros((2, 3, 3))),
                ][bad]
                rec.add_bad(m, True, f"art{bad}", *args)
            elif case == 8:
                # generic addition on an ART model
                rec.add_dof(m, u, amps, pols, 1, True)
            else:
                res = rec.add_art(m, atom, u[atom], amps, pols)
                if res == "ok":
                    added.append((u, amps, pols))
        else:
            need = k + 1 - (1 if incl else 0)
            num = max(1, int(np.ceil(need / 2)) if flip else need)
            if case == 3:
                num = max(1, num - 1)
            if case == 10:
                num += 1
            amps = rec.amplitudes(num, flip, zero=incl, close=case == 10)
            if amps is None:
                continue
            if case == 2 and len(amps) > 1:
                amps[-1] = -amps[0] if flip and rng.random() < 0.5 else amps[0]
            elif case == 2 and flip:
                amps = np.array([amps[0], -amps[0]])
            elif case == 4:
                amps[-1] = 0.0
            pols = rec.data(m, u, amps, k)
            if case == 6:
                u = u * 0.0
            if case == 7:
                bad = int(rng.integers(8))
                z = np.zeros((len(amps), 3, 3))
                args = [
                    (u[:-1], amps, z, k),
                    (u, amps[:, None], z, k),
                    (u, amps, z[:, :2], k),
                    (u, amps, np.zeros((len(amps) + 1, 3, 3)), k),
                    (u.tolist(), amps, z, k),
                    (u, amps, z, 1.5),
                    (u, amps, z.tolist(), k),
                    (u, amps, z, "1"),
                ][bad]
                rec.add_bad(m, False, "order" if bad in (5, 7) else f"dof{bad}", *args)
            elif case == 8:
                rec.add_dof(m, u, amps, pols, int(rng.integers(-1, 1)), incl)
            else:
                scale = float(rng.choice([1.0, 1e-4, 3.0, 1e3]))
                res = rec.add_dof(m, u * scale, amps, pols, k, incl)
                if res == "ok":
                    added.append((u, amps, pols))
        rec.observe(m)
        if rng.random() < 0.5 and added:
            rec.predict(m, probes(rec, m, added, num=1))
    # the model still works after all these rejections
    good_add(rec, m)
    rec.predict(m, [rec.positions(rng.normal(size=(rec.N, 3)) * 0.1)])
    return rec.trace()


def prof_masks(rng, focus, tmp=None, names=None, dummy=False):
    """C04: interleavings of masked copies, additions and mask changes."""
    rec = Recorder(rng, pick_crystal(rng, names or SMALL), focus, tmp=tmp)
    m0 = rec.new("art" if rng.random() < 0.4 else "interp", dummy)
    added = []
    for _ in range(2):
        r = good_add(rec, m0, k=1)
        if r:
            added.append(r)
    for _ in range(int(rng.integers(5, 9))):
        m = int(rng.integers(len(rec.models)))
        n = len(rec.rawbasis(m))
        case = int(rng.integers(7))
        if case == 0 or len(rec.models) == 1:
            size = int(rng.integers(0, n + 1))
            idx = list(rng.permutation(n)[:size])
            if size and rng.random() < 0.3:
                idx.append(idx[0])  # repeated index
            rec.masked(m, idx)
        elif case == 1:
            r = good_add(rec, m, k=1)
            if r:
                added.append(r)
        elif case == 2:
            rec.setmask(m, rng.random(n) < 0.5)
        elif case == 3:
            rec.setmask(m, np.zeros(n + int(rng.integers(1, 3)), dtype=bool))
        elif case == 4:
            rec.unmask(m)
        elif case == 5 and rec.kinds[m][0] == "art":
            idx = rec.dofidx(m, [int(rng.integers(rec.N))])
            rec.masked(m, idx)
        else:
            pass
        rec.observe_all()
        for j in range(len(rec.models)):
            rec.predict(j, probes(rec, j, added[-1:], num=1)[:4])
        if len(rec.models) > 4:
            break
    return rec.trace()


def prof_dummy(rng, focus, tmp=None, names=None):
    """C05: a real and a dummy model driven by the same history."""
    rec = Recorder(rng, pick_crystal(rng, names or SMALL), focus, tmp=tmp)
    kind = "art" if rng.random() < 0.5 else "interp"
    pol = rec.cry.symmetric_tensor(rng)
    real = rec.new(kind, False, pol)
    given = [pol, np.full((3, 3), 7.0), np.zeros((3, 3))][int(rng.integers(3))]
    fake = rec.new(kind, True, given)
    pairs = [(real, fake)]
    rec.predict(fake, [rec.positions(None)])
    for _ in range(int(rng.integers(4, 8))):
        a, b = pairs[int(rng.integers(len(pairs)))]
        case = int(rng.integers(6))
        ex = rec.rawbasis(a)
        start = len(rec.ev)
        if case <= 2:
            if case == 2:
                u = rec.direction(single=int(rng.integers(rec.N)) if kind == "art" else None)
                if u is None:
                    continue
                amps = rec.amplitudes(int(rng.integers(1, 3)), False, zero=False)
                flaw = int(rng.integers(4))
                if flaw == 0:  # the same amplitude twice
                    amps = np.concatenate([amps[:1], amps[:1]])
                elif flaw == 1 and kind != "art":
                    amps = np.append(amps, 0.0)
                elif flaw == 2:
                    amps = np.concatenate([amps[:1], -amps[:1]])
                if kind == "art":
                    atom = int(np.argmax(np.linalg.norm(u, axis=1)))
                    rec.add_art(a, atom, u[atom], amps, rec.data(a, u, amps))
                else:
                    rec.add_dof(a, u, amps, rec.data(a, u, amps), int(rng.integers(1, 3)))
            else:
                good_add(rec, a)
            adds = [e for e in rec.ev[start:] if e["op"] == "add"]
            if not adds:
                continue
            e = adds[-1]
            _repeat(rec, b, e)
            rec.ev.append({"op": "twin", "m": a + 1, "n": b + 1, "res": e["res"],
                           "res2": [x for x in rec.ev if x["op"] == "add"][-1]["res"],
                           "basis": rec.basis(a), "basis2": rec.basis(b),
                           "mask": rec.mask(a), "mask2": rec.mask(b)})
        elif case == 3:
            n = len(ex)
            idx = list(rng.permutation(n)[: int(rng.integers(0, n + 1))])
            pairs.append((rec.masked(a, idx), rec.masked(b, idx)))
        elif case == 4:
            value = rng.random(len(ex)) < 0.5
            rec.setmask(a, value)
            rec.setmask(b, value)
        elif kind == "art":
            sp = [int(rng.integers(rec.N))]
            rec.dofidx(b, sp)
            rec.spectup(b)
        for _, y in pairs:
            batch = [rec.positions(None, shift=False)] * int(rng.integers(0, 3))
            rec.predict(y, batch)
        rec.observe_all()
    # fully masked dummy
    n = len(rec.rawbasis(fake))
    y = rec.masked(fake, list(range(n)))
    rec.predict(y, [rec.positions(None)])
    rec.predict_bad(fake, "shape", np.zeros((1, rec.N + 1, 3)))
    return rec.trace()


def _repeat(rec, b, e):
    """The same addition on another (dummy) model with arbitrary polarizabilities."""
    from .core import unR

    rng = rec.rng
    amps = np.array(unR(e["amps"]) if e["amps"] else [])
    pols = [
        np.array(unR(e["pols"]) if e["pols"] else np.zeros((0, 3, 3))),
        np.zeros((len(amps) + 2, 3, 3)),
        rng.normal(size=(1, 2)),
    ][int(rng.integers(3))]
    disp = np.array(unR(e["disp"]))
    if e["art"]:
        norms = np.linalg.norm(disp, axis=1)
        atom = int(np.argmax(norms))
        _, res = _call(rec, b, "add_art", atom, disp[atom], amps, pols)
        rec._add_event(b, True, "dof", res, disp=e["disp"], amps=e["amps"], pols=[])
    else:
        _, res = _call(rec, b, "add_dof", disp, amps, pols, e["k"], e["incl"])
        rec._add_event(
            b, False, "dof", res, disp=e["disp"], amps=e["amps"], pols=[], k=e["k"], incl=e["incl"]
        )


def _call(rec, m, name, *args):
    from .core import outcome

    return outcome(getattr(rec.models[m], name), *args)


def prof_purity(rng, focus, tmp=None, names=None):
    """C06: batches, permutations, lattice shifts, repeated calls, wrong inputs."""
    rec = Recorder(rng, pick_crystal(rng, names or SMALL), focus, tmp=tmp)
    kind = "art" if rng.random() < 0.4 else "interp"
    m = rec.new(kind)
    added = []
    for _ in range(3):
        # order-k splines through arbitrary data: values between the points are not
        # determined by the property, but must still be pure (event "agree")
        r = good_add(rec, m, poly=bool(rng.random() < 0.5)) if kind == "interp" else good_add(rec, m)
        if r:
            added.append(r)
    if rng.random() < 0.3 and rec.rawbasis(m):
        m = rec.masked(m, [0])
    ps = probes(rec, m, added, num=4)
    base = rec.predict(m, ps)
    alone = [rec.predict(m, [p]) for p in ps]
    if base is not None:
        for j, a in enumerate(alone):
            rec.agree([base[j], a[0] if a is not None else None])
    perm = rng.permutation(len(ps))
    out = rec.predict(m, [ps[i] for i in perm])
    if base is not None:
        for j, i in enumerate(perm):
            rec.agree([base[i], out[j] if out is not None else None])
    shifted = [p + rng.integers(-3, 4, size=p.shape) for p in ps]
    out = rec.predict(m, shifted)
    if base is not None:
        for j in range(len(ps)):
            rec.agree([base[j], out[j] if out is not None else None])
    big = [ps[int(i)] for i in rng.integers(len(ps), size=int(rng.choice([2, 7, 33])))]
    rec.predict(m, big)
    rec.crowd(m, ps, base, int(rng.choice([65, 130, 260, 515, 1030, 2055, 4100])))
    rec.reuse(m, ps)
    rec.predict(m, [])
    rec.predict(m, ps[:1])
    # nearly the same configuration several times
    j = int(rng.integers(len(ps)))
    near = [ps[j]] + [ps[j] + rng.normal(size=ps[j].shape) * float(rng.choice([2e-8, 1e-6])) for _ in range(3)]
    out = rec.predict(m, near)
    for k, q in enumerate(near):
        one = rec.predict(m, [q])
        rec.agree([one[0] if one is not None else None, out[k] if out is not None else None])
    p = ps[0]
    for why, arg in (
        ("2d", p),
        ("atoms", np.zeros((2, rec.N + 1, 3))),
        ("one-atom", np.zeros((2, 1, 3)) if rec.N > 1 else np.zeros((2, 2, 3))),
        ("coords", np.zeros((2, rec.N, 2))),
        ("one-coord", np.zeros((2, rec.N, 1))),
        ("4d", np.zeros((1, 2, rec.N, 3))),
        ("list", [p.tolist()]),
        ("none", None),
        ("string", "positions"),
    ):
        rec.predict_bad(m, why, arg)
    out = rec.predict(m, ps)
    if base is not None:
        for j in range(len(ps)):
            rec.agree([base[j], out[j] if out is not None else None])
    # interleave with another model on the same structure
    other = rec.new("interp")
    good_dof(rec, other, k=1)
    rec.predict(other, ps[:2])
    out = rec.predict(m, ps)
    if base is not None:
        rec.agree([base, out])
    rec.observe(m)
    return rec.trace()


def prof_art(rng, focus, tmp=None, names=None):
    """C07: bookkeeping of atoms and directions."""
    rec = Recorder(rng, pick_crystal(rng, names), focus, tmp=tmp)
    m = rec.new("art", dummy=bool(rng.random() < 0.2))
    from .vaspgen import SYMBOL

    symbols = [SYMBOL[z] for z in dict.fromkeys(rec.cry.sp)]
    for _ in range(int(rng.integers(3, 7))):
        case = int(rng.integers(5))
        if case <= 2:
            good_art(rec, m)
        elif case == 3:
            u = rec.direction()
            if u is not None:
                rec.add_dof(m, u, [0.1], [np.zeros((3, 3))], 1)
        else:
            atom = int(rng.integers(rec.N))
            u = rec.direction(single=atom)
            if u is None:
                continue
            amps, pols = art_data(rec, m, u, int(rng.integers(1, 3)))
            rec.add_art(m, atom, u[atom], amps, pols)
        rec.spectup(m)
        rec.dofidx(m, int(rng.integers(rec.N)))
        rec.dofidx(m, symbols[int(rng.integers(len(symbols)))])
        items = [int(i) for i in rng.integers(rec.N, size=int(rng.integers(0, 4)))]
        items += [symbols[int(i)] for i in rng.integers(len(symbols), size=int(rng.integers(0, 3)))]
        items = [items[i] for i in rng.permutation(len(items))]
        rec.dofidx(m, items)
    rec.dofidx(m, "Og")
    rec.dofidx(m, list(range(rec.N)))
    rec.eqatoms()
    return rec.trace()


def prof_files(rng, focus, tmp, names=None):
    """C08: files and pymatgen structures against arrays."""
    rec = Recorder(rng, pick_crystal(rng, names or SMALL + ["edge", "perov"]), focus, tmp=tmp)
    kind = "art" if rng.random() < 0.5 else "interp"
    dummy = bool(rng.random() < 0.3)
    m = rec.new(kind, dummy)
    added = []
    for _ in range(int(rng.integers(2, 5))):
        case = int(rng.integers(9))
        ex = rec.rawbasis(m)
        k = int(rng.integers(1, 3))
        if kind == "art":
            atom = int(rng.integers(rec.N))
            mine = [v for v in ex if np.abs(v[atom]).max() > 1e-5]
            u = rec.direction(single=atom, existing=mine)
            num = 0 if u is None else 1 if rec.cry.has_flip(u) else 2
        else:
            u = rec.free_direction(ex)
            num = 0 if u is None else (int(np.ceil(k / 2)) if rec.cry.has_flip(u) else k) + int(rng.integers(0, 2))
        if u is None:
            continue
        flip = rec.cry.has_flip(u)
        if case == 0:
            num = max(1, num - 1) if kind != "art" else 3 - num
        amps = rec.amplitudes(num, flip, zero=kind != "art")
        if amps is None:
            continue
        fields = [u * a for a in amps]
        if case == 1 and len(amps) > 1:  # not collinear
            w = rec.direction(single=atom if kind == "art" else None)
            if w is None or not 0.1 < abs(np.sum(w * u)) < 0.95:
                continue
            if rng.random() < 0.4:  # slightly off
                w = w - np.sum(w * u) * u
                w = u + w / np.linalg.norm(w) * float(rng.choice([0.04, 0.08]) * rng.uniform(1, 1.5))
                fw, fu = rec.frac(w), rec.frac(u)  # files hold fractional positions
                if abs(np.sum(fw * fu)) > 0.9997 * np.linalg.norm(fw) * np.linalg.norm(fu):
                    continue
            fields[-1] = w * 0.2
        elif case == 2 and kind == "art":  # several atoms move
            if rec.N == 1:
                continue
            other = (atom + 1) % rec.N
            for f in fields:
                f[other] = f[atom] * 0.5
        ps = [rec.cry.positions + rec.frac(f) for f in fields]
        pols = rec.data(m, u, amps, k) if kind != "art" else rec.data(m, u, amps)
        if case == 3 and len(ps) > 1:  # order of files
            o = rng.permutation(len(ps))
            ps, pols = [ps[i] for i in o], pols[o]
        if case == 4:
            ps[-1] = np.concatenate([ps[-1], [[0.123, 0.456, 0.789]]])
        elif case == 5 and rec.N > 1:
            ps[int(rng.integers(len(ps)))] = ps[0][:-1]
        if rng.random() < 0.45:
            ps = [p + rng.integers(-1, 2, size=p.shape) for p in ps]
            if case == 6:
                pols = pols[:-1]
            r = rec.add_pymatgen(m, kind == "art", ps, pols, k)
        else:
            fmts = ["outcar", "vasprun.xml"] + (["poscar", "xdatcar"] if dummy else [])
            r = rec.add_files(
                m, kind == "art", ps, pols, fmts[int(rng.integers(len(fmts)))], k,
                single=bool(rng.random() < 0.5),
            )
        if r == "ok" and case in (0, 3, 6, 7, 8):
            added.append((u, amps, pols))
        if not dummy and added:
            rec.predict(m, probes(rec, m, added, num=1))
    if kind == "art":
        rec.spectup(m)
    return rec.trace()


def prof_structure(rng, focus, tmp=None, names=None):
    """C11: symmetry reports of reference structures."""
    from .vaspgen import SYMBOL

    rec = Recorder(rng, pick_crystal(rng, names), focus, tmp=tmp)
    rec.eqatoms()
    symbols = [SYMBOL[z] for z in dict.fromkeys(rec.cry.sp)]
    for s in symbols + ["Og"]:
        rec.atomidx(s)
    rec.atomidx(symbols)
    rec.atomidx(symbols[::-1] + symbols[:1])
    rec.atomidx([])
    others = [s for s in ("Og", "Lr", "Md", "No", "Fm", "Es") if s not in symbols]
    rec.atomidx(others[:5] + symbols)
    rec.atomidx([x for s in symbols for x in (s, s, s)] + others + symbols)
    for _ in range(5):
        single = int(rng.integers(rec.N)) if rng.random() < 0.5 else None
        u = rec.direction(single=single)
        if u is None:
            continue
        f = rec.frac(u)
        f *= float(rng.choice([1.0, 0.1, 1e-3, 1e-5, 1e-7])) * 0.3 / np.abs(f).max()
        rec.eqdisp(f)
    rec.eqatoms()
    return rec.trace()
