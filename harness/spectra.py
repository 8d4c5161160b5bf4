"""Scenarios for spectra (C16, C17, C18) and convolutions (C19)."""

from __future__ import annotations

import numpy as np

from . import drive
from .core import R, RR, outcome
from .crystals import CRYSTALS, Crystal
from .models import Recorder
from .trace import Tracer

S = "harness.spectra"


def num(x):
    return RR(np.asarray(x)) if isinstance(x, (np.ndarray, np.generic, list, tuple, float, int)) else "not-numeric"


def stand_in(rng, N, kind="wave", offset=None):
    """A user-defined PolarizabilityModel: a smooth periodic function of one sample."""
    from ramannoodle.abstract import PolarizabilityModel

    A = rng.normal(size=(3, 3)) * float(rng.choice([0, 1, 10])) if offset is None else offset
    A = A + A.T
    K = rng.integers(-2, 3, size=(4, N, 3))
    B = rng.normal(size=(4, 3, 3))
    B = B + np.transpose(B, (0, 2, 1)) if rng.random() < 0.7 else B
    phase = rng.uniform(0, 6, size=4)
    lin = rng.normal(size=(N, 3, 3, 3))
    lin = lin + np.swapaxes(lin, 2, 3)
    ref = None

    class Model(PolarizabilityModel):
        """Stand-in."""

        def calc_polarizabilities(self, positions_batch):
            x = np.array(positions_batch, dtype=float)
            if x.ndim != 3 or x.shape[1:] != (N, 3):
                raise ValueError("positions_batch has wrong shape")
            if kind == "linear":
                d = x - self.ref
                d = d - np.rint(d)
                return self.offset + np.einsum("sni,nijk->sjk", d, lin)
            arg = 2 * np.pi * np.einsum("sni,kni->sk", x, K) + phase
            return self.offset + np.einsum("sk,kij->sij", np.sin(arg), B)

    m = Model()
    m.offset = A
    m.ref = ref
    return m


class Spec(Tracer):
    """Spectrum objects and what they report."""

    def __init__(self, rng, focus, tmp=None, **head):
        super().__init__(rng, focus, tmp, **head)
        self.objs, self.nmeas = [], 0

    # ------------------------------------------------------------- C16
    def phonons(self, ref, wns, disps, model, probe=None, bad=False, scale=None):
        from ramannoodle.dynamics import Phonons

        e0 = 0.001
        ph = Phonons(ref.copy(), wns.copy(), disps.copy())
        probe = probe or (lambda: None)
        before = probe()
        plus = minus = []
        if not bad:
            one = lambda x: np.array(model.calc_polarizabilities(x[None]))[0]  # noqa: E731
            plus = [one(ref + e0 * d) for d in disps]
            minus = [one(ref - e0 * d) for d in disps]
        top = float(np.max(np.abs(plus))) if len(plus) else 0.0
        scale = max(top, scale or 0.0)
        out, res = self.call(ph.get_raman_spectrum, model)
        ok = res == "ok"
        e = {
            "bad": bad, "givenwn": RR(wns), "plus": RR(np.array(plus)), "minus": RR(np.array(minus)),
            "scale": R(scale), "wn": num(out.phonon_wavenumbers) if ok else [],
            "tensors": num(out.raman_tensors) if ok else [], "res": res, "modelsame": before == probe(),
        }
        self.add("phonons", **e)
        self.objs.append(out if ok else None)
        return len(self.objs) - 1, scale

    def rel(self, rel, a, b, perm, factor, scale):
        if self.objs[a] is None or self.objs[b] is None:
            return
        self.add("rel", rel=rel, a=a + 1, b=b + 1, perm=[int(p) + 1 for p in perm], factor=R(factor), scale=R(scale))

    # ------------------------------------------------------------- C17 / C18
    def make(self, kind, a, b):
        """A spectrum from (wavenumbers, tensors) or (series, timestep)."""
        from ramannoodle.spectrum import MDRamanSpectrum, PhononRamanSpectrum

        if kind == "phonon":
            o = PhononRamanSpectrum(a.copy(), b.copy())
            self.add("object", kind=kind, wn=RR(a), tensors=RR(b))
        else:
            o = MDRamanSpectrum(a.copy(), b)
            self.add("object", kind=kind, ts=RR(a), timestep=R(b))
        self.objs.append(o)
        return len(self.objs) - 1

    def measure(self, i, flags=None, vandal=None, orientation=None):
        rng = self.rng
        f = flags or {
            "laser": bool(rng.random() < 0.5), "be": bool(rng.random() < 0.5),
            "wavelength": float(rng.choice([522, 532.1, 785, 1064, 100.5])),
            "temperature": float(rng.choice([300, 77.0, 1000, 12.5, 5000])),
        }
        kw = {}
        if f["laser"] or rng.random() < 0.5:
            kw["laser_correction"] = f["laser"]
        if f["be"] or rng.random() < 0.5:
            kw["bose_einstein_correction"] = f["be"]
        kw["laser_wavelength"] = f["wavelength"]
        kw["temperature"] = f["temperature"]
        if orientation is not None:
            kw["orientation"] = orientation
        out, res = self.call(self.objs[i].measure, **kw)
        ok = res == "ok"
        if ok and not (isinstance(out, tuple) and len(out) == 2):
            ok, res = False, "not-a-pair"
        self.add(
            "measure", o=i + 1, badorientation=orientation is not None and not (isinstance(orientation, str) and orientation == "polycrystalline"),
            flags={"laser": f["laser"], "be": f["be"], "wavelength": R(f["wavelength"]), "temperature": R(f["temperature"])},
            wn=num(out[0]) if ok else [], I=num(out[1]) if ok else [], res=res,
        )
        self.nmeas += 1
        if ok and (rng.random() < 0.4 if vandal is None else vandal):
            for x in out:
                x += 7.25
                x *= -3
        return self.nmeas - 1

    def measuredrel(self, rel, a, b, factor):
        evs = [e for e in self.ev if e["op"] == "measure"]
        if evs[a]["res"] == evs[b]["res"] == "ok":
            self.add("measuredrel", rel=rel, a=a + 1, b=b + 1, factor=R(factor))


def rotation(rng):
    q, r = np.linalg.qr(rng.normal(size=(3, 3)))
    q = q * np.sign(np.diag(r))
    return q if rng.random() < 0.5 else -q


def tensors(rng, M):
    res = []
    for _ in range(M):
        k = int(rng.integers(7))
        T = rng.normal(size=(3, 3))
        T = T + T.T
        if k == 0:
            T = np.eye(3) * rng.normal()
        elif k == 1:
            v = rng.normal(size=3)
            T = np.outer(v, v)
        elif k == 2:
            T = np.zeros((3, 3))
            i, j = rng.integers(0, 3, 2)
            T[i, j] = T[j, i] = rng.normal()
        elif k == 3:
            T = T - np.eye(3) * np.trace(T) / 3
        elif k == 4 and rng.random() < 0.3:
            T = np.zeros((3, 3))
        res.append(T * float(rng.choice([1.0, 1.0, 1e-6, 1e5])))
    return np.array(res).reshape(M, 3, 3)


def modes(rng, N):
    M = int(rng.choice([1, 2, 3, 3 * N, 3 * N + 2]))
    wns = np.array(rng.choice([-1, 1, 1, 1], size=M) * rng.uniform(1, 3000, size=M))
    if rng.random() < 0.5:
        wns = np.sort(wns)
    if M > 1 and rng.random() < 0.3:
        wns[1] = wns[0]
    d = rng.normal(size=(M, N, 3)) * float(rng.choice([0.01, 0.1, 1.0, 20.0]))
    if M > 2 and rng.random() < 0.3:
        d[1] = 0
    return wns, d


def prof_standin(rng, focus, tmp=None):
    """Phonons and user-defined models."""
    t = Spec(rng, focus, tmp)
    N = int(rng.integers(1, 6))
    ref = rng.uniform(0, 1, size=(N, 3))
    if rng.random() < 0.2:
        ref = np.round(ref * 2) / 2
    kind = "linear" if rng.random() < 0.3 else "wave"
    model = stand_in(rng, N, kind)
    model.ref = ref.copy()
    wns, d = modes(rng, N)
    if kind == "linear":
        d = d * 0.1
    M = len(wns)
    a, sc = t.phonons(ref, wns, d, model)
    ident = range(M)
    which = rng.permutation(6)[:3]
    for k in which:
        if k == 0:
            b, s2 = t.phonons(ref, wns, -d, model)
            t.rel("odd", a, b, ident, -1.0, sc)
        elif k == 1:
            p = rng.permutation(M)
            b, s2 = t.phonons(ref, wns[p], d[p], model)
            t.rel("independent-of-other-modes", b, a, p, 1.0, sc)
        elif k == 2:
            b, s2 = t.phonons(ref + rng.integers(-3, 4, size=ref.shape), wns, d, model)
            # rounding of shifted positions: 2 pi |K| 1e-16 * 3 / 0.001
            t.rel("lattice-shift", a, b, ident, 1.0, sc + 50)
        elif k == 3:
            old = model.offset
            model.offset = old + rng.normal(size=(3, 3)) * 5
            b, s2 = t.phonons(ref, wns, d, model)
            model.offset = old
            t.rel("constant-offset", a, b, ident, 1.0, max(sc, s2))
        elif k == 4 and kind == "linear":
            c = float(rng.choice([0.5, -2.0, 3.0]))
            b, s2 = t.phonons(ref, wns, d * c, model)
            t.rel("linear", b, a, ident, c, sc + s2 + 10)
        elif k == 5:
            b, s2 = t.phonons(ref, wns, d, model)
            t.rel("repeatable", a, b, ident, 1.0, sc)
            i = int(rng.integers(M))
            b, s2 = t.phonons(ref, wns[i : i + 1], d[i : i + 1], model)
            t.rel("independent-of-other-modes", b, a, [i], 1.0, sc)
    other = stand_in(rng, N + 1)
    t.phonons(ref, wns, d, other, bad=True)
    for i, o in enumerate(t.objs):
        if o is not None and rng.random() < 0.5:
            t.measure(i)
    return t.trace()


def library_model(rng, tmp=None):
    """A random interpolation/ART model with its crystal."""
    cry_name = sorted(CRYSTALS)[int(rng.integers(len(CRYSTALS)))]
    rec = Recorder(rng, cry_name, "-", tmp=tmp)
    art = bool(rng.random() < 0.4)
    m = rec.new("art" if art else "interp")
    for _ in range(3):
        u = np.zeros((rec.N, 3))
        if art or rng.random() < 0.5:
            u[int(rng.integers(rec.N))] = rng.normal(size=3) if not art else np.eye(3)[int(rng.integers(3))] @ np.linalg.qr(rng.normal(size=(3, 3)))[0]
        else:
            u = rng.normal(size=(rec.N, 3))
        amps = np.array([-0.1, 0.1]) if art else np.array([0.05, 0.1, 0.2])[: int(rng.integers(1, 4))]
        pols = rec.refpol[m] + rng.normal(size=(len(amps), 3, 3)) * 0.3
        if art:
            i = int(np.nonzero(np.any(u != 0, axis=1))[0][0])
            outcome(rec.models[m].add_art, i, u[i], amps, pols)
        else:
            outcome(rec.models[m].add_dof, u, amps, pols, int(rng.integers(1, 3)) if len(amps) > 1 else 1)
    model = rec.models[m]
    return rec, model


def prof_library(rng, focus, tmp=None):
    """Phonons and the library's own models."""
    t = Spec(rng, focus, tmp)
    rec, model = library_model(rng, tmp)
    ref = rec.cry.positions
    N = rec.N
    if rng.random() < 0.4 and len(model.mask):
        pick = [i for i in range(len(model.mask)) if rng.random() < 0.4]
        model = model.get_masked_model(pick)
    sample = (ref + rng.normal(size=(2, N, 3)) * 0.01)
    sample = sample - np.floor(sample)

    def probe():
        return (
            model.calc_polarizabilities(sample).tobytes(), model.mask.tobytes(),
            tuple(v.tobytes() for v in model.cart_basis_vectors), model.ref_polarizability.tobytes() if hasattr(model, "ref_polarizability") else b"",
        )

    wns, d = modes(rng, N)
    d = d * 0.2
    slope = 1e3  # rounding of positions (1e-16) times slope over 0.001 stays below 1e-9 (1 + scale)
    a, sc = t.phonons(ref, wns, d, model, probe)
    M = len(wns)
    b, _ = t.phonons(ref, wns, -d, model, probe)
    t.rel("odd", a, b, range(M), -1.0, sc)
    p = rng.permutation(M)
    b, _ = t.phonons(ref, wns[p], d[p], model, probe)
    t.rel("independent-of-other-modes", b, a, p, 1.0, sc)
    b, _ = t.phonons(ref + rng.integers(-2, 3, size=ref.shape), wns, d, model, probe)
    t.rel("lattice-shift", a, b, range(M), 1.0, sc + slope)
    bad_d = rng.normal(size=(M, N + 1, 3))
    t.phonons(rng.uniform(0, 1, size=(N + 1, 3)), wns, bad_d, model, probe, bad=True)
    t.measure(0)
    return t.trace()


def prof_measure(rng, focus, tmp=None):
    """Phonon spectra: formula, rotations, scaling, repeated measurement."""
    t = Spec(rng, focus, tmp)
    M = int(rng.choice([1, 2, 3, 7, 20]))
    T = tensors(rng, M)
    w = rng.choice([-1, 1, 1], size=M) * rng.choice([1.0, 30.0, 300.0, 3000.0], size=M) * rng.uniform(0.3, 1, size=M)
    if rng.random() < 0.2:
        w = np.array(np.rint(w) + (np.rint(w) == 0))
    o = t.make("phonon", w, T)
    a = t.measure(o, {"laser": False, "be": False, "wavelength": 522.0, "temperature": 300.0}, vandal=False)
    for _ in range(3):
        t.measure(o)
    Q = rotation(rng)
    c = float(rng.choice([0.5, -2.0, 10.0]))
    o2 = t.make("phonon", w, np.array([Q @ x @ Q.T for x in T]))
    b = t.measure(o2, {"laser": False, "be": False, "wavelength": 522.0, "temperature": 300.0})
    t.measuredrel("rotation", b, a, 1.0)
    o3 = t.make("phonon", w, c * T)
    b = t.measure(o3, {"laser": False, "be": False, "wavelength": -5.0, "temperature": 0.0})
    t.measuredrel("quadratic", b, a, c * c)
    orient = ["xx", "Polycrystalline", "", np.array([1, 0, 0]), np.eye(3), np.array(["polycrystalline"] * 2), None][int(rng.integers(6))]
    t.measure(o, orientation=orient)
    t.measure(o, orientation="polycrystalline")
    for bad in ({"wavelength": float(rng.choice([0, -0.0, -522]))}, {"temperature": float(rng.choice([0, -1, -1e-9]))}):
        f = {"laser": "wavelength" in bad or bool(rng.random() < 0.3), "be": "temperature" in bad or bool(rng.random() < 0.3), "wavelength": 522.0, "temperature": 300.0}
        f.update(bad)
        t.measure(o, f)
    t.measure(o)
    return t.trace()


def series(rng, n):
    A = rng.normal(size=(3, 3)) * 5
    ts = A + A.T + np.zeros((n, 3, 3))
    k = int(rng.integers(5))
    if k == 0:
        B = rng.normal(size=(n, 3, 3))
        ts = ts + B + np.transpose(B, (0, 2, 1))
    elif k == 1:
        for _ in range(2):
            B = rng.normal(size=(3, 3))
            ph, om = rng.uniform(0, 6), rng.uniform(0.1, 3)
            ts = ts + (B + B.T) * np.sin(ph + om * np.arange(n))[:, None, None]
    elif k == 2:
        B = rng.normal(size=(3, 3))
        ts = ts + (B + B.T) * np.arange(n)[:, None, None]
    elif k == 3:
        i, j = rng.integers(0, 3, 2)
        x = rng.normal(size=n)
        ts[:, i, j] += x
        if i != j:
            ts[:, j, i] += x
    else:
        B = rng.normal(size=(n, 3, 3)) * 1e-4
        ts = ts + B + np.transpose(B, (0, 2, 1))
    return ts


PLAIN = {"laser": False, "be": False, "wavelength": 522.0, "temperature": 300.0}


def prof_md(rng, focus, tmp=None, long=0):
    """MD spectra: formula and invariances."""
    t = Spec(rng, focus, tmp)
    n = long or int(rng.choice([2, 3, 4, 5, 6, 9, 14, 15, 24, 33]))
    ts = series(rng, n)
    dt = float(rng.choice([0.5, 1.0, 2.0, 5.3]))
    o = t.make("md", ts, dt)
    a = t.measure(o, PLAIN, vandal=False)
    for _ in range(2):
        t.measure(o)
    Q = rotation(rng)
    c = float(rng.choice([0.5, -2.0, 10.0]))
    off = rng.normal(size=(3, 3))
    for name, other, f in (
        ("constant-offset", ts + off + off.T, 1.0),
        ("rotation", np.array([Q @ x @ Q.T for x in ts]), 1.0),
        ("time-reversal", ts[::-1].copy(), 1.0),
        ("quadratic", c * ts, c * c),
    ):
        if long and name != "rotation":
            continue
        b = t.measure(t.make("md", other, dt), PLAIN)
        t.measuredrel(name, b, a, f)
    t.measure(o, orientation=[np.eye(3), "z"][int(rng.integers(2))])
    for bad in ({"wavelength": float(rng.choice([0, -522]))}, {"temperature": float(rng.choice([0, -1]))}):
        t.measure(o, {"laser": "wavelength" in bad, "be": "temperature" in bad, "wavelength": 522.0, "temperature": 300.0, **bad})
    t.measure(o)
    return t.trace()


def prof_signal(rng, focus, tmp=None, long=0):
    from ramannoodle.spectrum.utils import calc_signal_spectrum

    t = Spec(rng, focus, tmp)
    for _ in range(1 if long else 6):
        n = long or int(rng.integers(1, 40))
        k = int(rng.integers(5))
        s = rng.normal(size=n)
        if k == 0:
            s = np.ones(n)
        elif k == 1:
            s = (-1.0) ** np.arange(n)
        elif k == 2:
            s = np.zeros(n)
            s[int(rng.integers(n))] = 2.0
        elif k == 3:
            s = rng.integers(-3, 4, size=n).astype(float)
        dt = float(rng.choice([0.5, 1.0, 2.0, 5.3]))
        out, res = t.call(calc_signal_spectrum, s, dt)
        t.add("signal", signal=RR(s), dt=R(dt), wn=num(out[0]) if res == "ok" else [], I=num(out[1]) if res == "ok" else [], res=res)
    return t.trace()


def prof_trajectory(rng, focus, tmp=None):
    """Trajectory + model -> polarizability time series -> measured spectrum."""
    from ramannoodle.dynamics import Trajectory

    t = Spec(rng, focus, tmp)
    if rng.random() < 0.5:
        N = int(rng.integers(1, 5))
        model = stand_in(rng, N)
        ref = rng.uniform(0, 1, size=(N, 3))
    else:
        rec, model = library_model(rng, tmp)
        ref, N = rec.cry.positions, rec.N
    n = int(rng.choice([2, 3, 5, 8, 13]))
    if rng.random() < 0.25:
        n = int(rng.choice([33, 41, 51, 65, 81, 101, 129, 257] if rng.random() < 0.9 else [1001]))
    pos = ref + rng.normal(size=(n, N, 3)) * 0.02
    if rng.random() < 0.5:
        pos = pos + rng.integers(-2, 3, size=pos.shape)
    dt = float(rng.choice([0.5, 1.0, 2.5]))
    traj = Trajectory(pos, dt)
    conf = traj.positions_ts
    direct = [np.array(model.calc_polarizabilities(x[None]))[0] for x in conf]
    out, res = t.call(traj.get_raman_spectrum, model)
    ok = res == "ok"
    t.add(
        "trajectory", bad=False, res=res, ts=num(out.polarizability_ts) if ok else [], direct=RR(np.array(direct)), tol="1e-10",
        timestep=R(out.timestep) if ok else [], given=R(dt),
    )
    if ok:
        t.objs.append(out)
        t.add("object", kind="md", ts=RR(out.polarizability_ts), timestep=R(dt))
        sym = np.allclose(np.array(direct), np.transpose(direct, (0, 2, 1)), atol=1e-12)
        if sym and n < 300:
            t.measure(0, PLAIN)
            t.measure(0)
    other = stand_in(rng, N + 1)
    out, res = t.call(traj.get_raman_spectrum, other)
    t.add("trajectory", bad=True, res=res, ts=[], direct=[], tol="0", timestep=[], given=R(dt))
    return t.trace()


def replay_measure(rng, focus, tmp=None, hist=()):
    """A behaviour of MeasureMC."""
    t = Spec(rng, focus, tmp)
    wl = {-1: -522.0, 0: 0.0, 1: 522.0, 2: 785.0}
    te = {-1: -3.0, 0: 0.0, 1: 300.0, 2: 77.0}
    for r in hist:
        act, o = r["act"], r["o"] - 1
        if act == "make_phonon":
            t.make("phonon", rng.uniform(10, 1500, size=4), tensors(rng, 4))
        elif act == "make_md":
            t.make("md", series(rng, int(rng.integers(4, 9))), 1.0)
        elif act == "orientation":
            t.measure(o, orientation=np.eye(3))
        elif act == "vandalise":
            out, res = outcome(t.objs[o].measure)
            if res == "ok":
                for x in out:
                    x += 11.0
            for name in ("phonon_wavenumbers", "raman_tensors", "polarizability_ts"):
                if hasattr(t.objs[o], name):
                    x = getattr(t.objs[o], name)
                    x *= 1.5
        else:
            f = r["f"]
            t.measure(o, {"laser": f["laser"], "be": f["be"], "wavelength": wl[f["wavelength"]], "temperature": te[f["temperature"]]})
    return t.trace()


# --------------------------------------------------------------------------- C19
def prof_conv(rng, focus, tmp=None):
    from ramannoodle.spectrum.utils import convolve_spectrum

    t = Tracer(rng, focus, tmp)
    for _ in range(8):
        M = int(rng.choice([0, 1, 1, 2, 5, 12]))
        w = rng.uniform(-200, 3000, size=M)
        h = rng.normal(size=M) * float(rng.choice([1.0, 1e6, 1e-6]))
        if M and rng.random() < 0.25:  # a huge peak next to tiny ones
            h[int(rng.integers(M))] *= 1e9
        if M > 1 and rng.random() < 0.4:
            w[1] = w[0]
        if rng.random() < 0.5:
            w = np.sort(w)
        if rng.random() < 0.2:
            w = np.array(np.rint(w), dtype=int)
        if rng.random() < 0.1:
            h = np.array(np.rint(h), dtype=int)
        fn = str(rng.choice(["gaussian", "lorentzian"]))
        width = [5, 0.5, 30.0, 2.5, 1e-2, 75.0, 150][int(rng.integers(7))]
        default = bool(M and rng.random() < 0.3)
        tol = "1e-9"
        if default:
            # a long default grid costs much and adds nothing
            w = (w - w.min()) / max(1.0, (w.max() - w.min())) * float(rng.choice([3.0, 40.0, 200.0]) if rng.random() < 0.9 else rng.choice([1500.0, 6000.0])) + float(rng.choice([-50.0, 0.3, 800.0]))
            x = None
        else:
            k = int(rng.integers(6))
            n = int(rng.choice([0, 1, 2, 9]))
            x = rng.uniform(-300, 3100, size=n)
            if M and n:
                x[: n // 2 + 1] = rng.choice(np.asarray(w, dtype=float), size=n // 2 + 1) + rng.normal(size=n // 2 + 1) * width * rng.choice([0, 1, 3])
            if k == 0:
                x = np.sort(x)[::-1].copy()
            elif k == 1 and n:
                x[-1] = x[0]
            elif k == 2:
                x = np.array(np.rint(x), dtype=int)
            elif k == 3:
                x = np.array(x, dtype=np.float32)
                tol = "1e-2"
                x = np.rint(x).astype(np.float32)  # distances are then exact
                w = np.array(np.rint(w), dtype=float)
                tol = "1e-5"
        kw = {} if x is None and rng.random() < 0.5 else {"out_wavenumbers": x}
        if fn != "gaussian" or rng.random() < 0.5:
            kw["function"] = fn
        if width != 5 or rng.random() < 0.5:
            kw["width"] = width
        out, res = t.call(convolve_spectrum, w, h, **kw)
        ok = res == "ok" and isinstance(out, tuple) and len(out) == 2
        t.add(
            "conv", bad="", wn=RR(w), h=RR(h), fn=fn, width=R(width), default=default, out=RR(x) if x is not None else [],
            x=num(out[0]) if ok else [], I=num(out[1]) if ok else [], tol=tol, res=res,
        )
    w, h = rng.uniform(100, 500, size=3), rng.normal(size=3)
    for bad, kw in (
        ("width", {"width": float(rng.choice([0, -0.0, -5]))}), ("function", {"function": str(rng.choice(["Gaussian", "voigt", ""]))}),
        ("shape", {"out_wavenumbers": rng.uniform(size=(2, 2))}),
    ):
        out, res = t.call(convolve_spectrum, w, h, **kw)
        t.add("conv", bad=bad, wn=[], h=[], fn="", width=[], default=False, out=[], x=[], I=[], tol="0", res=res)
    out, res = t.call(convolve_spectrum, w, h[:2])
    t.add("conv", bad="lengths", wn=[], h=[], fn="", width=[], default=False, out=[], x=[], I=[], tol="0", res=res)
    return t.trace()


# --------------------------------------------------------------------------- runs
def exact(ctx):
    cfg = "CONSTANTS B = {} NS = {} SB = {}\nINIT Init\nNEXT Next\n" + "".join(
        f"INVARIANT {i}\n" for i in (
            "RotationInvariant", "NonNegative", "Quadratic", "IsotropicPart", "TimeReversal", "QuadraticSignal", "AtLeastHalf", "Doubles", "DoublesTensor")
    )
    ctx.model_check("SpectrumExact", cfg.format(1, "{3, 4}" if not ctx.thorough else "{3, 4, 6}", ctx.pick(2, 3)))


def measure_spec(ctx):
    cfg = "CONSTANTS MaxLen = {} NObj = 2\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bounded\n"
    ctx.model_check("MeasureMC", cfg.format(ctx.pick(3, 4)) + "VIEW View\nINVARIANT Functional\nINVARIANT Separate\nINVARIANT IgnoredParameters\n")
    hists = ctx.behaviours("MeasureMC", cfg.format(10) + "INVARIANT PrintHist\n", num=ctx.pick(60, 600), depth=12)
    seen = {str(h): h for h in hists}
    traces = drive.generate(ctx, [(S, "replay_measure", i, {"hist": h}) for i, h in enumerate(list(seen.values())[: ctx.pick(150, 2000)])])
    ctx.validate("SpectrumTrace", traces, "spec behaviours replayed by the spectra")


def run_c16(ctx):
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_standin", ctx.pick(300, 5000)), "phonons and user-defined models")
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_library", ctx.pick(120, 2000)), "phonons and the library's models")


def run_c17(ctx):
    exact(ctx)
    measure_spec(ctx)
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_measure", ctx.pick(300, 6000)), "phonon measurements")
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_standin", ctx.pick(60, 800), start=50000), "measured model spectra")


def run_c18(ctx):
    exact(ctx)
    measure_spec(ctx)
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_md", ctx.pick(140, 2500)), "MD measurements")
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_md", ctx.pick(2, 8), start=70000, long=ctx.pick(160, 400)), "long MD series")
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_signal", ctx.pick(120, 2500)), "signals")
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_signal", ctx.pick(2, 6), start=70000, long=700), "long signals")
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_trajectory", ctx.pick(120, 2000)), "trajectories and models")


def run_c19(ctx):
    exact(ctx)
    ctx.validate("SpectrumTrace", drive.scenarios(ctx, S, "prof_conv", ctx.pick(300, 5000)), "convolutions")
