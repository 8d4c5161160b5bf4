"""Scenarios for files: C09 (displaced structures), C12 (round trips), C13 (directory),
C14 (damage), C15 (agreement of formats)."""

from __future__ import annotations

import hashlib
import json
import os
import re
from pathlib import Path

import numpy as np

from . import drive, vaspgen
from .core import R, RR, unR
from .crystals import CRYSTALS, Crystal
from .trace import Tracer

LABELS = [
    None, "", "plain", "two\nlines", "cr\rreturn", "quote ' and \" quotes", "tab\there", "back\\slash\\",
    "ünïcödé ☃", "\x0b\x0c\x1c", "line\u2028sep\x85", "lone \ud800 surrogate", "1.0", "x" * 3000, "\n", "nul\0byte",
    "  leading and trailing  ",
]
STABLE = [z for z in range(1, 84) if z not in (43, 61)]


def num(x):
    r = RR(x)
    return [] if isinstance(r, str) else r


def lines_of(path):
    """The lines of a text file as readers see them: [first character, tokens]."""
    res = []
    with open(path, "r", encoding="utf-8", errors="replace") as f:
        for line in f:
            body = line.rstrip("\n")
            res.append({"c": body[:1], "t": body.split()})
    return res


def lattice(rng):
    mode = int(rng.integers(5))
    if mode == 0:
        return np.diag(rng.uniform(2, 9, 3))
    L = np.diag(rng.uniform(3, 9, 3)) + rng.normal(size=(3, 3)) * 0.6
    if mode == 2:
        L = L * float(rng.choice([1e-2, 50.0]))
    if mode == 3:
        L = -L[[1, 0, 2]]
    if mode == 4:
        L = np.round(L, int(rng.integers(0, 4))) + np.diag([0.5] * 3)
    return L


def species(rng, most=4, grouped=True, pool=None):
    pool = pool or list(range(1, 119))
    zs = [int(z) for z in rng.permutation(pool)[: int(rng.integers(1, most + 1))]]
    counts = [int(rng.integers(1, 4)) for _ in zs]
    sp = [z for z, n in zip(zs, counts) for _ in range(n)]
    if not grouped:
        sp = [int(z) for z in rng.permutation(sp)]
    return sp


def interleaved(rng):
    """Several elements, one of which comes back later (cannot be written)."""
    zs = [int(z) for z in rng.permutation(np.arange(1, 119))[: int(rng.integers(2, 8))]]
    return zs + [zs[int(rng.integers(len(zs) - 1))]]


def cell_positions(rng, n):
    x = rng.random((n, 3))
    if rng.random() < 0.4:
        pick = rng.random((n, 3)) < 0.3
        x = np.where(pick, rng.choice([0.0, 1.0, 0.5, 1 / 3, 1e-16, 1e-9, 0.1, 0.9999999999999999, 2 / 3], size=(n, 3)), x)
    return x


class Files(Tracer):
    def __init__(self, rng, focus, tmp, **head):
        super().__init__(rng, focus, tmp, **head)
        self.dir = Path(tmp) / f"d{os.getpid()}_{rng.integers(1 << 60)}"
        self.dir.mkdir(parents=True)

    def fs(self):
        res = []
        for root, dirs, names in os.walk(self.dir):
            for n in sorted(dirs):
                res.append([os.path.relpath(os.path.join(root, n), self.dir) + "/", "dir"])
            for n in sorted(names):
                p = os.path.join(root, n)
                link = "link to " + os.readlink(p) + " " if os.path.islink(p) else ""
                res.append([os.path.relpath(p, self.dir), link + hashlib.md5(Path(p).read_bytes()).hexdigest()])
        return sorted(res)

    def arg(self, name):
        p = self.dir / name
        return str(p) if self.rng.random() < 0.5 else p

    def done(self):
        import shutil

        shutil.rmtree(self.dir, ignore_errors=True)
        return self.trace()

    # ---------------------------------------------------------------- writes
    def begin(self):
        self.add("fs", fs=self.fs())

    def event(self, op, paths, res, **kw):
        ok = res == "ok"
        lines = [lines_of(self.dir / p) if (self.dir / p).is_file() else [] for p in paths] if ok else []
        self.add(op, paths=list(paths), res=res, fs=self.fs(), lines=lines, **kw)

    def write_structure(self, L, sp, P, name, overwrite=False, label=None, via="poscar", fmt="poscar", typed=True, fmtok=True):
        from ramannoodle.io import generic
        from ramannoodle.io.vasp import poscar

        if via == "poscar":
            kw = {} if label is None else {"label": label}
            _, res = self.call(poscar.write_structure, L, sp, P, self.arg(name), overwrite=overwrite, **kw)
        else:
            _, res = self.call(generic.write_structure, L, sp, P, self.arg(name), fmt, overwrite)
        self.event(
            "write", [name], res, kind="structure", overwrite=overwrite, typed=typed, fmtok=fmtok,
            nodir=not (self.dir / name).parent.is_dir() or (self.dir / name).is_dir(),
            L=num(L) if typed else [], sp=list(sp) if typed else [], P=num(P) if typed else [],
        )
        return res

    def write_trajectory(self, L, sp, T, name, overwrite=False, label=None, via="xdatcar", fmt="xdatcar", typed=True, fmtok=True):
        from ramannoodle.io import generic
        from ramannoodle.io.vasp import xdatcar

        if via == "xdatcar":
            kw = {} if label is None else {"label": label}
            _, res = self.call(xdatcar.write_trajectory, L, sp, T, self.arg(name), overwrite=overwrite, **kw)
        else:
            _, res = self.call(generic.write_trajectory, L, sp, T, self.arg(name), fmt, overwrite)
        self.event(
            "write", [name], res, kind="trajectory", overwrite=overwrite, typed=typed, fmtok=fmtok,
            nodir=not (self.dir / name).parent.is_dir() or (self.dir / name).is_dir(),
            L=num(L) if typed else [], sp=list(sp) if typed else [], P=num(T) if typed else [],
        )
        return res

    # ---------------------------------------------------------------- reads
    def read(self, name, fmt, what, via="vasp", lines=None):
        from ramannoodle.io import generic
        from ramannoodle.io.vasp import poscar, xdatcar

        p = self.arg(name)
        given = float(self.rng.choice([0.5, 1.0, 2.25]))
        e = {"L": [], "sp": [], "P": [], "timestep": [], "given": R(given)}
        if what == "structure":
            out, res = self.call(poscar.read_structure, p)
            if res == "ok":
                e.update(L=num(out[0]), sp=[int(z) for z in out[1]], P=num(out[2]))
        elif what == "positions":
            out, res = self.call(poscar.read_positions, p) if via == "vasp" else self.call(generic.read_positions, p, via)
            if res == "ok":
                e.update(P=num(out))
        elif what == "ref":
            out, res = self.call(poscar.read_ref_structure, p) if via == "vasp" else self.call(generic.read_ref_structure, p, via)
            if res == "ok":
                e.update(L=num(out.lattice), sp=[int(z) for z in out.atomic_numbers], P=num(out.positions))
        elif what == "ts":
            out, res = self.call(xdatcar.read_positions_ts, p)
            if res == "ok":
                e.update(P=num(out))
        else:
            out, res = self.call(xdatcar.read_trajectory, p, given)
            if res == "ok":
                e.update(P=num(out.positions_ts), timestep=R(out.timestep))
        self.add("read", fmt=fmt, what=what, res=res, lines=lines_of(self.dir / name) if lines is None else lines, **e)


# --------------------------------------------------------------------------- C12
def separated(rng, n):
    """Positions without coinciding atoms (for symmetry searches)."""
    while True:
        x = cell_positions(rng, n)
        d = x[:, None] - x[None]
        d = np.abs(d - np.rint(d)).max(axis=-1) + np.eye(n)
        if d.min() > 0.02:
            return x


def dialect(rng, L, sp, P):
    """A POSCAR in one of the dialects other programs write."""
    digits = int(rng.choice([6, 9, 16]))
    scale = float(rng.choice([1.0, 1.0, 2.5, 0.5291772, 10.0]))
    raw = L / scale
    neg = rng.random() < 0.3
    stext = f"{scale:.10f}" if rng.random() < 0.7 else f"   {scale!r}  "
    if neg:
        vol = abs(np.linalg.det(L))
        k = float(rng.choice([1.0, 2.0, 0.3]))
        raw = L * k
        stext = f"{-float(vol)!r}"
    out = [str(rng.choice(["unknown system", "", "Ti O", "1.0", "comment # 5"])), stext]
    out += ["".join(f"{v:{digits + 6}.{digits}f}" for v in r) + str(rng.choice(["", "   # vector"])) for r in raw]
    rr = vaspgen.runs(sp)
    out += ["  ".join(vaspgen.SYMBOL[z] for z, _ in rr), "   ".join(str(n) for _, n in rr)]
    flags = False
    if rng.random() < 0.4:
        out.append(str(rng.choice(["Selective dynamics", "selective", "S"])))
        flags = True
    cart = rng.random() < 0.45
    if cart:
        out.append(str(rng.choice(["Cartesian", "cartesian", "C", "c"])))
        fac = scale
        if neg:
            fac = float(np.cbrt(vol / abs(np.linalg.det(raw))))
        x = (P @ L) / fac
    else:
        out.append(str(rng.choice(["Direct", "direct", "D", "d", "Direct configuration=     1"])))
        x = P
    tail = ""
    for i, r in enumerate(x):
        if flags:
            tail = "  " + "  ".join(rng.choice(["T", "F"], 3))
        elif rng.random() < 0.3:
            tail = "  " + vaspgen.SYMBOL[sp[i]]
        out.append(" ".join(f"{v:{digits + 5}.{digits}f}" for v in r) + tail)
    extra = int(rng.integers(4))
    if extra == 1:
        out += [""] + ["  0.00000000E+00  0.00000000E+00  0.00000000E+00"] * len(sp)
    if extra == 2:
        out += ["", "Direct"] + ["  0.1  0.2  0.3"] * len(sp)
    if extra == 3:
        out += ["Lattice velocities and vectors", "  1"]
    return "\n".join(out) + str(rng.choice(["\n", ""]))


def prof_large(rng, focus, tmp=None, frames=1003, atoms=130):
    """Many configurations; many atoms of one element."""
    t = Files(rng, focus, tmp)
    t.begin()
    L = lattice(rng)
    sp = [int(z) for z in rng.integers(1, 119, size=1)]
    T = rng.integers(0, 1000, size=(frames, 1, 3)) / 1000
    if t.write_trajectory(L, sp, T, "X") == "ok":
        t.read("X", "xdatcar", "ts")
    (t.dir / "V").write_text(vaspgen.xdatcar(L, sp, T, 8))
    t.read("V", "xdatcar", "traj")
    z1, z2 = (int(z) for z in rng.permutation(np.arange(1, 119))[:2])
    sp = [z1] * (atoms + int(rng.integers(20))) + [z2]
    P = rng.integers(0, 100000, size=(len(sp), 3)) / 100000
    if t.write_structure(L, sp, P, "P") == "ok":
        t.read("P", "poscar", "structure")
    (t.dir / "D").write_text(vaspgen.poscar(L, sp, P, 8))
    t.read("D", "poscar", "structure")
    return t.done()


def prof_roundtrip(rng, focus, tmp=None):
    t = Files(rng, focus, tmp)
    t.begin()
    L = lattice(rng)
    for k in range(3):
        sp = species(rng, pool=list(range(1, 119)))
        if k == 2:  # an element comes back
            sp = interleaved(rng)
        P = separated(rng, len(sp))
        name = f"P{t.nfile}"
        t.nfile += 1
        label = LABELS[int(rng.integers(len(LABELS)))]
        via = "poscar" if rng.random() < 0.7 else "generic"
        fmt = "poscar" if rng.random() < 0.6 else "xdatcar"
        if t.write_structure(L, sp, P, name, bool(rng.random() < 0.5), label, via, fmt) == "ok":
            for what in ("structure", "positions", "ref"):
                t.read(name, "poscar", what, str(rng.choice(["vasp", "poscar", "xdatcar"])))
    # trajectories
    sp = species(rng)
    S = int(rng.choice([1, 2, 3, 7, 13]))
    T = np.array([cell_positions(rng, len(sp)) for _ in range(S)])
    label = LABELS[int(rng.integers(len(LABELS)))]
    if t.write_trajectory(L, sp, T, "X", bool(rng.random() < 0.5), label, "xdatcar" if rng.random() < 0.6 else "generic") == "ok":
        t.read("X", "xdatcar", "ts")
        t.read("X", "xdatcar", "traj")
        if S == 1:
            t.read("X", "poscar", "positions", "xdatcar")
    # dialects
    for _ in range(3):
        sp = species(rng, most=6, grouped=bool(rng.random() < 0.7))
        P = separated(rng, len(sp)) + rng.integers(-1, 2, size=(len(sp), 3))
        name = f"D{t.nfile}"
        t.nfile += 1
        L = lattice(rng)
        if rng.random() < 0.1:
            L = L / np.cbrt(abs(np.linalg.det(L))) * float(rng.uniform(0.7, 1.3))
        (t.dir / name).write_text(dialect(rng, L, sp, P), encoding="utf-8")
        for what in ("structure", "positions", "ref"):
            t.read(name, "poscar", what, str(rng.choice(["vasp", "poscar", "xdatcar"])))
    # XDATCAR written by VASP
    sp = species(rng, grouped=bool(rng.random() < 0.7))
    T = [vaspgen.printed(cell_positions(rng, len(sp)), 8) for _ in range(int(rng.integers(1, 6)))]
    (t.dir / "V").write_text(vaspgen.xdatcar(L, sp, T, 8))
    t.read("V", "xdatcar", "ts")
    t.read("V", "xdatcar", "traj")
    return t.done()


# --------------------------------------------------------------------------- C13
def _bad_structure(rng, L, sp, P):
    """(L, sp, P, typed): arguments no writer can accept."""
    k = int(rng.integers(11))
    if k == 0:
        return L[:2], sp, P, True
    if k == 1:
        return L, sp, P[..., :2], True
    if k == 2:
        return L, sp + [1], P, True
    if k == 3:
        return L, sp[:-1], P, True
    if k == 4:
        return L, [0] + sp[1:], P, True
    if k == 5:
        return L, sp[:-1] + [119], P, True
    if k == 6:
        return L, sp, P + 1.5, True
    if k == 7:
        q = P.copy()
        q[..., -1, 2] = -0.25
        return L, sp, q, True
    if k == 8:
        return L.tolist(), sp, P, False
    if k == 9:
        return L, tuple(sp), P, False
    return L, sp, P.tolist(), False


def prof_store(rng, focus, tmp=None, steps=9):
    """Random sequences of writes into one directory."""
    t = Files(rng, focus, tmp)
    (t.dir / "old").write_text("something precious\n" * 200)
    (t.dir / "empty").write_text("")
    (t.dir / "sub").mkdir()
    (t.dir / "sub" / "old").write_text("x")
    (t.dir / "POSCAR").write_text("precious POSCAR\n" * 50)
    (t.dir / "XDATCAR").write_text("precious XDATCAR\n" * 50)
    (t.dir / "link").symlink_to("POSCAR")
    t.begin()
    names = ["old", "empty", "new1", "new2", "sub/old", "sub/new", "nowhere/new", "sub", "POSCAR", "XDATCAR", "CONTCAR", "a.vasp", "sub/XDATCAR", "link"]
    for _ in range(steps):
        L = lattice(rng)
        sp = species(rng, grouped=bool(rng.random() < 0.85))
        n = len(sp)
        name = str(rng.choice(names))
        ow = bool(rng.random() < 0.5) and name not in ("POSCAR", "link")
        bad = rng.random() < 0.3
        kind = int(rng.integers(6))
        typed = True
        if kind < 4:
            P = cell_positions(rng, n)
            if kind >= 2:
                P = np.array([cell_positions(rng, n) for _ in range(int(rng.integers(1, 4)))])
            if bad:
                L, sp, P, typed = _bad_structure(rng, L, sp, P)
            fmt = str(rng.choice(["poscar", "xdatcar", "xdatcar", "outcar", "POSCAR", "", "vasprun.xml"]))
            label = LABELS[int(rng.integers(len(LABELS)))] if rng.random() < 0.3 else None
            if kind == 0:
                t.write_structure(L, sp, P, name, ow, label, typed=typed)
            elif kind == 1:
                t.write_structure(L, sp, P, name, ow, None, "generic", fmt, typed, fmt in ("poscar", "xdatcar"))
            elif kind == 2:
                t.write_trajectory(L, sp, P, name, ow, label, typed=typed)
            else:
                t.write_trajectory(L, sp, P, name, ow, None, "generic", fmt, typed, fmt == "xdatcar")
        else:
            cname = str(rng.choice(["p-1", "nacl", "edge", "pmmm", "hcp"]))
            d = Disp(t, Crystal(cname, rng))
            picks = [str(x) for x in rng.permutation(["old", "empty", "new1", "new2", "new3", "sub/new", "sub/old"])[: int(rng.integers(1, 5))]]
            d.write(picks, ow, ast=kind == 5, miscount=bad, fmt=str(rng.choice(["poscar", "poscar", "xdatcar", "outcar"])))
        if rng.random() < 0.15 and (t.dir / "new1").exists():
            (t.dir / "new1").unlink()  # somebody else removes a file
            t.begin()
    # whatever exists by now stays as it is
    kind = int(rng.integers(4))
    L, sp = lattice(rng), species(rng)
    P = cell_positions(rng, len(sp))
    for name in names:
        if not (t.dir / name).is_file() or rng.random() < 0.3:
            continue
        if kind < 2:
            t.write_structure(L, sp, P, name, False, None, "generic" if kind else "poscar", str(rng.choice(["poscar", "xdatcar"])))
        else:
            t.write_trajectory(L, sp, P[None], name, False, None, "generic" if kind == 3 else "xdatcar", "xdatcar")
    return t.done()


def replay_store(rng, focus, tmp=None, hist=None):
    """A behaviour of StoreMC executed by the real writers."""
    t = Files(rng, focus, tmp)
    t.begin()
    struct = {}
    for c in (1, 2, 3):
        sp = species(rng, most=c)
        struct[c] = (lattice(rng), sp, cell_positions(rng, len(sp)))
    for h in hist:
        a, name, c, ow = h["act"], h["p"], h["c"], h["ow"]
        if a == "external":
            p = t.dir / name
            if c == 0:
                p.unlink(missing_ok=True)
            else:
                p.write_text("external\n" * (40 * c))
            t.begin()
        elif a in ("write", "invalid"):
            L, sp, P = struct[c]
            typed = True
            if a == "invalid":
                L, sp, P, typed = _bad_structure(rng, L, sp, P)
            if rng.random() < 0.5:
                t.write_structure(L, sp, P, name, ow, typed=typed, via=str(rng.choice(["poscar", "generic"])))
            elif typed:
                P = np.asarray(P)
                t.write_trajectory(L, sp, np.array([P] * c), name, ow, typed=typed, via=str(rng.choice(["xdatcar", "generic"])))
            else:
                t.write_trajectory(L, sp, [P], name, ow, typed=False)
        else:  # several files at once
            d = Disp(t, Crystal("p-1", rng))
            d.write(list(name), ow, ast=bool(rng.random() < 0.5), miscount=a == "miscount")
    return t.done()


# --------------------------------------------------------------------------- C09
class Disp:
    def __init__(self, t, cry):
        self.t, self.cry, self.rng = t, cry, t.rng
        if t.focus == "C09" and t.rng.random() < 0.3:  # some atoms outside the cell
            cry.positions = cry.positions + t.rng.integers(-1, 2, size=(cry.N, 3))
        self.ref = cry.ref()

    def args(self, num, ast):
        rng, N = self.rng, self.cry.N
        k = int(rng.integers(5))
        if ast:
            u = rng.normal(size=3) if k else np.eye(3)[int(rng.integers(3))]
            if k == 1:  # nearly along an axis
                u = np.eye(3)[int(rng.integers(3))] + rng.normal(size=3) * float(rng.choice([1e-3, 1e-4, 1e-5]))
        elif k == 0:
            u = np.zeros((N, 3))
            u[int(rng.integers(N)), int(rng.integers(3))] = 1
            if rng.random() < 0.5:
                u += rng.normal(size=(N, 3)) * float(rng.choice([1e-3, 1e-4, 1e-5]))
        else:
            u = rng.normal(size=(N, 3))
        u = u * float(rng.choice([1.0, 1e-3, 1e3, 1e-6, -2.0]))
        amps = rng.uniform(-1, 1, size=num) * float(rng.choice([0.01, 0.3, 5.0, 40.0]))
        if num and rng.random() < 0.3:
            amps[int(rng.integers(num))] = 0.0
        if num > 1 and rng.random() < 0.2:
            amps[1] = amps[0]
        if rng.random() < 0.1:
            amps = np.array(rng.integers(-2, 3, size=num))
        return u, amps, int(rng.integers(N)) if ast else -1

    def snapshot(self):
        return (self.ref.positions.tobytes(), self.ref.lattice.tobytes(), tuple(self.ref.atomic_numbers))

    def head(self, u, amps, atom, before):
        return {
            "L": RR(self.cry.L), "sp": list(self.cry.sp), "ref": RR(self.cry.positions), "u": RR(u),
            "atom": atom + 1, "amps": RR(np.asarray(amps, dtype=float)), "refsame": before == self.snapshot(),
        }

    def get(self, num=None, ast=False):
        from ramannoodle.structure import get_ast_displaced_positions, get_displaced_positions

        u, amps, atom = self.args(int(self.rng.integers(0, 7)) if num is None else num, ast)
        before = self.snapshot()
        if ast:
            out, res = self.t.call(get_ast_displaced_positions, self.ref, atom, u, amps)
        else:
            out, res = self.t.call(get_displaced_positions, self.ref, u, amps)
        self.t.add("disp", res=res, out=[num_(x) for x in out] if res == "ok" else [], **self.head(u, amps, atom, before))

    def write(self, names, overwrite=False, ast=False, miscount=False, fmt="poscar", num=None):
        from ramannoodle.structure import write_ast_displaced_structures, write_displaced_structures

        rng = self.rng
        n = len(names)
        if miscount:
            n = int(rng.choice([m for m in (n - 1, n + 1, n + 3, 2 * n, 0) if m >= 0 and m != len(names)]))
        u, amps, atom = self.args(n, ast)
        before = self.snapshot()
        files = [self.t.arg(x) for x in names]
        if len(files) == 1 and rng.random() < 0.5:
            files = files[0]
        if ast:
            _, res = self.t.call(write_ast_displaced_structures, self.ref, atom, u, amps, files, fmt, overwrite)
        else:
            _, res = self.t.call(write_displaced_structures, self.ref, u, amps, files, fmt, overwrite)
        self.t.event(
            "writedisp", names, res, overwrite=overwrite, fmtok=fmt in ("poscar", "xdatcar"), nodir=False,
            **self.head(u, amps, atom, before),
        )


num_ = num


def prof_disp(rng, focus, tmp=None, big=0):
    t = Files(rng, focus, tmp)
    (t.dir / "old").write_text("old\n")
    t.begin()
    names = sorted(CRYSTALS)
    cry = Crystal(names[int(rng.integers(len(names)))], rng)
    d = Disp(t, cry)
    for _ in range(4):
        d.get(ast=bool(rng.random() < 0.5))
    if big:
        d = Disp(t, Crystal("p1", rng))
        d.write([f"f{i}" for i in range(big)], ast=bool(rng.random() < 0.5))
        return t.done()
    for k in range(4):
        n = int(rng.integers(1, 6))
        pool = [f"g{k}_{i}" for i in range(n)]
        if rng.random() < 0.2:
            pool[int(rng.integers(n))] = "old"
        if rng.random() < 0.3:
            pool = pool[::-1]
        d.write(
            pool, overwrite=bool(rng.random() < 0.5), ast=bool(rng.random() < 0.5), miscount=rng.random() < 0.25,
            fmt=str(rng.choice(["poscar", "poscar", "xdatcar"])),
        )
    d.get()
    return t.done()


# --------------------------------------------------------------------------- C14 / C15
def calculation(rng, digits=12, phonons=True, md=True, most=3, steps_=0):
    """One calculation, its four files' texts and the abstract record."""
    from pymatgen.core import Element

    sp = species(rng, most=most, pool=STABLE, grouped=bool(rng.random() < 0.6))
    N = len(sp)
    L = vaspgen.printed(np.diag(rng.uniform(3, 8, 3)) + rng.normal(size=(3, 3)) * 0.5, digits)
    P = vaspgen.printed(separated(rng, N), digits)
    pol = vaspgen.printed(rng.normal(size=(3, 3)) * 4 + np.diag([7.0, 8, 9]), digits)
    modes, eigen = [], None
    if phonons:
        wns = vaspgen.printed(np.sort(rng.uniform(1, 1500, 3 * N))[::-1], 8)
        nim = int(rng.integers(0, 4))
        wns[3 * N - nim:] *= -1 if nim else 1
        vecs = vaspgen.printed(rng.normal(size=(3 * N, N, 3)), digits)
        modes = list(zip(wns, vecs))
        vals = [repr(float(-np.sign(w) * (abs(w) * 0.0299792458) ** 2)) for w in wns]
        eigen = (vals, vecs)
    steps = []
    if md:
        ml_run = rng.random() < 0.6
        prev = None
        x = P.copy()
        for _ in range(steps_ or int(rng.integers(1, 7))):
            ml = bool(ml_run and rng.random() < 0.5)
            if prev is not None and prev[1] and not ml:
                steps.append((prev[0], False))  # the ab initio repetition
                prev = steps[-1]
                continue
            x = vaspgen.printed(x + rng.normal(size=(N, 3)) * 0.05, 9)
            x = vaspgen.printed(x - np.floor(x), 9)
            steps.append((x, ml))
            prev = steps[-1]
    timestep = float(rng.choice([0.5, 1.0, 2.0, 0.25, 1.5]))
    counted = [s[0] for i, s in enumerate(steps) if not (i and steps[i - 1][1] and not s[1])]
    texts = {
        "outcar": vaspgen.outcar(
            rng, L, sp, P, pol, modes or None, [(vaspgen.printed(x @ L, 12), ml) for x, ml in steps] if steps else None,
            timestep, digits,
        ),
        "vasprun.xml": vaspgen.vasprun(rng, L, sp, P, pol, eigen, counted if steps else None, timestep, digits),
        "poscar": vaspgen.poscar(L, sp, P, digits),
    }
    # a single-structure XDATCAR and an MD one
    texts["xdatcar"] = vaspgen.xdatcar(L, sp, [P], digits)
    texts["xdatcar-md"] = vaspgen.xdatcar(L, sp, counted or [P], digits)
    calc = {
        "L": RR(L), "sp": sp, "P": RR(P), "pol": RR(pol),
        "modes": [{"wn": R(w), "vec": RR(v)} for w, v in modes],
        "steps": [{"P": RR(x), "ml": ml} for x, ml in steps],
        "timestep": R(timestep),
        "mass": [R(float(Element(vaspgen.SYMBOL[z]).atomic_mass)) for z in sp],
    }
    return calc, texts


def enc(what, out):
    """A reader's result as a record of fields."""
    if what == "phonons":
        return {"P": num(out.ref_positions), "wn": num(out.wavenumbers), "disp": num(out.displacements)}
    if what == "trajectory":
        return {"P": num(out.positions_ts), "timestep": R(out.timestep)}
    if what == "ts":
        return {"P": num(out), "timestep": R(0)}
    if what == "positions":
        return {"P": num(out)}
    if what == "positions_and_polarizability":
        return {"P": num(out[0]), "pol": num(out[1])}
    if what == "structure_and_polarizability":
        return {"L": num(out[0]), "sp": [int(z) for z in out[1]], "P": num(out[2]), "pol": num(out[3])}
    if what == "structure":
        return {"L": num(out[0]), "sp": [int(z) for z in out[1]], "P": num(out[2])}
    if what == "ref_structure":
        return {"L": num(out.lattice), "sp": [int(z) for z in out.atomic_numbers], "P": num(out.positions)}
    if what == "polarizability_dataset":
        return {
            "L": num(out.lattice), "sp": [int(z) for z in out.atomic_numbers], "P": num(out.positions),
            "pol": num(np.asarray(out.polarizabilities)),
        }
    raise KeyError(what)


def specific(fmt, what, timestep=0.5):
    from ramannoodle.io.vasp import outcar, poscar, vasprun, xdatcar

    if fmt in ("outcar", "vasprun.xml"):
        mod = outcar if fmt == "outcar" else vasprun
        if what in ("structure", "ts"):
            return None
        return getattr(mod, "read_" + what)
    if what in ("positions", "ref_structure", "structure"):
        return getattr(poscar, "read_" + what)
    if fmt == "xdatcar-md" and what == "trajectory":
        return lambda p: xdatcar.read_trajectory(p, timestep)
    if fmt in ("xdatcar", "xdatcar-md") and what == "ts":
        return xdatcar.read_positions_ts
    return None


WHATS = [
    "phonons", "trajectory", "positions", "positions_and_polarizability", "structure_and_polarizability",
    "ref_structure", "structure",
]


def prof_agree(rng, focus, tmp=None):
    from ramannoodle.io import generic

    calc, texts = calculation(rng)
    t = Files(rng, focus, tmp, calc=calc)
    for fmt, text in texts.items():
        (t.dir / fmt).write_text(text)
    order = [(f, w, v) for f in texts for w in WHATS for v in ("specific", "generic")]
    order = [order[i] for i in rng.permutation(len(order))]
    order.sort(key=lambda x: x[2] == "generic")
    for fmt, what, via in order:
        fn = specific(fmt, what, float(unR(calc["timestep"])))
        if via == "specific":
            if fn is None or (fmt == "xdatcar-md" and what not in ("trajectory", "ts")):
                continue
            out, res = t.call(fn, t.arg(fmt))
        else:
            if fmt == "xdatcar-md" or what == "structure":
                continue
            out, res = t.call(getattr(generic, "read_" + what), t.arg(fmt), fmt)
        ofmt = "xdatcar" if fmt == "xdatcar-md" else fmt
        t.add("calc", what=what, fmt=ofmt, via=via, res=res, out=enc(what, out) if res == "ok" else [], supported=[])
    for bad in ("OUTCAR", "vasprun", "cif", "", "xml"):
        what = str(rng.choice(WHATS[:-1]))
        _, res = t.call(getattr(generic, "read_" + what), t.arg("outcar"), bad)
        t.add("calc", what=what, fmt=bad, via="generic", res=res, out=[], supported=[])
    return t.done()


GARBAGE = ["********", "abc", "1.0.0", "--", "0,5", "1e", "#"]


def between(fmt, text, N):
    """Whether a truncated file ends between two configurations (not inside one)."""
    lines = text.splitlines()
    whole = lambda rows: len(rows) == N and all(len(r.split()) >= 3 for r in rows)
    if fmt == "xdatcar-md":
        return len(lines) > 7 and (len(lines) - 7) % (N + 1) == 0 and whole(lines[-N:])
    if fmt == "outcar":
        heads = [i for i, x in enumerate(lines) if "POSITION" in x and "TOTAL-FORCE" in x]
        if not heads:
            return False
        ml = ["(ML)" in lines[i] for i in heads]
        repeated = len(ml) > 1 and ml[-2] and not ml[-1]
        return repeated or whole(lines[heads[-1] + 2 : heads[-1] + 2 + N])
    return False


def damages(rng, text, fmt, limit, nbytes=0):
    """(kind, damaged text): every cut after a line, between tokens, garbled tokens."""
    lines = text.split("\n")[:-1]
    out = []
    for i in range(len(lines)):
        out.append(("cut", i, -1))
        toks = list(re.finditer(r"[^\s<>]+", lines[i]))
        numeric = [k for k, m in enumerate(toks) if re.fullmatch(r"[+-]?\d+\.?\d*(e[+-]?\d+)?", m.group())]
        for k in numeric:
            if k and k - 1 in numeric:
                out.append(("cuttok", i, toks[k].start()))
            out.append(("garble", i, (toks[k].start(), toks[k].end())))
        # rows of numbers (or XML vectors and atoms) which are missing altogether
        row = re.sub(r"^\s*<(v|rc)>(.*)</(v|rc)>\s*$", r"\2", lines[i])
        if "<rc>" in lines[i] or (toks and re.fullmatch(r"[-+.\deE\s]+", row)):
            out.append(("drop", i, -1))
        # element symbols which do not exist
        for m in re.finditer(r"(?<=<rc><c>)\s*[A-Z][a-z]?|(?<=PAW_PBE )[A-Z][a-z]?\b", lines[i]):
            out.append(("symbol", i, m.span()))
        if fmt in ("poscar", "xdatcar-md") and i == 5:
            out += [("symbol", i, m.span()) for m in re.finditer(r"[A-Z][a-z]?", lines[i])]
        if fmt in ("poscar", "xdatcar-md") and i == 6:  # the numbers of atoms
            out += [("count", i, m.span()) for m in toks] + [("count", i, None)]
        if numeric and rng.random() < (0.2 if i < 400 else 0.02):
            k = numeric[int(rng.integers(len(numeric)))]
            out.append(("bytes", i, toks[k].start()))
    if limit and len(out) > limit:
        out = [out[i] for i in sorted(rng.permutation(len(out))[:limit])]
    for _ in range(nbytes):  # text that is no text
        i = int(rng.integers(len(lines)))
        out.append(("bytes", i, int(rng.integers(len(lines[i]) + 1))))
    for kind, i, where in out:
        if kind == "cut":
            yield kind, "\n".join(lines[:i]) + ("\n" if i and rng.random() < 0.7 else "")
        elif kind == "drop":
            yield kind, "\n".join(lines[:i] + lines[i + 1:]) + "\n"
        elif kind == "bytes":
            yield kind, "\n".join(lines[:i] + [lines[i][:where] + "\udcff\udcfe" + lines[i][where:]] + lines[i + 1:]) + "\n"
        elif kind == "count":
            new = lines[i] + "  1" if where is None else lines[i][: where[0]] + lines[i][where[1]:]
            yield kind, "\n".join(lines[:i] + [new] + lines[i + 1:]) + "\n"
        elif kind == "symbol":
            a, b = where
            bad = ("Xx", "Qa", "Zz", "Jj")[int(rng.integers(4))]
            yield kind, "\n".join(lines[:i] + [lines[i][:a] + bad + lines[i][b:]] + lines[i + 1:]) + "\n"
        elif kind == "cuttok":
            yield kind, "\n".join(lines[:i] + [lines[i][:where]]) + ("\n" if rng.random() < 0.3 else "")
        else:
            a, b = where
            bad = GARBAGE[int(rng.integers(len(GARBAGE)))]
            yield kind, "\n".join(lines[:i] + [lines[i][:a] + bad + lines[i][b:]] + lines[i + 1:]) + "\n"


def prof_damage(rng, focus, tmp=None, fmt="outcar", limit=0, long=0):
    style = int(rng.integers(3)) if not long else 1
    calc, texts = calculation(
        rng, digits=6, phonons=style != 1 and fmt not in ("poscar", "xdatcar-md"), md=style != 0 or fmt == "xdatcar-md", most=2,
        steps_=long,
    )
    text = texts[fmt]
    if fmt == "poscar" and rng.random() < 0.8:  # the other dialects
        text = dialect(rng, np.array(unR(calc["L"])), calc["sp"], np.array(unR(calc["P"]))).rstrip("\n") + "\n"
    t = Files(rng, focus, tmp)
    path = t.dir / "f"
    whats = [w for w in WHATS + ["ts"] if specific(fmt, w) is not None]
    if fmt in ("outcar", "vasprun.xml"):
        if style == 1:
            whats.remove("phonons")
        if style == 0:
            whats.remove("trajectory")
    path.write_text(text)
    full = {}
    for w in whats:
        out, res = t.call(specific(fmt, w), path)
        if res != "ok":
            t.add("damaged", kind="none", what=w, traj=False, frames=False, clean=False, res="rejected:" + res, out={}, full={})
            continue
        full[w] = enc(w, out)
    whats = list(full)
    known = {}
    for kind, bad in damages(rng, text, fmt, limit, 12 if long else 0):
        path.write_bytes(bad.encode("utf-8", "surrogateescape"))
        clean = kind in ("cut", "cuttok") and between(fmt, bad, len(calc["sp"]))
        picks = whats if limit else [whats[i] for i in rng.permutation(len(whats))[:3]]
        for w in picks:
            out, res = t.call(specific(fmt, w), path, watch=False)
            o = enc(w, out) if res == "ok" else {}
            e = {
                "kind": kind, "what": w, "traj": w in ("trajectory", "ts"),
                "clean": clean, "frames": res == "ok" and w in ("trajectory", "ts"), "res": res, "out": o,
                "full": full[w] if res == "ok" else {},
            }
            # identical observations need to be judged only once
            key = json.dumps(e, sort_keys=True)
            known[key] = known.get(key, 0) + 1
            if known[key] == 1:
                t.add("damaged", **e)
    t.head["damages"] = sum(known.values())
    path.unlink()
    for w in whats:
        _, res = t.call(specific(fmt, w), path)
        t.add("missing", what=w, res=res)
    return t.done()


# --------------------------------------------------------------------------- runs
S = "harness.files"


def run_c09(ctx):
    n = ctx.pick(250, 4000)
    traces = drive.scenarios(ctx, S, "prof_disp", n)
    traces += drive.scenarios(ctx, S, "prof_disp", ctx.pick(2, 10), start=100000, big=300)
    ctx.validate("VaspTrace", traces, "displaced structures")


def run_c12(ctx):
    traces = drive.scenarios(ctx, S, "prof_roundtrip", ctx.pick(220, 4000))
    traces += drive.scenarios(ctx, S, "prof_large", ctx.pick(1, 12), start=200000)
    ctx.validate("VaspTrace", traces, "written and foreign files")


def store_spec(ctx):
    maxlen = ctx.pick(4, 5)
    cfg = "CONSTANTS MaxLen = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\nCONSTRAINT Bounded\n"
    ctx.model_check(
        "StoreMC",
        cfg.format(maxlen) + "VIEW View\nINVARIANT TypeOK\nPROPERTY NeverLost\nPROPERTY OnlyGiven\nPROPERTY RejectedIsNoOp\nPROPERTY Replaced\n",
    )
    hists = ctx.behaviours("StoreMC", cfg.format(7) + "INVARIANT PrintHist\n", num=ctx.pick(80, 900), depth=9)
    seen = {json.dumps(h[:-1]): h for h in hists}
    return list(seen.values())[: ctx.pick(250, 3000)]


def run_c13(ctx):
    hists = store_spec(ctx)
    traces = drive.generate(ctx, [(S, "replay_store", i, {"hist": h}) for i, h in enumerate(hists)])
    ctx.validate("VaspTrace", traces, "spec behaviours replayed by the writers")
    ctx.validate("VaspTrace", drive.scenarios(ctx, S, "prof_store", ctx.pick(250, 4000)), "seeded write sequences")


def run_c14(ctx):
    jobs = []
    for k, fmt in enumerate(["outcar", "vasprun.xml", "poscar", "xdatcar-md"]):
        n = ctx.pick({"outcar": 22, "vasprun.xml": 22, "poscar": 10, "xdatcar-md": 10}[fmt], 150)
        jobs += [(S, "prof_damage", 1000 * k + i, {"fmt": fmt, "limit": 0}) for i in range(n)]
    # files longer than what is read at once
    for k, fmt in enumerate(["outcar", "vasprun.xml", "xdatcar-md"] * ctx.pick(1, 15)):
        jobs.append((S, "prof_damage", 9000 + k, {"fmt": fmt, "limit": 12, "long": 260}))
    traces = drive.generate(ctx, jobs)
    ctx.detail["damaged_files_read"] = sum(t.get("damages", 0) for t in traces)
    ctx.validate("VaspTrace", traces, "every cut and every garbled number")


def run_c15(ctx):
    ctx.validate("VaspTrace", drive.scenarios(ctx, S, "prof_agree", ctx.pick(200, 3500)), "one calculation in all formats")
