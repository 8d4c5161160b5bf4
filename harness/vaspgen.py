"""Generators of VASP files (OUTCAR, vasprun.xml, POSCAR, XDATCAR) from plain data.

Layouts follow real VASP output, including the blocks a reader has to skip.  Numbers
are rounded to the printed digits first; generators return the printed values.
"""

from __future__ import annotations

import numpy as np

_SYMS = (
    "H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga "
    "Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr "
    "Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr "
    "Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc "
    "Lv Ts Og"
).split()
SYMBOL = {i + 1: s for i, s in enumerate(_SYMS)}
NUMBER = {s: i for i, s in SYMBOL.items()}


def runs(sp):
    res: list[list[int]] = []
    for z in sp:
        if res and res[-1][0] == z:
            res[-1][1] += 1
        else:
            res.append([z, 1])
    return res


def printed(x, digits):
    """Values as they will be printed with that many decimals."""
    x = np.asarray(x, dtype=float)
    return np.array([float(f"{v:.{digits}f}") for v in x.ravel()]).reshape(x.shape)


def _rows(x, digits, width, pad=""):
    return [pad + "".join(f"{v:{width}.{digits}f}" for v in row) for row in x]


def outcar(
    rng,
    lattice,
    sp,
    positions,
    pol=None,
    modes=None,
    steps=None,
    timestep=0.5,
    digits=12,
    style=None,
):
    """OUTCAR text. modes: [(wavenumber, (N,3) Cartesian eigenvector)];
    steps: [((N,3) Cartesian positions, is_ml)].  All values already printed()."""
    style = int(rng.integers(3)) if style is None else style
    w = digits + 6
    L = np.asarray(lattice)
    inv = np.linalg.inv(L).T
    rr = runs(sp)
    suffix = ["", "", "_pv", "_sv", "_s", "_3", "_d", "_h", "_2", "_GW", "_sv_GW", "_d_GW", "_AE"]
    pot = [SYMBOL[z] + suffix[int(rng.integers(len(suffix)))] for z, _ in rr]
    out = [
        " vasp.6.3.0 20Jan22 (build Apr 15 2022) complex",
        "  ",
        " executed on             LinuxGNU date 2023.07.25  17:03:51",
        " running on    4 total cores",
        "",
        " INCAR:",
        "   ISMEAR = 0",
        "   LEPSILON = .TRUE.",
        "",
    ]
    pots = [f" POTCAR:    PAW_PBE {p} 07Sep2000" for p in pot]
    out += pots
    if style == 0:
        # second listing follows immediately (no warning box between)
        out += [pots[0], f"   VRHFIN ={SYMBOL[rr[0][0]]}: d3 s1", "   LEXCH  = PE"]
        rest = pots[1:]
    else:
        out += [
            " -----------------------------------------------------------------------------",
            "|                                                                             |",
            "|           W    W    AA    RRRRR   N    N  II  N    N   GGGG   !!!           |",
            " -----------------------------------------------------------------------------",
            "",
        ]
        rest = pots
    for line in rest:
        out += [line, "   VRHFIN =X: s2p4", "   LEXCH  = PE", "   EATOM  =  1042.5995 eV,   76.6289 Ry", ""]
    if style != 2:
        # symmetry analysis with another (primitive) cell
        prim = 0.5 * L[::-1]
        out += [
            "                                     Primitive cell",
            "",
            "  volume of cell :      69.0636",
            "",
            "  direct lattice vectors                    reciprocal lattice vectors",
        ]
        out += [a + b for a, b in zip(_rows(prim, digits, w), _rows(2 * inv, digits, w))]
        out += ["", "  length of vectors", "     5.500241970  5.500241970  5.500241974     0.283504205  0.283504204  0.372918954", ""]
        out += ["  position of ions in fractional coordinates (direct lattice)"]
        out += _rows(printed(rng.random((2, 3)), digits), digits, w)
        out += [""]
    out += [
        " Dimension of arrays:",
        "   k-points           NKPTS =      4   k-points in BZ     NKDIM =      4",
        f"   number of dos      NEDOS =    301   number of ions     NIONS = {len(sp):6d}",
        "   ions per type =          " + "".join(f"{n:6d}" for _, n in rr),
        "   NGX,Y,Z   is equivalent  to a cutoff of   8.18,  8.18,  8.31 a.u.",
        "",
        " Ionic relaxation",
        "   NSW    =      1    number of steps for IOM",
        f"   POTIM  = {timestep!r}    time-step for ionic-motion",
        "   TEIN   =    0.0    initial temperature",
        "",
        " Mass of Ions in am",
        "   POMASS =  47.88 16.00",
        " Write flags",
        "   LWAVE        =      F    write WAVECAR",
        "",
        "  energy-cutoff  :      400.00",
        f"  volume of cell :     {abs(np.linalg.det(L)):.2f}",
        "      direct lattice vectors                 reciprocal lattice vectors",
    ]
    out += [a + b for a, b in zip(_rows(L, digits, w), _rows(inv, digits, w))]
    out += [
        "",
        "  length of vectors",
        "    11.376843422 11.376843422  9.604574574     0.087897843  0.087897843  0.104117053",
        "",
        " k-points in reciprocal lattice and weights: Automatic mesh",
        "   0.25000000  0.25000000  0.25000000       1.000",
        "",
        " position of ions in fractional coordinates (direct lattice)",
    ]
    out += _rows(positions, digits, w)
    out += ["", " position of ions in cartesian coordinates  (Angst):"]
    out += _rows(np.asarray(positions) @ L, digits, w)
    out += ["", "", "--------------------------------------- Iteration      1(   1)  ---------------------------------------", ""]
    if steps is not None:
        for i, (cart, ml) in enumerate(steps):
            out += [
                f"--------------------------------------- Iteration {i + 1:6d}(   1)  ---------------------------------------",
                "  volume of cell :     1243.14",
                "      direct lattice vectors                 reciprocal lattice vectors",
            ]
            out += [a + b for a, b in zip(_rows(L, digits, w), _rows(inv, digits, w))]
            out += [
                "",
                " POSITION                                       TOTAL-FORCE (eV/Angst)" + (" (ML)" if ml else ""),
                " -----------------------------------------------------------------------------------",
            ]
            out += [a + "".join(f"{v:14.6f}" for v in rng.normal(size=3)) for a in _rows(cart, digits, w)]
            out += [
                " -----------------------------------------------------------------------------------",
                "    total drift:                                0.000031      0.000012     -0.000005",
                "",
            ]
    if pol is not None:
        for head in (
            " MACROSCOPIC STATIC DIELECTRIC TENSOR (excluding local field effects)",
            " MACROSCOPIC STATIC DIELECTRIC TENSOR (including local field effects in DFT)",
        ):
            tensor = pol if "including" in head else np.asarray(pol) + 1.0
            out += [head, " ------------------------------------------------------"]
            out += _rows(tensor, digits, w, "  ")
            out += [" ------------------------------------------------------", ""]
    if modes is not None:
        carts = np.asarray(positions) @ L
        out += [
            "",
            " Eigenvectors and eigenvalues of the dynamical matrix",
            " ----------------------------------------------------",
            "",
            "",
        ]
        for i, (wn, vec) in enumerate(modes):
            f = abs(wn) * 0.0299792458
            tag = "f/i=" if wn < 0 else "f  ="
            out += [
                f"{i + 1:4d} {tag} {f:11.6f} THz {2 * np.pi * f:12.6f} 2PiTHz {abs(wn):16.10f} cm-1 {abs(wn) * 0.12398:12.6f} meV",
                "             X         Y         Z           dx          dy          dz",
            ]
            out += [a + b for a, b in zip(_rows(carts, 6, 12), _rows(vec, digits, w))]
            out += [" "]
        out += [
            " Eigenvectors after division by SQRT(mass)",
            " Finite differences POTIM=  0.01500",
        ]
    out += ["", " General timing and accounting informations for this job:", ""]
    return "\n".join(out) + "\n"


def vasprun(
    rng,
    lattice,
    sp,
    positions,
    pol=None,
    eigen=None,
    steps=None,
    timestep=0.5,
    digits=12,
):
    """vasprun.xml text. eigen: (eigenvalue strings (THz^2, VASP sign), [(N,3)]);
    steps: [(N,3) fractional]."""
    w = digits + 7
    L = np.asarray(lattice)

    def varray(name, rows, pad):
        res = [f'{pad}<varray name="{name}" >']
        res += [f"{pad} <v>{''.join(f'{v:{w}.{digits}f}' for v in r)} </v>" for r in rows]
        return res + [f"{pad}</varray>"]

    def crystal(lat, pad):
        res = [pad + "<crystal>"] + varray("basis", lat, pad + " ")
        res += [f'{pad} <i name="volume">    {abs(np.linalg.det(lat)):.8f} </i>']
        res += varray("rec_basis", np.linalg.inv(lat).T, pad + " ")
        return res + [pad + "</crystal>"]

    rr = runs(sp)
    out = [
        '<?xml version="1.0" encoding="ISO-8859-1"?>',
        "<modeling>",
        " <generator>",
        '  <i name="program" type="string">vasp </i>',
        " </generator>",
        " <incar>",
        '  <i name="POTIM">      9.01500000</i>',
        " </incar>",
        " <primitive_cell>",
        '  <structure name="primitive_cell" >',
    ]
    out += crystal(0.5 * L[::-1], "   ")
    out += varray("positions", printed(rng.random((2, 3)), digits), "   ")
    out += ["  </structure>", " </primitive_cell>", " <parameters>", '  <separator name="ionic" >']
    out += [
        '   <i type="int" name="NSW">     1</i>',
        f'   <i name="POTIM">      {timestep!r}</i>',
        "  </separator>",
        " </parameters>",
        " <atominfo>",
        f"  <atoms>      {len(sp)} </atoms>",
        f"  <types>       {len(rr)} </types>",
        '  <array name="atoms" >',
        '   <dimension dim="1">ion</dimension>',
        '   <field type="string">element</field>',
        '   <field type="int">atomtype</field>',
        "   <set>",
    ]
    for t, (z, n) in enumerate(rr):
        out += [f"    <rc><c>{SYMBOL[z]:2s}</c><c>{t + 1:4d}</c></rc>"] * n
    out += [
        "   </set>",
        "  </array>",
        '  <array name="atomtypes" >',
        '   <field type="int">atomspertype</field>',
        '   <field type="string">element</field>',
        "   <set>",
    ]
    out += [f"    <rc><c>{n:4d}</c><c>{SYMBOL[z]:2s}</c><c>     47.88000000</c></rc>" for z, n in rr]
    out += ["   </set>", "  </array>", " </atominfo>", ' <structure name="initialpos" >']
    out += crystal(L, "  ") + varray("positions", positions, "  ") + [" </structure>"]
    last = positions
    for p in steps if steps is not None else []:
        out += [" <structure>"] + crystal(L, "  ") + varray("positions", p, "  ") + [" </structure>"]
        last = p
    out += [" <calculation>", "  <scstep>", '   <energy><i name="e_fr_energy">  -1.0 </i></energy>', "  </scstep>"]
    if pol is not None:
        out += varray("dielectric_ipa", np.asarray(pol) + 1, "  ")
        out += varray("dielectric_dft", pol, "  ")
    out += ["  <structure>"] + crystal(L, "   ") + varray("positions", last, "   ") + ["  </structure>"]
    if eigen is not None:
        vals, vecs = eigen
        n = 3 * len(sp)
        out += ["  <dynmat>", '   <i name="unit" type="string">THz^2 </i>']
        out += ['   <varray name="hessian" >'] + ["    <v> " + " ".join(["1.0"] * n) + "</v>"] * 2 + ["   </varray>"]
        out += ['   <v name="eigenvalues"> ' + "  ".join(vals) + "</v>"]
        out += ['   <varray name="eigenvectors" >']
        out += ["    <v> " + " ".join(f"{x:.{digits}f}" for x in np.asarray(v).ravel()) + "</v>" for v in vecs]
        out += ["   </varray>", "  </dynmat>"]
    out += [" </calculation>", ' <structure name="finalpos" >']
    out += crystal(L, "  ") + varray("positions", last, "  ") + [" </structure>", "</modeling>"]
    return "\n".join(out) + "\n"


def poscar(lattice, sp, positions, digits=14, label="made up", cart=False, scale=1.0):
    L = np.asarray(lattice)
    out = [label, f"  {scale!r}"]
    out += _rows(L / scale, digits, digits + 6)
    rr = runs(sp)
    out += ["".join(f"{SYMBOL[z]:>5s}" for z, _ in rr), "".join(f"{n:5d}" for _, n in rr)]
    if cart:
        out += ["Cartesian"] + _rows(np.asarray(positions) @ L / scale, digits, digits + 6)
    else:
        out += ["Direct"] + _rows(positions, digits, digits + 6)
    return "\n".join(out) + "\n"


def xdatcar(lattice, sp, frames, digits=14, label="made up"):
    L = np.asarray(lattice)
    rr = runs(sp)
    out = [label, "           1"] + _rows(L, digits, digits + 6)
    out += ["".join(f"{SYMBOL[z]:>5s}" for z, _ in rr), "".join(f"{n:6d}" for _, n in rr)]
    for i, f in enumerate(frames):
        out += [f"Direct configuration= {i + 1:5d}"] + _rows(f, digits, digits + 6)
    return "\n".join(out) + "\n"


def structure_file(fmt, rng, lattice, sp, positions, pol, digits=13):
    """(text, printed positions, printed polarizability) of a single-structure file."""
    p = printed(np.asarray(positions) - np.floor(positions), digits)
    a = printed(pol, digits)
    L = printed(lattice, digits)
    if fmt == "outcar":
        return outcar(rng, L, sp, p, a, digits=digits), p, a
    if fmt == "vasprun.xml":
        return vasprun(rng, L, sp, p, a, digits=digits), p, a
    if fmt == "poscar":
        return poscar(L, sp, p, digits), p, a
    if fmt == "xdatcar":
        return xdatcar(L, sp, [p], digits), p, a
    raise ValueError(fmt)
