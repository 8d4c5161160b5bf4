"""Crystal library and generators of symmetric data (inputs only, never an oracle)."""

from __future__ import annotations

import itertools

import numpy as np

# name: (n, G, [(atomic number, (i,j,k)), ...], K)
CRYSTALS = {
    # simple cubic, one atom
    "sc": (4, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [(29, (0, 0, 0))], 1),
    # CsCl
    "cscl": (4, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [(55, (0, 0, 0)), (17, (2, 2, 2))], 1),
    # perovskite
    "perov": (
        4,
        [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
        [(38, (0, 0, 0)), (22, (2, 2, 2)), (8, (2, 2, 0)), (8, (2, 0, 2)), (8, (0, 2, 2))],
        1,
    ),
    # zinc blende, primitive fcc cell
    "zb": (4, [[2, 1, 1], [1, 2, 1], [1, 1, 2]], [(30, (0, 0, 0)), (16, (1, 1, 1))], 1),
    # diamond primitive
    "diam": (4, [[2, 1, 1], [1, 2, 1], [1, 1, 2]], [(14, (0, 0, 0)), (14, (1, 1, 1))], 1),
    # rocksalt primitive
    "nacl": (4, [[2, 1, 1], [1, 2, 1], [1, 1, 2]], [(11, (0, 0, 0)), (17, (2, 2, 2))], 1),
    # tetragonal, rutile-like with u = 0.3
    "rutile": (
        20,
        [[9, 0, 0], [0, 9, 0], [0, 0, 4]],
        [
            (22, (0, 0, 0)),
            (22, (10, 10, 10)),
            (8, (6, 6, 0)),
            (8, (14, 14, 0)),
            (8, (16, 4, 10)),
            (8, (4, 16, 10)),
        ],
        1,
    ),
    # tetragonal 4 (polar-ish, low symmetry on general positions of P4)
    "p4": (
        20,
        [[4, 0, 0], [0, 4, 0], [0, 0, 7]],
        [(15, (3, 1, 0)), (15, (19, 3, 0)), (15, (17, 19, 0)), (15, (1, 17, 0)), (50, (0, 0, 7))],
        1,
    ),
    # hexagonal close packed
    "hcp": (12, [[2, -1, 0], [-1, 2, 0], [0, 0, 5]], [(12, (4, 8, 3)), (12, (8, 4, 9))], 1),
    # wurtzite-like (polar hexagonal)
    "wz": (
        24,
        [[2, -1, 0], [-1, 2, 0], [0, 0, 5]],
        [(30, (8, 16, 0)), (30, (16, 8, 12)), (8, (8, 16, 9)), (8, (16, 8, 21))],
        1,
    ),
    # trigonal P3: chiral-like, threefold only
    "p3": (
        12,
        [[2, -1, 0], [-1, 2, 0], [0, 0, 3]],
        [(34, (1, 4, 2)), (34, (8, 9, 2)), (34, (3, 11, 2)), (33, (0, 0, 7))],
        1,
    ),
    # quartz-like P3_1 screw
    "p31": (
        12,
        [[2, -1, 0], [-1, 2, 0], [0, 0, 5]],
        [(14, (1, 4, 0)), (14, (8, 9, 4)), (14, (3, 11, 8))],
        1,
    ),
    # orthorhombic Pmmm with two sites
    "pmmm": (8, [[2, 0, 0], [0, 3, 0], [0, 0, 5]], [(26, (0, 0, 0)), (8, (0, 0, 3)), (8, (0, 0, 5))], 1),
    # monoclinic P2/m-like
    "mono": (
        10,
        [[3, 0, 1], [0, 4, 0], [1, 0, 5]],
        [(20, (0, 0, 0)), (9, (2, 0, 3)), (9, (8, 0, 7))],
        1,
    ),
    # triclinic P-1
    "p-1": (
        10,
        [[5, 1, 2], [1, 6, -1], [2, -1, 7]],
        [(19, (0, 0, 0)), (35, (2, 3, 1)), (35, (8, 7, 9))],
        1,
    ),
    # triclinic P1
    "p1": (10, [[5, 1, 2], [1, 6, -1], [2, -1, 7]], [(19, (0, 0, 0)), (35, (2, 3, 1)), (8, (5, 1, 6))], 1),
    # 2x1x1 supercell of simple cubic (pure translations in the group)
    "sc2": (8, [[4, 0, 0], [0, 1, 0], [0, 0, 1]], [(29, (0, 0, 0)), (29, (4, 0, 0))], 1),
    # body centred cubic, conventional cell (centring translation)
    "bcc": (4, [[1, 0, 0], [0, 1, 0], [0, 0, 1]], [(26, (0, 0, 0)), (26, (2, 2, 2))], 1),
    # rhombohedral
    "rhom": (10, [[5, 2, 2], [2, 5, 2], [2, 2, 5]], [(83, (2, 2, 2)), (83, (8, 8, 8)), (52, (0, 0, 0))], 1),
    # skewed (non-reduced) setting of the tetragonal cell
    "skew": (4, [[1, 1, 0], [1, 2, 0], [0, 0, 2]], [(29, (0, 0, 0)), (8, (0, 0, 2))], 2),
    # very skewed settings of the tetragonal and of a hexagonal cell
    "vskew": (4, [[5, 3, 0], [3, 2, 0], [0, 0, 2]], [(29, (0, 0, 0)), (8, (0, 0, 2))], 5),
    "vhex": (12, [[14, -9, 0], [-9, 6, 0], [0, 0, 5]], [(14, (5, 9, 0)), (14, (5, 2, 4)), (14, (2, 1, 8))], 8),
    # nearly orthorhombic monoclinic and nearly cubic orthorhombic cells
    "near1": (8, [[1000, 0, 26], [0, 1300, 0], [26, 0, 1700]], [(26, (0, 0, 0)), (8, (0, 0, 3)), (8, (0, 0, 5))], 1),
    "near2": (4, [[1000, 0, 0], [0, 1004, 0], [0, 0, 1009]], [(55, (0, 0, 0)), (17, (2, 2, 2))], 1),
    # atoms close to / on the cell boundary and interleaved species
    "edge": (
        20,
        [[6, 0, 0], [0, 6, 0], [0, 0, 7]],
        [(8, (19, 0, 0)), (22, (0, 0, 10)), (8, (1, 0, 0)), (8, (0, 19, 0)), (22, (10, 10, 0)), (8, (0, 1, 0))],
        1,
    ),
}

# many atoms and degrees of freedom (triclinic 24x1x1 supercell): used explicitly only
BIG = {
    "sup24": (
        24,
        [[5 * 576, 24, 48], [24, 160, -30], [48, -30, 190]],
        [(29, (i, 0, 0)) for i in range(24)],
        1,
    ),
    "sup10": (10, [[500, 10, 20], [10, 160, -30], [20, -30, 190]], [(29, (i, 0, 0)) for i in range(10)], 1),
}

# elements whose symbols are prefixes of one another, and any others
PREFIXES = [(6, 20), (6, 17), (7, 11), (1, 2), (8, 76), (15, 82), (16, 14), (5, 83), (19, 36), (53, 49), (9, 26), (39, 70), (16, 34), (74, 54)]


class Crystal:
    """A crystal with integer grid data and a concrete real lattice."""

    def __init__(self, name: str, rng, rotate: str = "random", scale: float | None = None):
        n, G, atoms, K = CRYSTALS.get(name) or BIG[name]
        self.name, self.n, self.G, self.K = name, n, np.array(G), K
        self.sp = [a for a, _ in atoms]
        own = rng.spawn(1)[0]
        if own.random() < 0.7:  # other elements (leaves the other draws alone)
            kinds = list(dict.fromkeys(self.sp))
            pair = list(PREFIXES[int(own.integers(len(PREFIXES)))]) if own.random() < 0.6 else []
            rest = [z for z in own.permutation(np.r_[1:43, 44:61, 62:84]).tolist() if z not in pair]
            new = ([int(z) for z in own.permutation(pair)] + rest)[: len(kinds)]
            if own.random() < 0.5:
                new = [new[i] for i in own.permutation(len(new))]
            self.sp = [dict(zip(kinds, new))[z] for z in self.sp]
        self.grid = np.array([p for _, p in atoms])
        self.positions = self.grid / n
        self.N = len(atoms)
        # grid lattice with L L^T = s^2 G
        s = scale or float(rng.uniform(3.0, 6.0)) / np.sqrt(np.min(np.diag(self.G)))
        chol = np.linalg.cholesky(self.G.astype(float))
        if rotate == "none":
            Q = np.eye(3)
        elif rotate == "axes":
            Q = np.eye(3)[rng.permutation(3)]
        else:
            Q, r = np.linalg.qr(rng.normal(size=(3, 3)))
            Q = Q * np.sign(np.diag(r))
        self.L = s * chol @ Q
        self._group = None

    def js(self):
        from .core import RR

        return {
            "n": self.n,
            "G": self.G.tolist(),
            "pos": self.grid.tolist(),
            "sp": self.sp,
            "L": RR(self.L),
        }

    def ref(self):
        from ramannoodle.structure import ReferenceStructure

        return ReferenceStructure(list(self.sp), self.L.copy(), self.positions.copy())

    def group(self):
        """List of (Q, q): image[j] = u[q[j]] @ Q (generator's own copy)."""
        if self._group is not None:
            return self._group
        G, n = self.G, self.n
        vecs = [np.array(v) for v in itertools.product(range(-self.K, self.K + 1), repeat=3)]
        cols = [[v for v in vecs if v @ G @ v == G[i, i]] for i in range(3)]
        inv = np.linalg.inv(self.L)
        res = []
        for a in cols[0]:
            for b in cols[1]:
                if a @ G @ b != G[0, 1]:
                    continue
                for c in cols[2]:
                    if a @ G @ c != G[0, 2] or b @ G @ c != G[1, 2]:
                        continue
                    Rm = np.array([a, b, c]).T
                    y = Rm @ self.grid[0]
                    for j in range(self.N):
                        if self.sp[j] != self.sp[0]:
                            continue
                        t = (self.grid[j] - y) % n
                        img = (self.grid @ Rm.T + t) % n
                        q = [-1] * self.N
                        ok = True
                        for i in range(self.N):
                            hit = [
                                k
                                for k in range(self.N)
                                if self.sp[k] == self.sp[i] and (img[i] == self.grid[k] % n).all()
                            ]
                            if not hit:
                                ok = False
                                break
                            q[hit[0]] = i
                        if ok:
                            res.append((inv @ Rm.T @ self.L, q))
        self._group = res
        return res

    def image(self, g, u):
        return u[g[1]] @ g[0]

    def stabilizer(self, u):
        """(Q, sign) of the operations mapping u to +-u."""
        u = u / np.linalg.norm(u)
        res = []
        for g in self.group():
            c = np.sum(self.image(g, u) * u)
            if abs(abs(c) - 1) < 1e-9:
                res.append((g[0], 1 if c > 0 else -1))
        return res

    def symmetric_tensor(self, rng, ops=None, scale=1.0, power=2):
        """Random tensor T with Q^T T Q = s^power T for all (Q, s)."""
        T = rng.normal(size=(3, 3)) * scale
        T = T + T.T if rng.random() < 0.7 else T
        if ops is None:
            ops = [(g[0], 1) for g in self.group()]
        return np.mean([s**power * Q.T @ T @ Q for Q, s in ops], axis=0)

    def has_flip(self, u):
        return any(s < 0 for _, s in self.stabilizer(u))

    def cosines(self, u, others):
        u = u / np.linalg.norm(u)
        return [abs(np.sum(u * v / np.linalg.norm(v))) for v in others]

    def grey(self, u, basis=()):
        """Direction whose images are neither clearly related nor unrelated."""
        u = u / np.linalg.norm(u)
        imgs = [self.image(g, u) for g in self.group()]
        vals = [abs(np.sum(u * w)) for w in imgs]
        vals += [abs(np.sum(v * w)) for w in imgs for v in basis]
        return any(1e-9 < v < 2e-4 or 0.9975 < v < 1 - 1e-9 for v in vals)
