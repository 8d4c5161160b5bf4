------------------------------- MODULE Crystal -------------------------------
(***************************************************************************)
(* Crystals whose atoms sit on the fractional grid 1/n and whose metric    *)
(* tensor is the integer matrix G (times a common factor), and their space *)
(* groups, enumerated from the definition: all unimodular R with           *)
(* R^T G R = G and translations t such that x -> R x + t maps every atom   *)
(* onto an atom of the same species.  Symmetry is therefore exact, and     *)
(* independent of spglib.                                                  *)
(*                                                                         *)
(* A crystal is a record [n, G, pos, sp, L]: pos[i] is a triple of         *)
(* integers (fraction * n), sp[i] an atomic number, L the real lattice     *)
(* (rows are the lattice vectors in Angstrom, in any orientation).         *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

Tri == 1..3
IVecs(K) == [Tri -> -K..K]

Form(G, a, b) == a[1] * (G[1][1]*b[1] + G[1][2]*b[2] + G[1][3]*b[3])
               + a[2] * (G[2][1]*b[1] + G[2][2]*b[2] + G[2][3]*b[3])
               + a[3] * (G[3][1]*b[1] + G[3][2]*b[2] + G[3][3]*b[3])

(* Rotations as triples of columns: R e_i = c[i].                          *)
Rots(G, K) ==
  LET Col(i) == {v \in IVecs(K) : Form(G, v, v) = G[i][i]}
  IN  {<<a, b, c>> \in {<<a, b, c>> \in Col(1) \X Col(2) \X Col(3) :
                           Form(G, a, b) = G[1][2]} :
         Form(G, a, c) = G[1][3] /\ Form(G, b, c) = G[2][3]}

Apply(R, t, x, n) ==
  [r \in Tri |-> (R[1][r]*x[1] + R[2][r]*x[2] + R[3][r]*x[3] + t[r]) % n]

Atoms(c) == 1..Len(c.pos)
AtomAt(c, x, s) == {j \in Atoms(c) : c.sp[j] = s /\ \A r \in Tri : c.pos[j][r] % c.n = x[r] % c.n}

(* All operations [R, t] of the space group (K bounds the entries of R).   *)
Ops(c, K) ==
  LET Zero == [r \in Tri |-> 0]
      Cand(R) == LET y == Apply(R, Zero, c.pos[1], c.n)
                 IN {[r \in Tri |-> (c.pos[j][r] - y[r]) % c.n] : j \in {j \in Atoms(c) : c.sp[j] = c.sp[1]}}
  IN UNION {{[R |-> R, t |-> t] : t \in {t \in Cand(R) :
                \A i \in Atoms(c) : AtomAt(c, Apply(R, t, c.pos[i], c.n), c.sp[i]) # {}}} : R \in Rots(c.G, K)}

PermOf(c, op) == [i \in Atoms(c) |-> CHOOSE j \in AtomAt(c, Apply(op.R, op.t, c.pos[i], c.n), c.sp[i]) : TRUE]

(* Cartesian matrix Q of the operation acting on row vectors: d' = d Q.    *)
CartOf(c, op) ==
  LET M == [i \in Tri |-> [r \in Tri |-> RInt(op.R[i][r])]]
  IN  RMatMul(RMatMul(RInv3(c.L), M), c.L)

(* The group acting on displacement fields: [Q, q] where atom j of the     *)
(* image takes the displacement of atom q[j] of the original.              *)
Action(c, op) ==
  LET p == PermOf(c, op)
  IN [Q |-> CartOf(c, op), q |-> [j \in Atoms(c) |-> CHOOSE i \in Atoms(c) : p[i] = j]]

Group(c, K) == {Action(c, op) : op \in Ops(c, K)}

Row(v, Q) == RMatMul(<<v>>, Q)[1]
ImageOf(g, u) == [j \in 1..Len(u) |-> Row(u[g.q[j]], g.Q)]
TensorImage(g, T) == RMatMul(RMatMul(RTransp(g.Q), T), g.Q)

Orbit(grp, i) == {j \in 1..Len((CHOOSE g \in grp : TRUE).q) : \E g \in grp : g.q[j] = i}
Orbits(c, grp) == {Orbit(grp, i) : i \in Atoms(c)}

RefPos(c) == [i \in Atoms(c) |-> [r \in Tri |-> RFrac(c.pos[i][r], c.n)]]
(* Cartesian minimum-image displacement from the reference to positions p. *)
CartDisp(c, p) == RMatMul(RVMinImg(RVSub(p, RefPos(c))), c.L)
=============================================================================
