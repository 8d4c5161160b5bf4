------------------------------- MODULE Frame -------------------------------
(***************************************************************************)
(* One crystal, many descriptions.  A description is a lattice (rows), the *)
(* fractional positions and the species of numbered atoms.  A change of    *)
(* description g = [Q, t, M, perm] turns space by the orthogonal matrix Q  *)
(* (rows: v -> v Q), moves the origin by t, uses the lattice vectors M L   *)
(* (M unimodular) and calls atom perm[j] of the old description atom j.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

(* product of integer matrices                                               *)
RI3(A, B) == [i \in 1..3 |-> [j \in 1..3 |-> A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j]]]
RI(A) == [i \in 1..Len(A) |-> [j \in 1..Len(A[i]) |-> RInt(A[i][j])]]
Unitary(Q) == RClose(RMatMul(Q, RTransp(Q)), RI(<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>), RDec("1e-12"))
IsPerm(p, n) == Len(p) = n /\ {p[j] : j \in 1..n} = 1..n
Pick(p, X) == [j \in 1..Len(p) |-> X[p[j]]]

(* how quantities are written in the new description                         *)
LatticeTo(g, L) == RMatMul(RMatMul(RI(g.M), L), g.Q)
FracTo(g, x) == RRowsMul(Pick(g.perm, x), RInv3(RI(g.M)))                 \* fractional displacements
PosTo(g, P) == RRowsMul(RRowsAdd(Pick(g.perm, P), g.t), RInv3(RI(g.M)))   \* positions
FieldTo(g, u) == RRowsMul(Pick(g.perm, u), g.Q)                           \* Cartesian displacements
TensorTo(g, A) == RMatMul(RMatMul(RTransp(g.Q), A), g.Q)
AtomTo(g, i) == CHOOSE j \in 1..Len(g.perm) : g.perm[j] = i
Redescribe(g, d) == [L |-> LatticeTo(g, d.L), P |-> PosTo(g, d.P), sp |-> Pick(g.perm, d.sp)]

(* first g, then h                                                           *)
Then(g, h) == [Q |-> RMatMul(g.Q, h.Q), M |-> RI3(h.M, g.M), perm |-> Pick(h.perm, g.perm),
               t |-> RVAdd(g.t, RRowsMul(<<h.t>>, RI(g.M))[1])]
SamePos(P, Q, tol) == RSameShape(P, Q) /\ RLe(RMaxAbs(RVMinImg(RVSub(P, Q))), tol)
SameDescription(d, e) ==
  /\ d.sp = e.sp /\ RClose(d.L, e.L, RMul(RDec("1e-11"), RMaxAbs(d.L))) /\ SamePos(d.P, e.P, RDec("1e-11"))
=============================================================================
