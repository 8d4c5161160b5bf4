------------------------------ MODULE Workflow ------------------------------
(***************************************************************************)
(* The documented workflow on a crystal whose true polarizability is       *)
(* alpha0 + A(u), linear in the Cartesian displacement field u and         *)
(* symmetric under the space group.  A is given by the responses A[i][k]   *)
(* to atom i moving along axis k.  Whatever interpolants, orders, sources  *)
(* and symmetry images are involved, a model that was given true data      *)
(* along the orthonormal directions V says alpha0 + A(projection of u).    *)
(***************************************************************************)
EXTENDS PModel, Spectrum

Field(n, i, k) == [j \in 1..n |-> [l \in Tri |-> IF i = j /\ k = l THEN ROne ELSE RZero]]
Linear(A, u) ==
  LET RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN Zero33
                ELSE RVAdd(Sum(i - 1), RVAdd(RVScale(u[i][1], A[i][1]), RVAdd(RVScale(u[i][2], A[i][2]), RVScale(u[i][3], A[i][3]))))
  IN Sum(Len(A))
Respects(A, g) ==
  \A i \in 1..Len(A), k \in Tri :
    RClose(Linear(A, ImageOf(g, Field(Len(A), i, k))), TensorImage(g, A[i][k]), RDec("1e-9"))
(* a sequence V of unit fields                                               *)
Projected(V, u) ==
  LET RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN [j \in 1..Len(u) |-> [l \in Tri |-> RZero]] ELSE RVAdd(Sum(i - 1), RVScale(RDot(V[i], u), V[i]))
  IN Sum(Len(V))
Orthonormal(V) ==
  /\ \A i \in 1..Len(V) : RClose(RDot(V[i], V[i]), ROne, RDec("1e-9"))
  /\ \A i, j \in 1..Len(V) : i < j => RLe(RAbs(RDot(V[i], V[j])), RDec("1e-6"))
=============================================================================
