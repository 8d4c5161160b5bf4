------------------------------- MODULE Graph -------------------------------
(***************************************************************************)
(* The neighbour graph of a PotGNN.  Atoms are 1..N; two distinct atoms of *)
(* the reference structure are linked when their minimum-image distance    *)
(* does not exceed the cutoff.  The graph never changes afterwards.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Real64

Dist(L, P, i, j) == LET d == RMatMul(<<RVMinImg(RVSub(P[i], P[j]))>>, L)[1] IN RSqrt(RDot(d, d))
Links(L, P, cutoff) ==
  {x \in (1..Len(P)) \X (1..Len(P)) : x[1] # x[2] /\ RLe(Dist(L, P, x[1], x[2]), cutoff)}

(* atoms reachable from A along links                                        *)
RECURSIVE Reach(_, _)
Reach(E, A) == LET B == A \cup {x[2] : x \in {y \in E : y[1] \in A}} IN IF B = A THEN A ELSE Reach(E, B)
Linked(E) == {x[1] : x \in E}
Component(E, i) == Reach(E, {i})
(* renamings of the atoms that keep species and links                        *)
Automorphism(E, sp, f) ==
  /\ {f[i] : i \in 1..Len(f)} = 1..Len(f)
  /\ \A i \in 1..Len(f) : sp[f[i]] = sp[i]
  /\ \A i, j \in 1..Len(f) : <<i, j>> \in E <=> <<f[i], f[j]>> \in E
=============================================================================
