------------------------------- MODULE PbcMC -------------------------------
(***************************************************************************)
(* Periodic geometry on the exact grid 1/n: two points x, y of the torus   *)
(* moved by displacements, lattice shifts and integer transformations.     *)
(* TLC checks that the laws of property C10 hold of the definitions for    *)
(* all grid points (half-cell boundaries included); simulated behaviours   *)
(* are replayed into the real functions.                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

J == JsonDeserialize(IOEnv.MC)     \* [n, disps, mats, trans, maxlen]
n == J.n
Tri == 1..3
Pts == [Tri -> 0..(n - 1)]
VARIABLES x, y, hist
vars == <<x, y, hist>>
View == <<x, y>>

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Disps == SeqSet(J.disps)
Mats == SeqSet(J.mats)
Trans == SeqSet(J.trans)

Add3(a, b) == [i \in Tri |-> a[i] + b[i]]
Neg3(a) == [i \in Tri |-> 0 - a[i]]
Mul3(a, M) == [j \in Tri |-> (a[1] * M[1][j]) + (a[2] * M[2][j]) + (a[3] * M[3][j])]
Cong(a, b) == \A i \in Tri : (a[i] - b[i]) % n = 0
WrapP(a) == [i \in Tri |-> a[i] % n]
(* acceptable wrapped displacements: both signs exactly at half a cell      *)
WrapD1(k) == LET m == k % n IN IF 2 * m < n THEN {m} ELSE IF 2 * m > n THEN {m - n} ELSE {m, m - n}
WrapD(a) == {<<u, v, w>> : u \in WrapD1(a[1]), v \in WrapD1(a[2]), w \in WrapD1(a[3])}
Calc(p, q) == WrapD([i \in Tri |-> q[i] - p[i]])
Displace(p, d) == WrapP(Add3(WrapP(p), CHOOSE w \in WrapD(d) : TRUE))
Transform(p, M, t) == WrapP(Add3(Mul3(WrapP(p), M), t))

Rec(a, d) == [act |-> a, x |-> d]
Init == x \in Pts /\ y = [i \in Tri |-> 0] /\ hist = <<Rec("start", x)>>
DoDisplace == \E d \in Disps : /\ y' = Displace(y, d) /\ hist' = Append(hist, Rec("displace", d)) /\ UNCHANGED x
DoSwap == x' = y /\ y' = x /\ hist' = Append(hist, Rec("swap", <<0, 0, 0>>))
DoTransform == \E k \in 1..Len(J.mats), t \in Trans :
     /\ x' = Transform(x, J.mats[k], t) /\ y' = Transform(y, J.mats[k], t)
     /\ hist' = Append(hist, Rec("transform", <<k, t>>))
Next == DoDisplace \/ DoSwap \/ DoTransform
Bounded == Len(hist) <= J.maxlen
PrintHist == Len(hist) < J.maxlen \/ PrintT(<<"HIST", ToJson(hist)>>)

TypeOK == x \in Pts /\ y \in Pts
Lifts == {<<n, 0, 0>>, <<0 - n, n, 0>>, <<2 * n, 0 - n, 0 - (3 * n)>>}
ShiftInvariant == \A k \in Lifts : /\ WrapP(Add3(x, k)) = x
                                   /\ \A d \in Disps : WrapD(Add3(d, k)) = WrapD(d)
                                   /\ Calc(Add3(x, k), y) = Calc(x, y)
MeasuresDisplacement == \A d \in Disps : Calc(x, Displace(x, d)) = WrapD(d)
Antisymmetric == {Neg3(c) : c \in Calc(x, y)} = Calc(y, x)
Reaches == \A c \in Calc(x, y) : Displace(x, c) = y
Bounds == \A c \in Calc(x, y) : \A i \in Tri : (2 * c[i]) \in ((0 - n)..n)
Equivariant == \A M \in Mats : \A t \in Trans : \A c \in Calc(x, y) :
     Cong(Mul3(c, M), CHOOSE w \in Calc(Transform(x, M, t), Transform(y, M, t)) : TRUE)
=============================================================================
