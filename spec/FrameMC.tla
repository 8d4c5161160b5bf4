------------------------------ MODULE FrameMC ------------------------------
(***************************************************************************)
(* Changes of description of small integer crystals: the description       *)
(* reached by any sequence of changes is the first one rewritten by their  *)
(* composition, and what is physical (distances, the number of symmetry    *)
(* operations, which atoms are equivalent) stays what it was.              *)
(***************************************************************************)
EXTENDS Crystal, TLC
CONSTANTS Start, MaxLen, K
n == 4
(* L: integer rows, pos: grid / n                                           *)
Base == CASE Start = 1 -> [L |-> <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>>>, pos |-> <<<<0, 0, 0>>, <<2, 2, 2>>>>, sp |-> <<1, 2>>]
          [] Start = 2 -> [L |-> <<<<2, 0, 0>>, <<0, 3, 0>>, <<1, 0, 3>>>>, pos |-> <<<<0, 0, 0>>, <<1, 0, 2>>, <<3, 0, 2>>>>, sp |-> <<1, 2, 2>>]
          [] Start = 3 -> [L |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 2>>>>, pos |-> <<<<0, 0, 0>>, <<0, 0, 2>>>>, sp |-> <<1, 1>>]
Mul(A, B) == [i \in Tri |-> [j \in Tri |-> A[i][1]*B[1][j] + A[i][2]*B[2][j] + A[i][3]*B[3][j]]]
Tr(A) == [i \in Tri |-> [j \in Tri |-> A[j][i]]]
I3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Qs == {I3, <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>, <<<<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>>>, <<<<-1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>}
(* unimodular matrices with their inverses                                  *)
Ms == {<<I3, I3>>, <<<<<<1, 1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>>>, <<<<0, -1, 0>>, <<1, 1, 0>>, <<0, 0, 1>>>>>>,
       <<<<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>, <<<<0, 1, 0>>, <<0, 0, 1>>, <<1, 0, 0>>>>>>}
Ts == {<<0, 0, 0>>, <<1, 3, 2>>}
Perms(k) == {p \in [1..k -> 1..k] : \A i, j \in 1..k : i # j => p[i] # p[j]}
Changes(k) == {[Q |-> q, t |-> t, M |-> m[1], W |-> m[2], perm |-> p] : q \in Qs, t \in Ts, m \in Ms, p \in Perms(k)}
RowM(v, A) == [j \in Tri |-> v[1]*A[1][j] + v[2]*A[2][j] + v[3]*A[3][j]]
Mod(v) == [j \in Tri |-> v[j] % n]
Re(g, d) == [L |-> Mul(Mul(g.M, d.L), g.Q), sp |-> [j \in 1..Len(d.sp) |-> d.sp[g.perm[j]]],
             pos |-> [j \in 1..Len(d.sp) |-> Mod(RowM([r \in Tri |-> d.pos[g.perm[j]][r] + g.t[r]], g.W))]]
Then2(g, h) == [Q |-> Mul(g.Q, h.Q), M |-> Mul(h.M, g.M), W |-> Mul(g.W, h.W),
                perm |-> [j \in 1..Len(g.perm) |-> g.perm[h.perm[j]]],
                t |-> [r \in Tri |-> g.t[r] + RowM(h.t, g.M)[r]]]
VARIABLES d, g, len
vars == <<d, g, len>>
Init == d = Base /\ len = 0 /\ g = [Q |-> I3, t |-> <<0, 0, 0>>, M |-> I3, W |-> I3, perm |-> [j \in 1..Len(Base.sp) |-> j]]
Next == len < MaxLen /\ len' = len + 1 /\ \E h \in Changes(Len(Base.sp)) : d' = Re(h, d) /\ g' = Then2(g, h)
View == <<d, g.perm, len>>
Composed == d = Re(g, Base)

Gram(x) == Mul(x.L, Tr(x.L))
Small == [Tri -> -2..2]
(* shortest squared distances, times n squared                              *)
Dist2(x, i, j) ==
  LET D == {Form(Gram(x), [r \in Tri |-> x.pos[i][r] - x.pos[j][r] + n * s[r]], [r \in Tri |-> x.pos[i][r] - x.pos[j][r] + n * s[r]]) : s \in Small}
  IN CHOOSE v \in D : \A w \in D : v <= w
Distances == \A i, j \in 1..Len(d.sp) : Dist2(d, i, j) = Dist2(Base, g.perm[i], g.perm[j])
AsCrystal(x) == [n |-> n, G |-> Gram(x), pos |-> x.pos, sp |-> x.sp, L |-> <<>>]
BaseOps == Ops(AsCrystal(Base), K)
Equiv(c, ops) == {<<i, PermOf(c, op)[i]>> : i \in 1..Len(c.sp), op \in ops}
Symmetry == LET c == AsCrystal(d) ops == Ops(c, K) IN
  /\ Cardinality(ops) = Cardinality(BaseOps)
  /\ {<<g.perm[x[1]], g.perm[x[2]]>> : x \in Equiv(c, ops)} = Equiv(AsCrystal(Base), BaseOps)
Spec == Init /\ [][Next]_vars
=============================================================================
