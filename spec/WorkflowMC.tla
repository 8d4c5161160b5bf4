----------------------------- MODULE WorkflowMC -----------------------------
(***************************************************************************)
(* Additions in any order until every direction is known, for small        *)
(* crystals with orthogonal axes and exact integer responses.  An addition *)
(* along axis k of atom i (either sign, i.e. amplitudes of either sign)    *)
(* brings all its images, each with the response rotated by any one of     *)
(* the operations leading to it.  Whatever the order and whatever          *)
(* operation is used, what is known is the true response, and everything   *)
(* is known after one addition per orbit.                                  *)
(***************************************************************************)
EXTENDS Crystal, TLC
CONSTANTS Which, K
Cr == CASE Which = 1 -> [n |-> 2, G |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, pos |-> <<<<0, 0, 0>>, <<1, 1, 1>>>>, sp |-> <<1, 2>>, L |-> <<>>]
        [] Which = 2 -> [n |-> 4, G |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 2>>>>, pos |-> <<<<0, 0, 0>>, <<2, 2, 1>>, <<2, 2, 3>>>>, sp |-> <<1, 2, 2>>, L |-> <<>>]
        [] Which = 3 -> [n |-> 4, G |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>,
                         pos |-> <<<<0, 0, 0>>, <<1, 1, 1>>, <<2, 2, 0>>, <<3, 3, 1>>>>, sp |-> <<1, 2, 1, 2>>, L |-> <<>>]
        [] Which = 4 -> [n |-> 5, G |-> <<<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>>>, pos |-> <<<<0, 0, 0>>, <<1, 2, 0>>>>, sp |-> <<1, 2>>, L |-> <<>>]
N == Len(Cr.pos)
(* with orthogonal axes an operation permutes and reverses the axes          *)
Acts == {[R |-> op.R, p |-> PermOf(Cr, op)] : op \in Ops(Cr, K)}
Axis(k) == [r \in Tri |-> IF r = k THEN 1 ELSE 0]
(* image of <<i, k, s>>: atom i moves along s times axis k; R e_k is column k  *)
To(g, d) == LET c == g.R[d[2]] l == CHOOSE r \in Tri : c[r] # 0 IN <<g.p[d[1]], l, d[3] * c[l]>>
Dirs == (1..N) \X Tri \X {1, -1}
(* R T R^T with columns                                                       *)
Turn(g, T) == [a \in Tri |-> [b \in Tri |->
                 LET m == CHOOSE x \in Tri : g.R[x][a] # 0 q == CHOOSE x \in Tri : g.R[x][b] # 0
                 IN g.R[m][a] * g.R[q][b] * T[m][q]]]
Neg(T) == [a \in Tri |-> [b \in Tri |-> -T[a][b]]]
Add2(S, T) == [a \in Tri |-> [b \in Tri |-> S[a][b] + T[a][b]]]
Seed(d) == LET z == d[1] * 7 + d[2] * 3 IN
  LET B == <<<<z, z * z % 11, 5>>, <<z * z % 11, z % 4, z * 3 % 13>>, <<5, z * 3 % 13, 2 * z % 7>>>> IN IF d[3] = 1 THEN B ELSE Neg(B)
(* the true response: the seed summed over the group (symmetric by construction) *)
RECURSIVE SumOver(_, _)
SumOver(S, d) ==
  IF S = {} THEN [a \in Tri |-> [b \in Tri |-> 0]]
  ELSE LET g == CHOOSE g \in S : TRUE
       IN Add2(SumOver(S \ {g}, d), LET T == Seed(To(g, d)) IN
            [a \in Tri |-> [b \in Tri |-> \* R^T T R
               LET m == CHOOSE x \in Tri : g.R[a][x] # 0 q == CHOOSE x \in Tri : g.R[b][x] # 0
               IN g.R[a][m] * g.R[b][q] * T[m][q]]])
A == [d \in Dirs |-> SumOver(Acts, d)]
Orb(d) == {To(g, d) : g \in Acts}
Lines(S) == {<<x[1], x[2]>> : x \in S}

VARIABLES known, adds      \* known: direction -> response recorded for it
vars == <<known, adds>>
Init == known = << >> /\ adds = 0
(* data of d; image e gets them turned by any operation leading there          *)
Stored(d) == {f \in [Orb(d) -> {Turn(g, A[d]) : g \in Acts}] : \A e \in Orb(d) : f[e] \in {Turn(g, A[d]) : g \in {g \in Acts : To(g, d) = e}}}
Next == \E d \in Dirs :
  /\ \A e \in DOMAIN known : <<e[1], e[2]>> # <<d[1], d[2]>>
  /\ \E f \in Stored(d) : known' = f @@ known
  /\ adds' = adds + 1
TypeOK == DOMAIN known \subseteq Dirs
Symmetric == \A g \in Acts : \A d \in Dirs : A[To(g, d)] = Turn(g, A[d])
Exact == \A e \in DOMAIN known : known[e] = A[e]
(* whole orbits only: a direction is either known with all its images or free   *)
Closed == \A e \in DOMAIN known : Orb(e) \subseteq DOMAIN known
Orbs == {Lines(Orb(d)) : d \in Dirs}
Complete == (adds = Cardinality(Orbs)) <=> (Lines(DOMAIN known) = (1..N) \X Tri)
Spec == Init /\ [][Next]_vars
=============================================================================
