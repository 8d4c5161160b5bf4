------------------------------- MODULE PModel -------------------------------
(***************************************************************************)
(* Interpolation and atomic-Raman-tensor polarizability models as state    *)
(* machines.  A model is a record                                          *)
(*   kind   "interp" | "art"          dummy  BOOLEAN                       *)
(*   ref    reference polarizability  dofs   sequence of                   *)
(*      [v: unit Cartesian field, pts: sequence of <<x, y>>, k: order,     *)
(*       amb: supplied data do not respect the site symmetry]              *)
(*   mask   sequence of BOOLEAN, TRUE = excluded.                          *)
(* cry = [c: crystal, g: its group acting on displacement fields].         *)
(***************************************************************************)
EXTENDS Crystal

RZero == RInt(0)
ROne == RInt(1)
Zero33 == [i \in Tri |-> [j \in Tri |-> RZero]]
SeqSet(s) == {s[i] : i \in 1..Len(s)}

(* Numerical reading of "orthogonal" and "collinear".  Angles between the  *)
(* two thresholds are grey: the property leaves them open.                 *)
OrthTol == RDec("1e-7")
NotOrth == RDec("1e-4")
CollTol == RDec("0.9999999")
NotColl == RDec("0.998")

Norm(u) == RSqrt(RDot(u, u))
Unit(u) == RVScale(RDiv(ROne, Norm(u)), u)
AbsCos(u, v) == RAbs(RDot(u, v))                      \* of unit fields
Orth(u, v) == RLe(AbsCos(u, v), OrthTol)
Coll(u, v) == RLe(CollTol, AbsCos(u, v))
Grey(u, v) == ~Orth(u, v) /\ ~Coll(u, v)
              /\ (RLt(AbsCos(u, v), NotOrth) \/ RLt(NotColl, AbsCos(u, v)))
SignOf(u, v) == IF RLt(RDot(u, v), RZero) THEN -1 ELSE 1

Basis(m) == {d.v : d \in SeqSet(m.dofs)}
(* The images of a field with the operations producing them.               *)
Imgs(cry, u) == {[Q |-> g.Q, w |-> ImageOf(g, u)] : g \in cry.g}

(* ---- the points an image b of the parent direction receives ------------ *)
(* IM = Imgs(cry, u) for the unit parent field u.                          *)
OpsTo(IM, b, s) == {x \in IM : Coll(x.w, b) /\ SignOf(x.w, b) = s}

PtsOf(IM, m, b, amps, pols, incl) ==
  LET delta == [j \in 1..Len(amps) |-> RVSub(pols[j], m.ref)]
      Side(s) == LET O == OpsTo(IM, b, s) IN
                 IF O = {} THEN <<>>
                 ELSE LET x == CHOOSE x \in O : TRUE IN
                      [j \in 1..Len(amps) |->
                          <<RMul(RInt(s), amps[j]), TensorImage(x, delta[j])>>]
  IN (IF incl THEN <<<<RZero, Zero33>>>> ELSE <<>>) \o Side(1) \o Side(-1)

(* The supplied data contradict the symmetry of the displacement itself.   *)
Ambiguous(IM, m, b, amps, pols) ==
  \E s \in {1, -1} :
    LET O == OpsTo(IM, b, s) IN
    O # {} /\ LET x == CHOOSE x \in O : TRUE IN
      \E j \in 1..Len(amps) : \E y \in O :
        LET D == RVSub(pols[j], m.ref) IN
        ~RClose(TensorImage(x, D), TensorImage(y, D), RMul(RDec("1e-9"), RAdd(ROne, RMaxAbs(D))))

Xs(pts) == [j \in 1..Len(pts) |-> pts[j][1]]
XDup(pts) == \E i, j \in 1..Len(pts) : i < j /\ RClose(pts[i][1], pts[j][1], RDec("1e-9"))
XGrey(pts) == \E i, j \in 1..Len(pts) : i < j /\ ~RClose(pts[i][1], pts[j][1], RDec("1e-9"))
                 /\ RClose(pts[i][1], pts[j][1], RAdd(RDec("1e-6"), RMul(RDec("5e-5"), RAbs(pts[i][1]))))

(* ---- admission --------------------------------------------------------- *)
(* Which sets B of unit fields may be added for the unit parent field u?   *)
PairOrth(B) == \A i, j \in 1..Len(B) : i = j \/ Orth(B[i], B[j])
AreImages(IM, B) == \A i \in 1..Len(B) : \E x \in IM : Coll(x.w, B[i])
HasParent(u, B) == \E i \in 1..Len(B) : Coll(u, B[i])
Maximal(IM, B) == \A x \in IM : \E i \in 1..Len(B) : ~Orth(x.w, B[i])
OrthExisting(m, B) == \A i \in 1..Len(B) : \A v \in Basis(m) : Orth(B[i], v)
GreyAdd(IM, m, u) ==
  \E x \in IM : Grey(u, x.w) \/ \E v \in Basis(m) : Grey(x.w, v)

(* The parent's own line decides duplicates and sufficiency: every image   *)
(* receives the same amplitudes up to a common sign.                       *)
MustReject(IM, m, u, amps, pols, k, incl) ==
  LET P == PtsOf(IM, m, u, amps, pols, incl)
  IN ~OrthExisting(m, <<u>>) \/ XDup(P) \/ Len(P) <= k
MustAccept(IM, m, u, amps, pols, k, incl) ==
  /\ ~MustReject(IM, m, u, amps, pols, k, incl)
  /\ \A x \in IM : \A v \in Basis(m) : Orth(x.w, v)

NewDof(IM, m, b, amps, pols, k, incl) ==
  [v |-> b, k |-> k, amb |-> Ambiguous(IM, m, b, amps, pols),
   pts |-> PtsOf(IM, m, b, amps, pols, incl)]
Extend(IM, m, B, amps, pols, k, incl) ==
  [m EXCEPT !.dofs = @ \o [i \in 1..Len(B) |-> NewDof(IM, m, B[i], amps, pols, k, incl)],
            !.mask = @ \o [i \in 1..Len(B) |-> FALSE]]

(* ---- interpolation ----------------------------------------------------- *)
RECURSIVE Insert(_, _), SortPts(_)
Insert(p, s) == IF s = <<>> THEN <<p>>
                ELSE IF RLe(p[1], Head(s)[1]) THEN <<p>> \o s
                ELSE <<Head(s)>> \o Insert(p, Tail(s))
SortPts(s) == IF s = <<>> THEN <<>> ELSE Insert(Head(s), SortPts(Tail(s)))

LinearAt(pts, x) ==
  LET s == SortPts(pts)
      n == Len(s)
      inner == {i \in 2..n-1 : RLe(s[i][1], x)}
      i == IF inner = {} THEN 1 ELSE CHOOSE i \in inner : \A j \in inner : j <= i
      w == RDiv(RSub(x, s[i][1]), RSub(s[i+1][1], s[i][1]))
  IN RVAdd(RVScale(RSub(ROne, w), s[i][2]), RVScale(w, s[i+1][2]))

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN ROne ELSE RMul(Head(s), Prod(Tail(s)))
LagrangeAt(pts, x) ==
  LET n == Len(pts)
      Coef(i) == Prod([j \in 1..n |-> IF j = i THEN ROne ELSE
                         RDiv(RSub(x, pts[j][1]), RSub(pts[i][1], pts[j][1]))])
      RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN Zero33 ELSE RVAdd(Sum(i-1), RVScale(Coef(i), pts[i][2]))
  IN Sum(n)

PtsScale(pts) == RAdd(ROne, RMaxAbs([i \in 1..Len(pts) |-> pts[i][2]]))
OnPolynomial(pts, k) ==
  LET h == SubSeq(pts, 1, k+1)
  IN \A i \in k+2..Len(pts) :
       RClose(LagrangeAt(h, pts[i][1]), pts[i][2], RMul(RDec("1e-9"), PtsScale(pts)))

(* Value of a DOF's interpolant at amplitude x, or [ok |-> FALSE] where    *)
(* the property does not determine it.                                     *)
InterpAt(d, x) ==
  IF d.amb THEN [ok |-> FALSE]
  ELSE IF d.k = 1 THEN [ok |-> TRUE, y |-> LinearAt(d.pts, x)]
  ELSE LET hit == {i \in 1..Len(d.pts) : RClose(d.pts[i][1], x, RDec("1e-10"))}
       IN IF hit # {} THEN [ok |-> TRUE, y |-> d.pts[CHOOSE i \in hit : TRUE][2]]
          ELSE IF OnPolynomial(d.pts, d.k)
          THEN [ok |-> TRUE, y |-> LagrangeAt(SubSeq(d.pts, 1, d.k+1), x)]
          ELSE [ok |-> FALSE]

(* Predicted tensor for a Cartesian displacement field u.                  *)
Contribution(m, u, i) == InterpAt(m.dofs[i], RDot(m.dofs[i].v, u))
PredictAt(m, u) ==
  LET act == {i \in 1..Len(m.dofs) : ~m.mask[i]}
      con == [i \in act |-> Contribution(m, u, i)]
      RECURSIVE Sum(_)
      Sum(i) == IF i = 0 THEN m.ref
                ELSE IF m.mask[i] THEN Sum(i-1) ELSE RVAdd(Sum(i-1), con[i].y)
  IN IF \E i \in act : ~con[i].ok THEN [ok |-> FALSE]
     ELSE [ok |-> TRUE, y |-> Sum(Len(m.dofs)),
           scale |-> RAdd(ROne, RAdd(RMaxAbs(m.ref),
                       RMaxAbs([i \in 1..Len(m.dofs) |-> IF m.mask[i] THEN RZero ELSE RMaxAbs(con[i].y)])))]

NewModel(kind, dummy, ref) ==
  [kind |-> kind, dummy |-> dummy, ref |-> IF dummy THEN Zero33 ELSE ref,
   dofs |-> <<>>, mask |-> <<>>]

MaskOnly(m, idx) == [m EXCEPT !.mask = [i \in 1..Len(m.dofs) |-> i \in idx]]

(* ---- ART bookkeeping ---------------------------------------------------- *)
Moves(v, a) == RLt(RDec("1e-5"), RMaxAbs(v[a]))
DofsMoving(m, A) == {i \in 1..Len(m.dofs) : \E a \in A : Moves(m.dofs[i].v, a)}
SingleAtom(v) == Cardinality({a \in 1..Len(v) : Moves(v, a)}) = 1
=============================================================================
