-------------------------------- MODULE Pbc --------------------------------
(***************************************************************************)
(* Geometry under periodic boundary conditions, as relations between the   *)
(* input and an acceptable output.  X, Y are nested sequences of reals of  *)
(* the same shape (one structure or a batch).  The boundary values (0 and  *)
(* 1, -1/2 and 1/2) denote the same point, so either is acceptable.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64

Unity == RInt(1)
Half == RFrac(1, 2)
MaxR(a, b) == IF RLt(a, b) THEN b ELSE a
TolOf(X) == RMul(RDec("1e-9"), MaxR(Unity, RMaxAbs(X)))

SameShape(X, Y) == RClose(X, X, RInt(0)) /\ RClose(Y, Y, RInt(0)) /\ RSameShape(X, Y)
(* X and Y differ by whole lattice vectors, up to tol.                      *)
ModEq(X, Y, tol) == SameShape(X, Y) /\ RLe(RMaxAbs(RVMinImg(RVSub(X, Y))), tol)
InUnit(Y) == RLe(RMaxAbs(RVShift(RNeg(Half), Y)), RAdd(Half, RDec("1e-12")))
InHalf(Y) == RLe(RMaxAbs(Y), RAdd(Half, RDec("1e-12")))

IsWrappedPos(X, Y) == ModEq(X, Y, TolOf(X)) /\ InUnit(Y)
IsWrappedDisp(X, Y) == ModEq(X, Y, TolOf(X)) /\ InHalf(Y)
(* strictly inside half a cell, where the minimum image is unique           *)
Inside(X) == RLt(RMaxAbs(X), RDec("0.4999999"))

Rows(X, M) == RRowsMul(X, M)           \* every innermost row vector times M
(* Rotated and translated positions: x R + t.                               *)
Transformed(P, R, t) == RRowsAdd(Rows(P, R), t)
=============================================================================
