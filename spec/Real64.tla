------------------------------- MODULE Real64 -------------------------------
(***************************************************************************)
(* Double-precision real numbers for TLC.  A real is the pair <<hi, lo>>   *)
(* of the 32-bit halves of its IEEE-754 representation, so that TLC values *)
(* stay integers and traces written by the harness carry the observed      *)
(* numbers bit for bit.  Every operator below is implemented in Java by    *)
(* java/Real64Overrides.java (as TLC implements Integers itself); the      *)
(* definitions here only declare them (CHOOSE makes TLC fail loudly when   *)
(* the override is missing).                                               *)
(***************************************************************************)
LOCAL Missing == CHOOSE x : FALSE

RInt(i) == Missing              \* the integer i as a real
RFrac(a, b) == Missing          \* a / b for integers
RDec(s) == Missing              \* real denoted by a decimal string (NaN if none)
RIsNum(s) == Missing            \* does the string denote a decimal number
RIsInt(s) == Missing            \* does the string denote an integer
RDecInt(s) == Missing           \* TLA+ integer denoted by the string
RStr(a) == Missing              \* readable form
RIsFinite(X) == Missing         \* (nested sequences of) finite reals
RAdd(a, b) == Missing
RSub(a, b) == Missing
RMul(a, b) == Missing
RDiv(a, b) == Missing
RNeg(a) == Missing
RAbs(a) == Missing
RSqrt(a) == Missing
RCbrt(a) == Missing
RExp(a) == Missing
RCos(a) == Missing
RSin(a) == Missing
RPi == Missing
RFloor(a) == Missing            \* real
RRound(a) == Missing            \* nearest integer, as a real
RToInt(a) == Missing            \* nearest integer, as a TLA+ integer
RLt(a, b) == Missing
RLe(a, b) == Missing
RMaxAbs(X) == Missing           \* largest absolute entry of nested sequences
RClose(X, Y, tol) == Missing    \* same shape and all entries within tol
RVAdd(X, Y) == Missing          \* element-wise on nested sequences
RVSub(X, Y) == Missing
RVMul(X, Y) == Missing
RVScale(a, X) == Missing
RVWrapPos(X) == Missing         \* x - floor(x)
RVMinImg(X) == Missing          \* x - round(x)
RDot(X, Y) == Missing           \* sum of element-wise products
RSum(X) == Missing              \* sum of all entries
RSame(x, y) == Missing          \* equality (reals: relative 1e-12); FALSE for different kinds
RIsReal(x) == Missing           \* is the value itself a real
RVShift(a, X) == Missing        \* add the scalar a to every entry
RVMap(f, X) == Missing          \* f in exp, sqrt, abs, cos, sin, inv, f32, element-wise
RSameShape(X, Y) == Missing
RRowsMul(X, M) == Missing       \* every innermost row times the matrix M
RRowsAdd(X, t) == Missing       \* t added to every innermost row
RMax(X) == Missing              \* largest entry
RLog(a) == Missing
RMatMul(A, B) == Missing
RTransp(A) == Missing
RDet3(A) == Missing
RInv3(A) == Missing
=============================================================================
