----------------------------- MODULE FrameTrace -----------------------------
(***************************************************************************)
(* The same questions asked in several descriptions of one crystal (C27).  *)
(* A question is a call with arguments and results of known kinds; asked   *)
(* in description k its arguments have to be those of description 1,       *)
(* rewritten (checked here), and so must its results.  Questions to a      *)
(* model after an addition that leaves a choice (which of several          *)
(* non-orthogonal images to admit) are open.                               *)
(***************************************************************************)
EXTENDS PModel, Frame, TraceIn

F(name) == "C27." \o name
Scale(X) == RAdd(ROne, RMaxAbs(X))
Near(X, Y) == RClose(X, Y, RMul(RDec("1e-8"), Scale(X)))
SameLines(A, B) ==      \* directions, in any order and of either sign
  /\ Len(A) = Len(B)
  /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : Near(A[i], B[j]) \/ Near(A[i], RVScale(RInt(-1), B[j]))
  /\ \A i \in 1..Len(B) : \E j \in 1..Len(A) : Near(A[j], B[i]) \/ Near(A[j], RVScale(RInt(-1), B[i]))
SameFields(A, B) ==     \* fields, in any order
  /\ \A i \in 1..Len(A) : \E j \in 1..Len(B) : Near(A[i], B[j])
  /\ \A i \in 1..Len(B) : \E j \in 1..Len(A) : Near(A[j], B[i])

(* does w (in the description reached by g) say what v says in the first one? *)
Says(g, kind, v, w) ==
  CASE kind = "exact" -> RSame(v, w)
    [] kind = "numbers" -> Near(v, w)
    [] kind = "spectrum" -> RClose(v, w, RAdd(RMul(RDec("3e-6"), RMaxAbs(v)), RDec("1e-18")))
    [] kind = "tensors" -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : RClose(TensorTo(g, v[i]), w[i], RMul(RDec("1e-8"), Scale(v)))
    [] kind = "field" -> Near(FieldTo(g, v), w)
    [] kind = "fractions" -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : Near(FracTo(g, v[i]), w[i])
    [] kind = "fields" -> SameFields([i \in 1..Len(v) |-> FieldTo(g, v[i])], w)
    [] kind = "lines" -> SameLines([i \in 1..Len(v) |-> FieldTo(g, v[i])], w)
    [] kind = "positions" -> Len(v) = Len(w) /\ \A i \in 1..Len(v) : SamePos(PosTo(g, v[i]), w[i], RDec("1e-9"))
    [] kind = "atom" -> AtomTo(g, v) = w
    [] kind = "atoms" -> {AtomTo(g, v[i]) : i \in 1..Len(v)} = {w[i] : i \in 1..Len(w)} /\ Len(v) = Len(w)
    [] kind = "classes" -> {{AtomTo(g, v[i][j]) : j \in 1..Len(v[i])} : i \in 1..Len(v)}
                           = {{w[i][j] : j \in 1..Len(w[i])} : i \in 1..Len(w)}
    [] kind = "vector" -> Near(RMatMul(<<v>>, g.Q)[1], w)
    [] OTHER -> FALSE
AllSay(g, V, W) == Len(V) = Len(W) /\ \A i \in 1..Len(V) : V[i][1] = W[i][1] /\ Says(g, V[i][1], V[i][2], W[i][2])

OrbitClear(s, v) == LET IM == Imgs(s.cry, Unit(v)) IN \A x, y \in IM : Orth(x.w, y.w) \/ Coll(x.w, y.w)
(* an addition [u, amps, tensors] that leaves no choice                       *)
Determined(s, a) ==
  LET u == Unit(a.disp)
      IM == Imgs(s.cry, u)
      m == [ref |-> a.ref]
  IN /\ OrbitClear(s, a.disp)
     /\ ~Ambiguous(IM, m, u, a.amps, a.pols)
     /\ ~XGrey(PtsOf(IM, m, u, a.amps, a.pols, TRUE))

CallFailing(s, e) ==
  IF e.k = 1 THEN If(Has(e, "must") /\ e.res # "ok", F(e.name \o "-raises"))
  ELSE IF Len(s.asked) < e.q THEN {F("harness-unasked")}
  ELSE LET a == s.asked[e.q] g == s.frames[e.k] IN
    IF a.name # e.name \/ ~AllSay(g, a.given, e.given) THEN {F("harness-arguments")}
    ELSE IF (e.model /\ s.free) \/ (Has(a, "orbit") /\ ~OrbitClear(s, a.orbit)) THEN IF Info("open question") THEN {} ELSE {}
    ELSE IF a.res # e.res THEN {F(e.name \o "-raises-in-some-descriptions")}
    ELSE If(Info("answered question") /\ e.res = "ok" /\ ~AllSay(g, a.got, e.got), F(e.name \o "-depends-on-the-description"))
Failing(s, e) ==
  CASE e.op = "describe" ->
         If(~Unitary(e.g.Q) \/ ~IsPerm(e.g.perm, Len(e.sp))
            \/ ~SameDescription(Redescribe(Then(s.frames[Len(s.frames)], e.g), s.base), [L |-> e.L, P |-> e.P, sp |-> e.sp]),
            F("harness-description"))
         \cup If(e.res # "ok", F("description-refused"))
    [] e.op = "ask" -> CallFailing(s, e)
    [] e.op = "args" -> If(~e.same, F("arguments-modified"))
    [] OTHER -> {F("unknown-event")}
After(s, e) ==
  CASE e.op = "describe" -> [s EXCEPT !.frames = Append(@, Then(@[Len(@)], e.g))]
    [] e.op = "ask" /\ e.k = 1 ->
         [s EXCEPT !.asked = Append(@, e), !.free = @ \/ (Has(e, "adds") /\ ~Determined(s, e.adds))]
    [] OTHER -> s
Id(n) == [Q |-> RI(<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>), M |-> <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>,
          perm |-> [j \in 1..n |-> j], t |-> <<RZero, RZero, RZero>>]
InitState(t) ==
  [focus |-> t.focus, cry |-> [c |-> t.crystal, g |-> IF t.K = 0 THEN {} ELSE Group(t.crystal, t.K)],
   base |-> [L |-> t.crystal.L, P |-> IF t.K = 0 THEN t.P ELSE RefPos(t.crystal), sp |-> t.crystal.sp],
   frames |-> <<Id(Len(t.crystal.sp))>>, asked |-> <<>>, free |-> FALSE]
TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
