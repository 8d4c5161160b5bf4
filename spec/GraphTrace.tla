----------------------------- MODULE GraphTrace -----------------------------
(***************************************************************************)
(* Judges recorded predictions of PotGNN models made to show their graph   *)
(* (C26).  State: the links of the reference structure, what the network   *)
(* answered so far for which positions, and the weights drawn per seed.    *)
(***************************************************************************)
EXTENDS Graph, TraceIn

C(name) == "C26." \o name
T == Traces[tid]
Sense == RDec("1e-12")            \* a moved atom moved by more than this
Moved(P, Q) == {i \in 1..Len(P) : RLt(Sense, RMaxAbs(RVMinImg(RVSub(P[i], Q[i]))))}
Far(P, Q, i) == RLt(RDec("0.004"), RMaxAbs(RVMinImg(RVSub(P[i], Q[i]))))
Tol(A) == RMul(RDec(T.tol), RAdd(RInt(1), RMaxAbs(A)))
Ten(v) == <<<<v[1], v[4], v[5]>>, <<v[4], v[2], v[6]>>, <<v[5], v[6], v[3]>>>>
Mirror(A, s) == [i \in 1..3 |-> [j \in 1..3 |-> RMul(RInt(s[i] * s[j]), A[i][j])]]

(* an answer compared with every earlier one                                 *)
Against(s, P, A, o) ==
  LET M == Moved(P, o.P) IN
  IF M \cap Linked(s.E) = {} THEN If(~RClose(A, o.out, Tol(A)), C("unlinked-atoms-matter"))
  ELSE IF Cardinality(M) = 1 /\ \A i \in M : Far(P, o.P, i)
  THEN If(RClose(A, o.out, RMul(RDec(T.notice), RMaxAbs(RVSub(A, T.mean)))), C("linked-atom-ignored"))
  ELSE {}
(* what happens in separate components is added                              *)
Sums(s, P, A) ==
  \E a, b, z \in 1..Len(s.answers) :
    LET x == s.answers[a] y == s.answers[b] o == s.answers[z] IN
    /\ a < b /\ z # a /\ z # b
    /\ LET X == Moved(x.P, o.P) Y == Moved(y.P, o.P) IN
       /\ X # {} /\ Y # {} /\ Reach(s.E, X) \cap Reach(s.E, Y) = {}
       /\ Moved(P, o.P) = X \cup Y /\ Moved(P, x.P) = Y /\ Moved(P, y.P) = X
       /\ ~RClose(RVAdd(A, o.out), RVAdd(x.out, y.out), Tol(A))

AnswerFailing(s, e) ==
  IF e.res # "ok" THEN {C("prediction-raises")}
  ELSE IF ~RSameShape(e.out, T.mean) \/ ~RIsFinite(e.out) THEN {C("no-prediction")}
  ELSE UNION {Against(s, e.P, e.out, s.answers[k]) : k \in 1..Len(s.answers)}
       \cup If(Sums(s, e.P, e.out), C("components-influence-each-other"))
(* atoms renamed by an automorphism of the graph                             *)
RenameFailing(s, e) ==
  IF e.res # "ok" THEN {C("prediction-raises")}
  ELSE IF ~Automorphism(s.E, T.sp, e.perm) THEN {C("harness-renaming")}
  ELSE If(~RClose(e.out, e.plain, Tol(e.out)), C("atom-order-matters"))
(* the network itself on mirrored, strained and inverted samples of one batch, *)
(* each compared with what it gives alone                                     *)
ForwardFailing(s, e) ==
  IF e.res # "ok" THEN {C("forward-raises")}
  ELSE If(Len(e.out) # Len(e.alone) \/ \E k \in 1..Len(e.alone) : ~RClose(e.out[k], e.alone[k], Tol(e.alone[k])), C("samples-of-a-batch-mixed"))
       \cup If(\E k \in 1..Len(e.alone) : e.mirror[k] # <<>> /\
                 ~RClose(Ten(e.alone[k]), Mirror(Ten(e.alone[1]), e.mirror[k]), Tol(e.alone[1])), C("not-a-tensor-under-mirrors"))

Failing(s, e) ==
  CASE e.op = "answer" -> AnswerFailing(s, e)
    [] e.op = "rename" -> RenameFailing(s, e)
    [] e.op = "forward" -> ForwardFailing(s, e)
    [] e.op = "reset" ->
         If(e.res # "ok", C("reset-raises"))
         \cup If(\E k \in 1..Len(s.resets) : s.resets[k].seed = e.seed /\ s.resets[k].weights # e.weights, C("reset-remembers-training"))
         \cup If(\E k \in 1..Len(s.resets) : s.resets[k].seed # e.seed /\ s.resets[k].weights = e.weights, C("reset-draws-nothing"))
    [] e.op = "bad" -> If(e.res \notin {"ValueError", "TypeError"}, C("accepted-" \o e.what))
    [] e.op = "built" -> If(e.res # "ok", C("construction-raises"))
    [] e.op = "args" -> If(~e.same, C("arguments-modified"))
    [] OTHER -> {C("unknown-event")}
After(s, e) ==
  CASE e.op = "answer" /\ e.res = "ok" -> [s EXCEPT !.answers = Append(@, [P |-> e.P, out |-> e.out])]
    [] e.op = "reset" /\ e.res = "ok" ->
         [s EXCEPT !.answers = <<>>, !.resets = Append(@, [seed |-> e.seed, weights |-> e.weights])]
    [] OTHER -> s
InitState(t) == [focus |-> t.focus, E |-> Links(t.L, t.ref, t.cutoff), answers |-> <<>>, resets |-> <<>>]
TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
