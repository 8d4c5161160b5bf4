------------------------------ MODULE GnnTrace ------------------------------
(***************************************************************************)
(* Judges recorded histories of a PotGNN (C23).  Samples are identified by *)
(* number; sample k has the fractional positions t.samples[k] up to lattice *)
(* vectors and a rigid translation.  State: memo[k], the output first seen *)
(* for sample k with the present weights (<<>> if none yet), and the       *)
(* fingerprint of weights and statistics.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64, TraceIn

C(name) == "C23." \o name
T == Traces[tid]
Ten(v) == <<<<v[1], v[4], v[5]>>, <<v[4], v[2], v[6]>>, <<v[5], v[6], v[3]>>>>
(* the same configuration modulo lattice vectors and a rigid translation      *)
Translate(P, d) == RRowsAdd(P, RVScale(RInt(-1), d))
Equivalent(P, Q, slack) == RSameShape(P, Q) /\ RLe(RMaxAbs(RVMinImg(Translate(RVSub(P, Q), RVSub(P[1], Q[1])))), slack)
(* scaled network output of every sample: (prediction - mean) / stddev        *)
Unscale(t, A) == [i \in 1..3 |-> [j \in 1..3 |-> RDiv(RSub(A[i][j], t.mean[i][j]), t.std[i][j])]]
Rescale(t, v) == [i \in 1..3 |-> [j \in 1..3 |-> RAdd(RMul(Ten(v)[i][j], t.std[i][j]), t.mean[i][j])]]
Room(t, A) == RMul(RDec(t.tol), RAdd(RAdd(RMaxAbs(t.mean), RMaxAbs(t.std)), RMaxAbs(A)))
Symmetric(A, tol) == RClose(A, RTransp(A), tol)

OneFailing(s, id, A) ==
  If(~RSameShape(A, T.mean) \/ ~RIsFinite(A), C("shape"))
  \cup (IF RSameShape(A, T.mean) /\ RIsFinite(A)
        THEN If(~Symmetric(A, Room(T, A)), C("not-symmetric"))
             \cup If(s.memo[id] # <<>> /\ ~RClose(A, s.memo[id], Room(T, A)), C("depends-on-more-than-the-sample"))
        ELSE {})
PredictFailing(s, e) ==
  IF e.res # "ok" THEN {C("prediction-raises")}
  ELSE If(Len(e.out) # Len(e.ids), C("number-of-predictions"))
       \cup If(e.after # s.weights, C("prediction-changed-the-weights"))
       \cup If(\E i \in 1..Len(e.P) : ~Equivalent(e.P[i], T.samples[e.ids[i]], RDec("1e-9")), C("harness-samples"))
       \cup (IF Len(e.out) = Len(e.ids) THEN UNION {OneFailing(s, e.ids[i], e.out[i]) : i \in 1..Len(e.ids)} ELSE {})
(* direct use of the network in evaluation mode                               *)
ForwardFailing(s, e) ==
  IF e.res # "ok" THEN {C("forward-raises")}
  ELSE If(Len(e.out) # Len(e.ids), C("number-of-outputs"))
       \cup If(e.after # s.weights, C("evaluation-changed-the-weights"))
       \cup (IF Len(e.out) = Len(e.ids)
             THEN UNION {LET A == Rescale(T, e.out[i])
                         IN If(s.memo[e.ids[i]] # <<>> /\ ~RClose(A, s.memo[e.ids[i]], Room(T, A)), C("not-the-scaled-network-output"))
                         : i \in 1..Len(e.ids)}
             ELSE {})
Failing(s, e) ==
  CASE e.op = "predict" -> PredictFailing(s, e)
    [] e.op = "forward" -> ForwardFailing(s, e)
    [] e.op = "train" -> {}
    [] e.op = "switch" -> If(e.after # s.weights, C("switching-modes-changed-the-weights"))
    [] e.op = "reject" -> If(e.res \notin {"ValueError", "TypeError"}, C("malformed-positions-accepted")) \cup If(e.after # s.weights, C("rejection-changed-the-weights"))
    [] e.op = "args" -> If(~e.same, C("arguments-modified"))
    [] OTHER -> {C("unknown-event")}

RECURSIVE Note(_, _, _, _)
Note(memo, ids, outs, i) ==
  IF i > Len(ids) THEN memo
  ELSE Note(IF memo[ids[i]] = <<>> THEN [memo EXCEPT ![ids[i]] = outs[i]] ELSE memo, ids, outs, i + 1)
Forget(t) == [k \in 1..Len(t.samples) |-> <<>>]
After(s, e) ==
  CASE e.op = "predict" /\ e.res = "ok" /\ Len(e.out) = Len(e.ids) -> [s EXCEPT !.memo = Note(@, e.ids, e.out, 1)]
    [] e.op = "forward" /\ e.res = "ok" /\ Len(e.out) = Len(e.ids) ->
         [s EXCEPT !.memo = Note(@, e.ids, [i \in 1..Len(e.ids) |-> Rescale(T, e.out[i])], 1)]
    [] e.op = "train" -> [s EXCEPT !.memo = Forget(T), !.weights = e.after]
    [] OTHER -> s
InitState(t) == [focus |-> t.focus, weights |-> t.weights, memo |-> Forget(t)]
TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
