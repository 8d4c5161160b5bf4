----------------------------- MODULE TrainTrace -----------------------------
(***************************************************************************)
(* Judges recorded training epochs (C24).  The recorded network, loss and  *)
(* optimizer report every forward pass, loss evaluation and step.  State:  *)
(* W, buffers and optimizer slots as they must be now, the training        *)
(* samples not used yet in this epoch, the batch under way, and what the   *)
(* epoch has produced so far.                                              *)
(***************************************************************************)
EXTENDS Training, TraceIn

C(name) == "C24." \o name
Near(t, a, b) == RSameShape(a, b) /\ RClose(a, b, RMul(t, RAdd(RInt(1), RMaxAbs(b))))
NearS(t, a, b) == RIsReal(a) /\ RIsReal(b) /\ RLe(RAbs(RSub(a, b)), RMul(t, RAdd(RInt(1), RAbs(b))))
SameSample(x, y) == RSame(x.L, y.L) /\ x.sp = y.sp /\ RSame(x.P, y.P)
Ids(X, items) == [k \in 1..Len(X) |-> {i \in 1..Len(items) : SameSample(X[k], items[i])}]
Idle(s) == s.phase = "idle"
Feats(X) == [k \in 1..Len(X) |-> Flat(X[k].P) \o <<RInt(1)>>]

TrainForward(s, e) ==
  LET ids == Ids(e.X, s.train)
      known == \A k \in 1..Len(ids) : ids[k] # {}
      set == UNION {ids[k] : k \in 1..Len(ids)}
  IN If(s.batch # <<>>, C("previous-batch-without-a-step"))
     \cup If(s.vnext > 1, C("training-after-validation"))
     \cup If(~known, C("not-a-training-sample"))
     \cup If(known /\ (~(set \subseteq s.left) \/ Cardinality(set) # Len(e.X)), C("sample-used-twice"))
     \cup If(Len(e.X) > s.b \/ Len(e.X) = 0, C("batch-size"))
     \cup If(e.W # s.W, C("weights-not-current"))
     \cup If(s.linear /\ ~Near(s.tol, e.out, LinearOut(s.W, Feats(e.X))), C("stand-in-network"))
TrainLoss(s, e) ==
  IF s.batch = <<>> THEN {C("loss-without-forward")}
  ELSE LET want == [k \in 1..Len(s.batch) |-> s.train[s.batch[k]].y]
       IN If(~RSame(e.out, s.out), C("loss-of-another-output"))
          \cup If(~RSame(e.target, want), C("loss-against-other-samples"))
          \cup If(s.loss # "other" /\ ~NearS(s.tol, e.value, LossValue(s.loss, e.out, e.target)), C("stand-in-loss"))
          \cup If(s.linear /\ s.loss # "other" /\ ~Near(s.tol, e.grad, LinearGrad(s.loss, s.W, Feats([k \in 1..Len(s.batch) |-> s.train[s.batch[k]]]), want)), C("stand-in-gradient"))
StepFailing(s, e) ==
  IF s.grad = <<>> THEN {C("step-without-loss")}
  ELSE If(s.opt.kind # "other" /\ ~Near(s.tol, e.W, OptStep(s.W, s.slots[s.which], s.grad, s.opt).W), C("step-is-not-that-batch's-gradient"))
       \cup If(e.buf # s.buf, C("step-changed-statistics"))
ValForward(s, e) ==
  LET k == Len(e.X)
      fits == s.vnext + k - 1 <= Len(s.val) /\ k > 0
  IN If(s.left # {} \/ s.batch # <<>>, C("validation-before-training-finished"))
     \cup If(~fits \/ (fits /\ \E i \in 1..k : ~SameSample(e.X[i], s.val[s.vnext + i - 1])), C("validation-samples"))
     \cup If(e.W # s.W, C("validation-with-other-weights"))
     \cup If(e.buf # s.buf, C("validation-changed-statistics"))
ValLoss(s, e) ==
  IF s.vout = <<>> THEN {C("loss-without-forward")}
  ELSE LET at == s.vnext - Len(s.vout)
       IN If(~RSame(e.out, s.vout), C("loss-of-another-output"))
          \cup If(~RSame(e.target, [k \in 1..Len(s.vout) |-> s.val[at + k - 1].y]), C("validation-loss-against-other-samples"))
SameItems(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameSample(a[i], b[i]) /\ RSame(a[i].y, b[i].y)
EndFailing(s, e) ==
  IF e.res # "ok" THEN {C("epoch-raises")}
  ELSE If(s.left # {}, C("training-samples-left-out"))
       \cup If(s.vnext # Len(s.val) + 1, C("validation-samples-left-out"))
       \cup If(s.batch # <<>>, C("last-batch-without-a-step"))
       \cup If(s.steps # (Len(s.train) + s.b - 1) \div s.b, C("number-of-steps"))
       \cup If(e.W # s.W, C("weights-changed-outside-steps"))
       \cup If(e.buf # s.buf, C("statistics-changed-by-validation"))
       \cup If(~SameItems(e.train, s.train) \/ ~SameItems(e.val, s.val), C("datasets-changed"))
       \cup If(s.losses = <<>> \/ ~NearS(s.tol, e.train_loss, MeanOf(s.losses)), C("returned-training-loss"))
       \cup If(s.vlosses = <<>> \/ ~NearS(s.tol, e.val_loss, MeanOf(s.vlosses)), C("returned-validation-loss"))
       \cup (IF s.vouts # <<>> /\ \A i \in 1..Len(s.vouts) : Len(s.vouts[i]) > 1
             THEN If(~Near(s.tol, e.var, MeanVectors([i \in 1..Len(s.vouts) |-> Variance(s.vouts[i])])), C("returned-variance")) ELSE {})

Failing(s, e) ==
  CASE e.op = "begin" -> {}
    [] e.op = "args" -> If(~e.same, C("arguments-modified"))
    [] Idle(s) -> {C("activity-outside-of-an-epoch")}
    [] e.op = "forward" -> IF e.training THEN TrainForward(s, e) ELSE ValForward(s, e)
    [] e.op = "loss" -> IF s.batch # <<>> THEN TrainLoss(s, e) ELSE ValLoss(s, e)
    [] e.op = "step" -> StepFailing(s, e)
    [] e.op = "end" -> EndFailing(s, e)
    [] OTHER -> {C("unknown-event")}

Known(s, e) == \A k \in 1..Len(e.X) : Ids(e.X, s.train)[k] # {}
After(s, e) ==
  CASE e.op = "begin" ->
         [s EXCEPT !.phase = "epoch", !.b = e.b, !.train = e.train, !.val = e.val, !.left = 1..Len(e.train), !.batch = <<>>,
                   !.W = e.W, !.buf = e.buf, !.losses = <<>>, !.vlosses = <<>>, !.vouts = <<>>, !.vout = <<>>, !.vnext = 1,
                   !.steps = 0, !.grad = <<>>, !.loss = e.loss, !.opt = e.opt, !.which = e.which, !.linear = e.linear,
                   !.slots = IF e.which > Len(s.slots) THEN Append(@, Slots0(e.W)) ELSE @]
    [] e.op = "forward" /\ e.training ->
         IF ~Known(s, e) THEN s
         ELSE LET ids == Ids(e.X, s.train)
                  pick == [k \in 1..Len(ids) |-> CHOOSE i \in ids[k] : TRUE]
              IN [s EXCEPT !.batch = pick, !.left = @ \ {pick[k] : k \in 1..Len(pick)}, !.out = e.out, !.grad = <<>>]
    [] e.op = "forward" -> [s EXCEPT !.vout = e.out, !.vouts = Append(@, e.out), !.vnext = @ + Len(e.X)]
    [] e.op = "loss" /\ s.batch # <<>> -> [s EXCEPT !.grad = e.grad, !.losses = Append(@, e.value), !.buf = e.buf]
    [] e.op = "loss" -> [s EXCEPT !.vlosses = Append(@, e.value), !.vout = <<>>]
    [] e.op = "step" ->
         [s EXCEPT !.W = e.W, !.batch = <<>>, !.grad = <<>>, !.steps = @ + 1,
                   !.slots[s.which] = IF s.grad = <<>> \/ s.opt.kind = "other" THEN @ ELSE OptStep(s.W, @, s.grad, s.opt).s]
    [] e.op = "end" -> [s EXCEPT !.phase = "idle"]
    [] OTHER -> s
InitState(t) ==
  [focus |-> t.focus, tol |-> RDec(t.tol), phase |-> "idle", b |-> 1, train |-> <<>>, val |-> <<>>, left |-> {}, batch |-> <<>>,
   W |-> <<>>, buf |-> <<>>, losses |-> <<>>, vlosses |-> <<>>, vouts |-> <<>>, vout |-> <<>>, vnext |-> 1, steps |-> 0,
   grad |-> <<>>, out |-> <<>>, loss |-> "other", opt |-> [kind |-> "other"], which |-> 0, linear |-> FALSE, slots |-> <<>>]
TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
