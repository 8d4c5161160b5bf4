------------------------------ MODULE Training ------------------------------
(***************************************************************************)
(* Gradients and optimizers.  W is the flat sequence of all trainable      *)
(* numbers; slots is the optimizer's memory (momentum, or the two averages *)
(* of Adam and the number of steps).  For the linear stand-in network      *)
(* (output = features . W reshaped to features x 6) the gradient of the    *)
(* usual losses is written out as well.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64

Zero(W) == [i \in 1..Len(W) |-> RInt(0)]
Slots0(W) == [v |-> Zero(W), m |-> Zero(W), steps |-> 0]

(* SGD with momentum mu and weight decay: v <- mu v + g (v <- g at first)    *)
SgdStep(W, s, g, o) ==
  LET d == RVAdd(g, RVScale(o.decay, W))
      v == IF s.steps = 0 THEN d ELSE RVAdd(RVScale(o.mu, s.v), d)
  IN [W |-> RVSub(W, RVScale(o.lr, v)), s |-> [s EXCEPT !.v = v, !.steps = @ + 1]]
(* Adam                                                                      *)
RECURSIVE RPow(_, _)
RPow(x, n) == IF n = 0 THEN RInt(1) ELSE RMul(x, RPow(x, n - 1))
AdamStep(W, s, g, o) ==
  LET one == RInt(1)
      n == s.steps + 1
      d == RVAdd(g, RVScale(o.decay, W))
      m == RVAdd(RVScale(o.b1, s.m), RVScale(RSub(one, o.b1), d))
      v == RVAdd(RVScale(o.b2, s.v), RVScale(RSub(one, o.b2), RVMul(d, d)))
      mh == RVScale(RDiv(one, RSub(one, RPow(o.b1, n))), m)
      vh == RVScale(RDiv(one, RSub(one, RPow(o.b2, n))), v)
  IN [W |-> [i \in 1..Len(W) |-> RSub(W[i], RMul(o.lr, RDiv(mh[i], RAdd(RSqrt(vh[i]), o.eps))))],
      s |-> [m |-> m, v |-> v, steps |-> n]]
OptStep(W, s, g, o) == IF o.kind = "adam" THEN AdamStep(W, s, g, o) ELSE SgdStep(W, s, g, o)

(* ---------------------------------------------------------------- losses  *)
Count(X) == Len(X) * 6
Diff(out, target) == RVSub(out, target)
LossValue(kind, out, target) ==
  LET d == Diff(out, target)
  IN CASE kind = "mse" -> RDiv(RDot(d, d), RInt(Count(out)))
       [] kind = "mse-sum" -> RDot(d, d)
       [] kind = "l1" -> RDiv(RSum(RVMap("abs", d)), RInt(Count(out)))
Sign(x) == IF RLt(RInt(0), x) THEN RInt(1) ELSE IF RLt(x, RInt(0)) THEN RInt(-1) ELSE RInt(0)
LossGrad(kind, out, target) ==
  LET d == Diff(out, target)
  IN CASE kind = "mse" -> RVScale(RFrac(2, Count(out)), d)
       [] kind = "mse-sum" -> RVScale(RInt(2), d)
       [] kind = "l1" -> [i \in 1..Len(d) |-> [k \in 1..6 |-> RMul(RFrac(1, Count(out)), Sign(d[i][k]))]]

(* ----------------------------------------- the linear stand-in network    *)
Flat(M) == LET n == Len(M[1]) IN [q \in 1..(Len(M) * n) |-> M[((q - 1) \div n) + 1][((q - 1) % n) + 1]]
Rows(W) == [r \in 1..(Len(W) \div 6) |-> SubSeq(W, 6 * r - 5, 6 * r)]
LinearOut(W, feats) == RMatMul(feats, Rows(W))
LinearGrad(kind, W, feats, target) == Flat(RMatMul(RTransp(feats), LossGrad(kind, LinearOut(W, feats), target)))

(* -------------------------------------------------------- epoch results   *)
RECURSIVE Plus(_)
Plus(xs) == IF xs = <<>> THEN RInt(0) ELSE RAdd(xs[1], Plus(Tail(xs)))
MeanOf(xs) == RDiv(Plus(xs), RInt(Len(xs)))
(* unbiased variance of each of the six components over the samples          *)
Variance(out) ==
  LET n == Len(out)
  IN [k \in 1..6 |->
       LET m == MeanOf([i \in 1..n |-> out[i][k]])
       IN RDiv(Plus([i \in 1..n |-> LET d == RSub(out[i][k], m) IN RMul(d, d)]), RInt(n - 1))]
MeanVectors(vs) == [k \in 1..6 |-> MeanOf([i \in 1..Len(vs) |-> vs[i][k]])]
=============================================================================
