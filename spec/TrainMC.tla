------------------------------ MODULE TrainMC ------------------------------
(***************************************************************************)
(* The protocol of training epochs, in the small.  weights counts          *)
(* optimizer steps, stats counts training-mode forward passes (batch       *)
(* statistics), grad is the set of training samples whose gradient has     *)
(* accumulated since the last reset.  One epoch: shuffle, batches of at    *)
(* most B samples (forward, loss, backward, step, reset), then validation. *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxN, MaxV, Batches, MaxEpochs
VARIABLES n, nv, b, epoch, phase, left, batch, grad, weights, stats, seen, vleft, vseen, used, hist
vars == <<n, nv, b, epoch, phase, left, batch, grad, weights, stats, seen, vleft, vseen, used, hist>>
View == <<n, nv, b, epoch, phase, left, batch, grad, weights, stats, seen, vleft, vseen, used>>
Min(x, y) == IF x < y THEN x ELSE y
Set(s) == {s[i] : i \in 1..Len(s)}

Init == /\ n \in 1..MaxN /\ nv \in 1..MaxV /\ b \in Batches /\ epoch = 0 /\ phase = "idle"
        /\ left = {} /\ batch = {} /\ grad = {} /\ weights = 0 /\ stats = 0 /\ seen = <<>>
        /\ vleft = 0 /\ vseen = <<>> /\ used = {} /\ hist = <<>>
Begin == /\ phase = "idle" /\ epoch < MaxEpochs
         /\ phase' = "forward" /\ epoch' = epoch + 1 /\ left' = 1..n /\ seen' = <<>> /\ vseen' = <<>> /\ used' = {}
         /\ hist' = Append(hist, [n |-> n, nv |-> nv, b |-> b])
         /\ UNCHANGED <<n, nv, b, batch, grad, weights, stats, vleft>>
Forward == /\ phase = "forward" /\ left # {}
           /\ \E B \in SUBSET left : /\ Cardinality(B) = Min(b, Cardinality(left))
                                     /\ batch' = B /\ left' = left \ B /\ seen' = Append(seen, B)
           /\ stats' = stats + 1 /\ phase' = "backward"
           /\ UNCHANGED <<n, nv, b, epoch, grad, weights, vleft, vseen, used, hist>>
Backward == /\ phase = "backward" /\ grad' = grad \cup batch /\ phase' = "step"
            /\ UNCHANGED <<n, nv, b, epoch, left, batch, weights, stats, seen, vleft, vseen, used, hist>>
StepW == /\ phase = "step" /\ weights' = weights + 1 /\ used' = used \cup {<<weights, grad>>} /\ phase' = "reset"
         /\ UNCHANGED <<n, nv, b, epoch, left, batch, grad, stats, seen, vleft, vseen, hist>>
Reset == /\ phase = "reset" /\ grad' = {} /\ batch' = {} /\ phase' = IF left = {} THEN "eval" ELSE "forward"
         /\ vleft' = IF left = {} THEN nv ELSE vleft
         /\ UNCHANGED <<n, nv, b, epoch, left, weights, stats, seen, vseen, used, hist>>
Validate == /\ phase = "eval" /\ vleft > 0
            /\ \E k \in 1..vleft : /\ vleft' = vleft - k
                                   /\ vseen' = vseen \o [i \in 1..k |-> <<nv - vleft + i, weights>>]
            /\ UNCHANGED <<n, nv, b, epoch, phase, left, batch, grad, weights, stats, seen, used, hist>>
Return == /\ phase = "eval" /\ vleft = 0 /\ phase' = "idle"
          /\ UNCHANGED <<n, nv, b, epoch, left, batch, grad, weights, stats, seen, vleft, vseen, used, hist>>
Next == Begin \/ Forward \/ Backward \/ StepW \/ Reset \/ Validate \/ Return
PrintHist == phase # "idle" \/ epoch # MaxEpochs \/ PrintT(<<"HIST", ToJson(hist)>>)

(* --------------------------------------------------------------- claims   *)
Done == phase = "idle" /\ epoch > 0
Once == /\ \A i, j \in 1..Len(seen) : i # j => seen[i] \cap seen[j] = {}
        /\ (Done => UNION Set(seen) = 1..n)
Sizes == \A i \in 1..Len(seen) : Cardinality(seen[i]) <= b /\ seen[i] # {}
Steps == Done => /\ Len(seen) = (n + b - 1) \div b
                 /\ weights = epoch * Len(seen) /\ stats = weights
(* the gradient of a step is that of one batch, computed with current weights *)
Fresh == \A u \in used : \E i \in 1..Len(seen) : u[2] = seen[i]
Validated == Done => vseen = [i \in 1..nv |-> <<i, weights>>]
=============================================================================
