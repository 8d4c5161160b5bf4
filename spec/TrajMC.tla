------------------------------- MODULE TrajMC -------------------------------
(* Laws of the slicing definition, for all lengths and slices in the bounds. *)
EXTENDS Traj, TLC
CONSTANT N, M, K
Opt(S) == {<<>>} \cup {<<v>> : v \in S}
VARIABLES n, a, b, c
vars == <<n, a, b, c>>
Init == n \in 0..N /\ a \in Opt((0 - M)..M) /\ b \in Opt((0 - M)..M) /\ c \in Opt(((0 - K)..K) \ {0})
Next == UNCHANGED vars
S == [i \in 1..n |-> i]
Idx == SliceIdx(n, a, b, c)
InRange == \A k \in 1..Len(Idx) : Idx[k] \in 0..(n - 1)
Arithmetic == \A k \in 2..Len(Idx) : Idx[k] - Idx[k-1] = (IF c = <<>> THEN 1 ELSE c[1])
Identity == SliceIdx(n, <<>>, <<>>, <<>>) = [k \in 1..n |-> k - 1]
Reversal == Pick(S, SliceIdx(n, <<>>, <<>>, <<-1>>)) = Reversed(S)
Split == a = <<>> \/ Pick(S, SliceIdx(n, <<>>, a, <<>>)) \o Pick(S, SliceIdx(n, a, <<>>, <<>>)) = S
(* nothing is left out: the next index in either direction is past a bound  *)
Complete == LET step == IF c = <<>> THEN 1 ELSE c[1]
                nxt == Idx[Len(Idx)] + step
                lim == AbsIdx(n, b[1])
            IN Idx = <<>> \/ nxt < 0 \/ nxt >= n \/ (b # <<>> /\ IF step > 0 THEN nxt >= lim ELSE nxt <= lim)
=============================================================================
