-------------------------------- MODULE Traj --------------------------------
(***************************************************************************)
(* Trajectories as sequences: Python's indexing and slicing of a sequence  *)
(* of length n (indices start at 0), written from the language reference.  *)
(* An optional integer is <<>> (None) or <<v>>.                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

ValidIdx(n, i) == (0 - n) <= i /\ i < n
AbsIdx(n, i) == IF i < 0 THEN i + n ELSE i

Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Bound(n, o, default, lo, hi) ==
  IF o = <<>> THEN default ELSE Clamp(IF o[1] < 0 THEN o[1] + n ELSE o[1], lo, hi)

RECURSIVE Walk(_, _, _)
Walk(i, stop, step) ==
  IF (step > 0 /\ i >= stop) \/ (step < 0 /\ i <= stop) THEN <<>>
  ELSE <<i>> \o Walk(i + step, stop, step)

SliceIdx(n, a, b, c) ==
  LET step == IF c = <<>> THEN 1 ELSE c[1]
      start == IF step > 0 THEN Bound(n, a, 0, 0, n) ELSE Bound(n, a, n - 1, -1, n - 1)
      stop == IF step > 0 THEN Bound(n, b, n, 0, n) ELSE Bound(n, b, -1, -1, n - 1)
  IN Walk(start, stop, step)

Pick(s, idx) == [k \in 1..Len(idx) |-> s[idx[k] + 1]]
Reversed(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
=============================================================================
