------------------------------ MODULE TraceIn ------------------------------
(***************************************************************************)
(* Common frame of the trace specifications: the recorded traces, and a    *)
(* step that judges the next event with Failing(st, e) (the set of clauses *)
(* "Cxx.name" it violates) and moves the specification state on with       *)
(* After(st, e).                                                           *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

Has(e, f) == f \in DOMAIN e
Tag(P, name) == {p \o "." \o name : p \in P}
If(c, name) == IF c THEN {name} ELSE {}
Info(name) == PrintT(<<"INFO", name>>)

Start(InitState(_)) == tid \in 1..Len(Traces) /\ pos = 0 /\ st = InitState(Traces[tid])
Step(Failing(_, _), After(_, _)) ==
  /\ pos < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[pos + 1]
         f == Failing(st, e)
     IN /\ \A c \in f : PrintT(<<"FAIL", tid, pos + 1, c>>)
        /\ st' = After(st, e)
  /\ pos' = pos + 1
  /\ (pos' = Len(Traces[tid].ev) => PrintT(<<"DONE", tid>>))
  /\ UNCHANGED tid
=============================================================================
