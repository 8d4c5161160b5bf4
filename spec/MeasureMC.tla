------------------------------ MODULE MeasureMC ------------------------------
(***************************************************************************)
(* Measuring as a state machine.  A spectrum is made of content; a measure *)
(* with given settings reports a value which is a function of the content  *)
(* and of the settings that are switched on; results belong to the caller, *)
(* who may overwrite them.  hist is replayed into the code.                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, NObj
VARIABLES objs, results, hist
vars == <<objs, results, hist>>
View == <<objs, results, Len(hist)>>
Flags == [laser : BOOLEAN, be : BOOLEAN, wavelength : {-1, 0, 1, 2}, temperature : {-1, 0, 1, 2}]
Rec(act, o, f) == [act |-> act, o |-> o, f |-> f]
NoFlags == [laser |-> FALSE, be |-> FALSE, wavelength |-> 1, temperature |-> 1]
Bad(f) == (f.laser /\ f.wavelength <= 0) \/ (f.be /\ f.temperature <= 0)
Effective(f) == <<IF f.laser THEN f.wavelength ELSE 0, IF f.be THEN f.temperature ELSE 0>>
Value(o, f) == IF Bad(f) THEN <<"error">> ELSE <<objs[o], Effective(f)>>

Init == objs = <<>> /\ results = {} /\ hist = <<>>
Make(kind) == /\ Len(objs) < NObj
              /\ objs' = Append(objs, <<kind, Len(objs)>>)
              /\ UNCHANGED results
              /\ hist' = Append(hist, Rec("make_" \o kind, Len(objs) + 1, NoFlags))
Measure(o, f) == /\ results' = results \cup {<<o, f, Value(o, f)>>}
                 /\ UNCHANGED objs
                 /\ hist' = Append(hist, Rec("measure", o, f))
Orient(o) == UNCHANGED <<objs, results>> /\ hist' = Append(hist, Rec("orientation", o, NoFlags))
Vandalise(o) == UNCHANGED <<objs, results>> /\ hist' = Append(hist, Rec("vandalise", o, NoFlags))
Next == \/ \E k \in {"phonon", "md"} : Make(k)
        \/ \E o \in 1..Len(objs) : Orient(o) \/ Vandalise(o) \/ \E f \in Flags : Measure(o, f)
Bounded == Len(hist) <= MaxLen
PrintHist == Len(hist) < MaxLen \/ PrintT(<<"HIST", ToJson(hist)>>)

Functional == \A r, s \in results :
  (r[1] = s[1] /\ Effective(r[2]) = Effective(s[2]) /\ ~Bad(r[2]) /\ ~Bad(s[2])) => r[3] = s[3]
Separate == \A r, s \in results : (r[1] # s[1] /\ r[3] # <<"error">>) => r[3] # s[3]
IgnoredParameters == \A r \in results :
  (~r[2].laser /\ ~r[2].be) => r[3] # <<"error">>
=============================================================================
