------------------------------ MODULE OwnTrace ------------------------------
(***************************************************************************)
(* Judges recorded histories of reading, overwriting what was read, using, *)
(* deriving and mutating (C20).  State: content[o], everything object o    *)
(* reported when it was made or last mutated.  Each event carries a fresh  *)
(* observation obs of all objects.                                         *)
(***************************************************************************)
EXTENDS Real64, TraceIn

Like(a, b) == RSame(a, b) \/ RClose(a, b, RMul(RDec("1e-9"), RAdd(RInt(1), RMaxAbs(b))))
Differs(c, o) == {p \in DOMAIN c : p \notin DOMAIN o \/ ~Like(o[p], c[p])}
Clause(e) == CASE e.op = "vandalise" -> "modifying-a-returned-value-changed-"
               [] e.op = "mutate" -> "mutating-another-object-changed-"
               [] OTHER -> e.op \o "-changed-"
AnyDiffers(s, e, except) ==
  UNION {LET d == Differs(s.content[o], e.obs[o]) IN {"C20." \o Clause(e) \o s.kinds[o] \o "." \o p : p \in d}
         : o \in (1..Len(s.content)) \ except}
Failing(s, e) ==
  IF e.op = "args" THEN If(~e.same, "C20.arguments-modified")
  ELSE If(e.res # "ok", "C20." \o e.op \o "-raises")
       \cup AnyDiffers(s, e, IF e.op = "mutate" THEN {e.o} ELSE {})
       \cup (IF e.op = "read" /\ e.res = "ok"
             THEN If(e.prop \in DOMAIN s.content[e.o] /\ ~Like(e.value, s.content[e.o][e.prop]), "C20.read-" \o e.prop) ELSE {})
(* what was reported is reported once: later events are judged against the   *)
(* latest observation                                                        *)
After(s, e) ==
  IF e.op = "args" \/ ~Has(e, "obs") THEN s
  ELSE [s EXCEPT !.content = e.obs,
                 !.kinds = IF e.op \in {"make", "derive"} /\ e.res = "ok" THEN Append(@, e.kind) ELSE @]
InitState(t) == [focus |-> t.focus, content |-> <<>>, kinds |-> <<>>]
TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
