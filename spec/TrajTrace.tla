----------------------------- MODULE TrajTrace -----------------------------
(* Judges recorded uses of Trajectory objects.  State: per object, the      *)
(* configurations it reported when constructed (bit for bit).               *)
EXTENDS Pbc, Traj, TraceIn

C(name) == "C25." \o name
Conf(s, e) == s.objs[e.t].conf

NewFailing(s, e) ==
  IF e.bad # "" THEN If(e.res \notin {"ValueError", "TypeError"}, C("invalid-rejected-" \o e.bad))
  ELSE IF e.res # "ok" THEN {C("valid-rejected")}
  ELSE If(Len(e.conf) # Len(e.ts), C("number-of-configurations"))
       \cup If(Len(e.ts) > 0 /\ ~IsWrappedPos(e.ts, e.conf), C("wrapped-configurations"))
       \cup If(~RSame(e.timestep, e.given), C("timestep"))

Failing(s, e) ==
  CASE e.op = "new" -> NewFailing(s, e)
    [] e.op = "observe" -> If(~RSame(e.conf, Conf(s, e)) \/ ~RSame(e.timestep, s.objs[e.t].timestep), C("changed-later"))
    [] e.op = "len" -> If(e.res # "ok" \/ ~RSame(e.out, Len(Conf(s, e))), C("len"))
    [] e.op = "index" ->
         IF ValidIdx(Len(Conf(s, e)), e.i)
         THEN If(e.res # "ok" \/ ~RSame(e.out, Conf(s, e)[AbsIdx(Len(Conf(s, e)), e.i) + 1]), C("index"))
         ELSE If(e.res # "IndexError", C("index-out-of-range"))
    [] e.op = "slice" ->
         If(e.res # "ok" \/ ~RSame(e.out, Pick(Conf(s, e), SliceIdx(Len(Conf(s, e)), e.a, e.b, e.c))), C("slice"))
    [] e.op = "iter" -> If(e.res # "ok" \/ ~RSame(e.out, Conf(s, e)), C("iteration"))
    [] e.op = "reversed" -> If(e.res # "ok" \/ ~RSame(e.out, Reversed(Conf(s, e))), C("reversal"))
    [] e.op = "setattr" -> If(e.res = "ok", C("immutable"))
    [] e.op = "args" -> If(~e.same, C("arguments-modified"))
    [] OTHER -> {C("unknown-event")}
After(s, e) ==
  IF e.op = "new" THEN [s EXCEPT !.objs = Append(@, [conf |-> e.conf, timestep |-> e.timestep])] ELSE s
InitState(t) == [focus |-> t.focus, objs |-> <<>>]

TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
