--------------------------- MODULE DatasetTrace ---------------------------
(***************************************************************************)
(* Judges recorded histories of building, rescaling and reading datasets   *)
(* (C21, C22).  State: per dataset its inputs in order and the scaling in  *)
(* force (scale: <<mean, stddev>>), with the floating-point type it got.   *)
(***************************************************************************)
EXTENDS Dataset, TraceIn

Eps(e) == IF e.raw32 THEN RDec("1.2e-7") ELSE RDec("3e-16")
(* numbers stored in the default floating-point type                         *)
Store(d) == IF d.dtype = "float32" THEN RDec("1.2e-7") ELSE RDec("3e-16")
D(s, e) == s.sets[e.d]
Near(x, y, rel) == RClose(x, y, RMul(rel, RAdd(RInt(1), RMaxAbs(y))))
(* positions read from a periodic structure are defined modulo the lattice   *)
SamePlaces(got, want, periodic, rel) ==
  IF periodic THEN RSameShape(got, want) /\ RLe(RMaxAbs(RVMinImg(RVSub(got, want))), RMul(RInt(4), RAdd(rel, RDec("1e-9"))))
  ELSE Near(got, want, RMul(RInt(2), rel))

ScaledOK(d, got) ==
  Len(got) = Len(d.ins) /\
  \A i \in 1..Len(got) :
    WithinRoom(got[i], Scaled(d.ins[i].pol, d.scale[1], d.scale[2]),
               Room(d.ins[i].pol, d.scale[1], d.scale[2],
                    IF d.raw32 THEN RDec("1.2e-7") ELSE IF d.printed THEN RDec("1e-11") ELSE RDec("3e-16"), Store(d)),
               Constant(d.scale[1], d.scale[2]))

(* what a dataset reports when looked at as a whole                          *)
Look(s, e) ==
  LET d == D(s, e)
      n == Len(d.ins)
      rel == IF d.raw32 THEN RDec("1.2e-7") ELSE RDec("1e-12")
      pols == [i \in 1..n |-> d.ins[i].pol]
  IN If(e.len # n \/ e.num_samples # n, "C21.number-of-samples")
     \cup If(e.num_atoms # Len(d.ins[1].sp), "C21.number-of-atoms")
     \cup If(e.sp # d.ins[1].sp, "C21.species")
     \cup If(Len(e.P) # n, "C21.number-of-positions")
     \cup (IF Len(e.P) = n THEN If(\E i \in 1..n : ~SamePlaces(e.P[i], d.ins[i].P, d.periodic, Store(d)), "C21.positions") ELSE {})
     \cup If(~Near(e.pol, pols, d.slack), "C21.polarizabilities")
     \cup If(~Near(e.pol, pols, d.slack), "C22.raw-data")
     \cup If(~Near(e.mean, Mean(pols), RAdd(rel, d.slack)), "C22.mean")
     \cup If(~RClose(e.std, Stddev(pols), RAdd(RMul(RAdd(RMul(RInt(4), rel), d.slack), RAdd(RInt(1), RMaxAbs(Stddev(pols)))),
                                        RMul(RDec("1e-14"), RMaxAbs(pols)))), "C22.standard-deviation")
     \cup If(~ScaledOK(d, e.scaled), "C22.scaled-" \o d.how)
     \cup If(e.scaled_dtype # d.dtype, "C22.floating-point-type")
     \cup If(e.P_dtype # d.dtype, "C21.floating-point-type")

ItemFailing(s, e) ==
  LET d == D(s, e)
      n == Len(d.ins)
  IN IF e.i < 0 - n \/ e.i >= n THEN If(e.res # "IndexError", "C21.index-out-of-range")
     ELSE IF e.res # "ok" THEN {"C21.item-raises"}
     ELSE LET k == IF e.i < 0 THEN e.i + n + 1 ELSE e.i + 1
              one == [d EXCEPT !.ins = <<@[k]>>]
          IN If(~RClose(e.L, d.ins[1].L, RMul(Store(d), RAdd(RInt(1), RMaxAbs(d.ins[1].L)))) /\ ~d.printed, "C21.item-lattice")
             \cup If(d.printed /\ ~Near(e.L, d.ins[1].L, RAdd(Store(d), RDec("1e-9"))), "C21.item-lattice")
             \cup If(e.sp # d.ins[1].sp, "C21.item-species")
             \cup If(~SamePlaces(e.P, d.ins[k].P, d.periodic, Store(d)), "C21.item-positions")
             \cup If(~ScaledOK(one, <<e.scaled>>), "C21.item-polarizability")
             \cup If(~ScaledOK(one, <<e.scaled>>), "C22.item-" \o d.how)

BuildFailing(e) ==
  IF MustReject(e.ins)
  THEN If(e.res # "IncompatibleStructureException", "C21.incompatible-accepted-" \o e.source)
  ELSE IF MustAccept(e.ins) THEN If(e.res # "ok", "C21.compatible-rejected-" \o e.source) ELSE {}

Failing(s, e) ==
  CASE e.op = "build" -> BuildFailing(e)
    [] e.op = "build-bad" -> If(e.res \notin {"ValueError", "TypeError"}, "C21.malformed-accepted-" \o e.bad)
    [] e.op = "look" -> IF e.res # "ok" THEN {"C21.unreadable"} ELSE Look(s, e)
    [] e.op = "item" -> ItemFailing(s, e)
    [] e.op = "scale" -> If(e.res # "ok", "C22.scaling-raises")
    [] e.op = "scale-bad" -> If(e.res \notin {"ValueError", "TypeError"}, "C22.malformed-scaling-accepted-" \o e.bad)
    [] e.op = "tensors" ->
         IF e.res # "ok" THEN {"C22.conversion-raises"}
         ELSE If(Len(e.out) # Len(e.v) \/ \E i \in 1..Len(e.v) : e.out[i] # Ten(e.v[i]), "C22.vectors-to-tensors")
    [] e.op = "vectors" ->
         IF e.res # "ok" THEN {"C22.conversion-raises"}
         ELSE If(Len(e.out) # Len(e.t) \/ \E i \in 1..Len(e.t) : e.out[i] # Vec(e.t[i]), "C22.tensors-to-vectors")
    [] e.op = "convert-bad" -> If(e.res \notin {"ValueError", "TypeError"}, "C22.malformed-conversion-accepted")
    [] e.op = "args" -> If(~e.same, "C21.arguments-modified") \cup If(~e.same, "C22.arguments-modified")
    [] OTHER -> {"C21.unknown-event"}

After(s, e) ==
  CASE e.op = "build" /\ e.res = "ok" ->
         LET pols == [i \in 1..Len(e.ins) |-> e.ins[i].pol]
         IN [s EXCEPT !.sets = Append(@, [ins |-> e.ins, dtype |-> e.dtype, raw32 |-> e.raw32, periodic |-> e.periodic,
                                          printed |-> e.printed, slack |-> IF e.printed THEN RDec("1e-8") ELSE RDec("1e-12"),
                                          scale |-> <<Mean(pols), Stddev(pols)>>, how |-> "on-construction"])]
    [] e.op = "scale" /\ e.res = "ok" ->
         [s EXCEPT !.sets[e.d].scale = <<e.mean, e.std>>, !.sets[e.d].how = "after-rescaling"]
    [] OTHER -> s
InitState(t) == [focus |-> t.focus, sets |-> <<>>]
TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
