---------------------------- MODULE WorkflowTrace ----------------------------
(***************************************************************************)
(* Judges recorded runs of the documented workflow (C28): displaced        *)
(* structures are made, "calculated" with the true polarizability of the   *)
(* crystal, put into files or arrays, added; predictions, Raman tensors    *)
(* and spectra are compared with the true ones.                            *)
(***************************************************************************)
EXTENDS Workflow, TraceIn

W(name) == "C28." \o name
Near(X, Y, t) == RClose(X, Y, RMul(RDec(t), RAdd(ROne, RMaxAbs(Y))))
TrueAt(s, u) == RVAdd(s.alpha, Linear(s.A, u))
Unmasked(s, e) == SelectSeq([i \in 1..Len(s.V) |-> <<s.V[i], e.mask[i]>>], LAMBDA x : ~x[2])
Active(s, e) == [i \in 1..Len(Unmasked(s, e)) |-> Unmasked(s, e)[i][1]]
(* what the model has to say: exactly the truth once every direction is known *)
Says(s, e, u) ==
  LET V == Active(s, e) IN TrueAt(s, IF Len(V) = 3 * Len(s.A) THEN u ELSE Projected(V, u))
Model(s) == [ref |-> s.alpha, dofs |-> [i \in 1..Len(s.V) |-> [v |-> s.V[i]]]]

DisplacedFailing(s, e) ==
  IF e.res # "ok" THEN {W("displaced-structures-refused")}
  ELSE If(Len(e.positions) # Len(e.amps) \/ \E j \in 1..Len(e.amps) :
            ~Near(CartDisp(s.cry.c, e.positions[j]), RVScale(e.amps[j], Unit(e.disp)), "1e-9"), W("displaced-structures"))
CalcFailing(s, e) == If(\E j \in 1..Len(e.pols) : ~Near(e.pols[j], TrueAt(s, CartDisp(s.cry.c, e.positions[j])), "1e-9"), W("harness-calculation"))
AddFailing(s, e) ==
  LET u == Unit(e.disp) IN
  IF e.res = "ok" THEN
    If(Len(e.basis) <= Len(s.V) \/ (\E i \in 1..Len(s.V) : ~Near(e.basis[i], s.V[i], "1e-12")) \/ ~Orthonormal(e.basis)
       \/ ~\E i \in (Len(s.V) + 1)..Len(e.basis) : RLe(RDec("0.999999"), AbsCos(e.basis[i], u)), W("basis"))
    \cup If(Len(e.mask) # Len(e.basis) \/ \E i \in 1..Len(e.mask) : e.mask[i], W("mask"))
  ELSE If(~RSame(e.basis, s.V), W("refused-addition-changes-the-basis"))
       \cup LET IM == Imgs(s.cry, u) m == Model(s) IN
            If(~GreyAdd(IM, m, u) /\ MustAccept(IM, m, u, e.amps, e.pols, e.k, e.incl), W("valid-addition-refused"))
PredictFailing(s, e) ==
  IF e.res # "ok" THEN {W("prediction-raises")}
  ELSE If(Len(e.out) # Len(e.positions) \/ \E j \in 1..Len(e.out) :
            ~Near(e.out[j], Says(s, e, CartDisp(s.cry.c, e.positions[j])), "1e-7"), W("prediction"))
(* every nonequivalent atom has three directions exactly when all 3N are known *)
TuplesFailing(s, e) ==
  IF e.res # "ok" THEN {W("tuples-raise")}
  ELSE If((Len(s.V) = 3 * Len(s.A)) # (\A i \in 1..Len(e.counts) : e.counts[i] = 3), W("completeness"))
Intensity(w, T, I, t) == RClose(I, Powder(T), RMul(RDec(t), RAdd(ROne, RAbs(Powder(T)))))
PhononsFailing(s, e) ==
  IF e.res # "ok" THEN {W("phonon-spectrum-raises")}
  ELSE LET want == [k \in 1..Len(e.disp) |-> RVScale(RInt(2), RVSub(Says(s, e, RMatMul(e.disp[k], s.cry.c.L)), s.alpha))] IN
    If(Len(e.tensors) # Len(want) \/ ~Near(e.tensors, want, "1e-6"), W("raman-tensors"))
    \cup If(~RSame(e.w, e.wn), W("wavenumbers"))
    \cup If(Len(e.I) # Len(want) \/ \E k \in 1..Len(e.I) : ~Intensity(e.w[k], want[k], e.I[k], "3e-6"), W("phonon-intensities"))
MDFailing(s, e) ==
  IF e.res # "ok" THEN {W("md-spectrum-raises")}
  ELSE LET want == [k \in 1..Len(e.positions) |-> Says(s, e, CartDisp(s.cry.c, e.positions[k]))]
           I == Tail(MDIntensity(want))
           (* rounding of the polarizabilities: the intensities of a small error *)
           err == RMul(RDec("1e-6"), RAdd(ROne, RMaxAbs(want)))
           noise == RMaxAbs(MDIntensity([k \in 1..Len(want) |-> [a \in 1..3 |-> [b \in 1..3 |-> IF k = 2 /\ a = b THEN err ELSE RZero]]])) IN
    If(~Near(e.ts, want, "1e-7"), W("polarizabilities-along-a-trajectory"))
    \cup If(~RSameShape(e.I, I) \/ ~RClose(e.I, I, RAdd(noise, RMul(RDec("1e-5"), RMaxAbs(MDIntensity(want))))), W("md-intensities"))
SmearFailing(s, e) ==
  IF e.res # "ok" THEN {W("convolution-raises")}
  ELSE If(Len(e.out) # Len(e.x) \/ \E k \in 1..Len(e.x) :
            ~RClose(e.out[k], Convolved(e.x[k], e.w, e.I, e.shape, e.width),
                    RMul(RDec("1e-8"), RAdd(RDec("1e-12"), RMul(PeakHeight(e.shape, e.width), RSum(RVMap("abs", e.I)))))), W("smeared-spectrum"))

Failing(s, e) ==
  CASE e.op = "start" -> If(e.res # "ok", W("model-refused"))
    [] e.op = "displaced" -> DisplacedFailing(s, e)
    [] e.op = "calc" -> CalcFailing(s, e)
    [] e.op = "add" -> AddFailing(s, e)
    [] e.op = "predict" -> PredictFailing(s, e)
    [] e.op = "tuples" -> TuplesFailing(s, e)
    [] e.op = "phonons" -> PhononsFailing(s, e)
    [] e.op = "md" -> MDFailing(s, e)
    [] e.op = "smear" -> SmearFailing(s, e)
    [] e.op = "args" -> If(~e.same, W("arguments-modified"))
    [] e.op = "complete" -> IF Len(s.V) = 3 * Len(s.A) /\ Info("complete model") THEN {} ELSE {}
    [] OTHER -> {W("unknown-event")}
After(s, e) == IF e.op = "add" /\ e.res = "ok" THEN [s EXCEPT !.V = e.basis] ELSE s
InitState(t) ==
  LET g == Group(t.crystal, t.K) IN
  [focus |-> t.focus, cry |-> [c |-> t.crystal, g |-> g], A |-> t.A, alpha |-> t.alpha, V |-> <<>>,
   fine |-> IF \A x \in g : Respects(t.A, x) THEN TRUE ELSE PrintT(<<"FAIL", tid, 1, W("harness-response")>>)]
TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
