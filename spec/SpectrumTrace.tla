--------------------------- MODULE SpectrumTrace ---------------------------
(***************************************************************************)
(* Judges recorded spectra (C16, C17, C18) and convolutions (C19).  State: *)
(* per spectrum object what it was made of and, per measurement setting,   *)
(* what it reported first.                                                 *)
(***************************************************************************)
EXTENDS Spectrum, TraceIn

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Near(x, y, t) == RClose(x, y, t)
Tol(X, t) == RMul(RDec(t), RAdd(RInt(1), RMaxAbs(X)))

(* ---- C16: spectra of phonons ------------------------------------------------- *)
(* e.plus / e.minus: the model's own answers at ref +- 0.001 d, one sample at a   *)
(* time, asked by the driver.  Rounding of the positions and of the difference    *)
(* quotient is amplified by 1000.                                                 *)
PhononsFailing(s, e) ==
  IF e.bad THEN If(e.res # "ValueError", "C16.incompatible-model")
  ELSE IF e.res # "ok" THEN {"C16.spectrum-raises"}
  ELSE LET want == [k \in 1..Len(e.plus) |-> Response(e.plus[k], e.minus[k])] IN
       If(~RSame(e.wn, e.givenwn), "C16.wavenumbers")
       \cup If(Len(e.tensors) # Len(want) \/ ~Near(e.tensors, want, RMul(RDec("1e-9"), RAdd(RInt(1), e.scale))), "C16.raman-tensors")
       \cup If(~e.modelsame, "C16.model-changed")
(* relations between spectra of the same trace: rel = "odd", "same", "permuted",   *)
(* "scaled" (linear model): tensors of e.a against those of e.b                    *)
RelFailing(s, e) ==
  LET a == s.objs[e.a].tensors b == s.objs[e.b].tensors
      t == RMul(RDec("2e-9"), RAdd(RInt(1), e.scale)) IN
  IF Len(a) # Len(e.perm) THEN {"C16.number-of-modes"}
  ELSE If(\E k \in 1..Len(a) : ~Near(a[k], RVScale(e.factor, b[e.perm[k]]), t), "C16." \o e.rel)

(* ---- C17 / C18: measurements ------------------------------------------------- *)
IntensityTol(s, want) == RAdd(RMul(RDec("1e-9"), RMaxAbs(want)), RDec("1e-300"))
Expected(o) ==
  IF o.kind = "phonon" THEN [k \in 1..Len(o.tensors) |-> Powder(o.tensors[k])]
  ELSE IF Len(o.ts) < 3 THEN <<>> ELSE Tail(o.raw)
Wns(o) == IF o.kind = "phonon" THEN o.wn ELSE IF Len(o.ts) < 3 THEN <<>> ELSE Tail(Grid(Len(o.ts) - 1, o.timestep))
(* the zero point of an MD intensity is a cancellation of terms of size o.size *)
MeasureFailing(s, e) ==
  LET o == s.objs[e.o]
      P == IF o.kind = "phonon" THEN "C17." ELSE "C18."
      base == Expected(o)
      wn == Wns(o)
  IN
  IF e.badorientation THEN If(e.res # "NotImplementedError", P \o "orientation")
  ELSE IF BadFlags(e.flags) THEN If(e.res # "ValueError", P \o "non-positive-parameter")
  ELSE IF e.res # "ok" THEN {P \o "measure-raises"}
  ELSE
    If(Len(e.wn) # Len(wn) \/ Len(e.I) # Len(wn), P \o "number-of-points")
    \cup (IF Len(e.wn) # Len(wn) \/ Len(e.I) # Len(wn) THEN {} ELSE
      (IF o.kind = "phonon" THEN If(~RSame(e.wn, wn), P \o "wavenumbers")
       ELSE If(\E k \in 1..Len(wn) : ~Near(e.wn[k], wn[k], RMul(RDec("1e-6"), wn[k])), P \o "wavenumbers"))
      \cup If(\E k \in 1..Len(wn) :
                LET c == Correction(wn[k], e.flags)
                    scale == IF o.kind = "phonon" THEN RAbs(base[k]) ELSE RMaxAbs(base)
                IN ~Near(e.I[k], RMul(base[k], c),
                         RAdd(RMul(RAbs(c), RMul(scale, CorrTol(wn[k], e.flags))), RDec("1e-290"))),
              P \o (IF e.flags.laser \/ e.flags.be THEN "corrected-intensities" ELSE "intensities")))
    \cup If(~e.flags.laser /\ ~e.flags.be /\ o.kind = "phonon" /\ \E k \in 1..Len(e.I) : RLt(e.I[k], RInt(0)), P \o "negative")
    \cup If(\E k \in 1..Len(s.seen) : s.seen[k].o = e.o /\ s.seen[k].flags = e.flags /\
              (~RSame(s.seen[k].wn, e.wn) \/ ~RSame(s.seen[k].I, e.I)), P \o "measurement-depends-on-history")

(* two measurements of related spectra: I[e.a] = factor * I[e.b] *)
MeasuredRel(s, e) ==
  LET a == s.seen[e.a] b == s.seen[e.b]
      P == IF s.objs[a.o].kind = "phonon" THEN "C17." ELSE "C18."
  IN If(~RClose(a.I, RVScale(e.factor, b.I), RMul(RDec("1e-8"), RAdd(RMaxAbs(a.I), RMul(RAbs(e.factor), RMaxAbs(b.I))))), P \o e.rel)

(* ---- C18: spectra of trajectories and signals ---------------------------------- *)
TrajFailing(s, e) ==
  IF e.bad THEN If(e.res # "ValueError", "C18.incompatible-model")
  ELSE IF e.res # "ok" THEN {"C18.spectrum-raises"}
  ELSE If(Len(e.ts) # Len(e.direct) \/ ~Near(e.ts, e.direct, Tol(e.direct, e.tol)), "C18.polarizabilities-in-order")
       \cup If(~RSame(e.timestep, e.given), "C18.timestep")
SignalFailing(s, e) ==
  IF e.res # "ok" THEN {"C18.signal-raises"}
  ELSE LET n == Len(e.signal) IN
       If(Len(e.wn) # NumFreq(n) \/ Len(e.I) # NumFreq(n), "C18.signal-points")
       \cup (IF Len(e.wn) # NumFreq(n) \/ Len(e.I) # NumFreq(n) THEN {} ELSE
         If(~Near(e.wn, Grid(n, e.dt), RMul(RDec("1e-6"), RDiv(PerFs, e.dt))), "C18.signal-grid")
         \cup If(~Near(e.I, SignalSpectrum(e.signal), RMul(RDec("1e-9"), RAdd(RDec("1e-280"), RDot(e.signal, e.signal)))), "C18.signal-spectrum"))

(* ---- C19 ------------------------------------------------------------------------ *)
ConvFailing(s, e) ==
  IF e.bad # "" THEN If(e.res \notin {"ValueError"}, "C19.rejected-" \o e.bad)
  ELSE IF e.res # "ok" THEN {"C19.convolve-raises"}
  ELSE
    (IF e.default THEN
       LET n == Len(e.x)
           lo == RSub(RNeg(RMax(RVScale(RInt(-1), e.wn))), RInt(100))
           hi == RAdd(RMax(e.wn), RInt(100))
       IN If(n < 2, "C19.default-grid")
          \cup (IF n < 2 THEN {} ELSE
            LET h == RDiv(RSub(e.x[n], e.x[1]), RInt(n - 1)) IN
            If(~RClose(e.x[1], lo, RDec("1e-6")) \/ ~RClose(e.x[n], hi, RDec("1e-6")), "C19.default-range")
            \cup If(RLt(h, RDec("0.9")) \/ RLt(RDec("1.1"), h), "C19.default-sampling")
            \cup If(\E k \in 1..n : ~RClose(e.x[k], RAdd(e.x[1], RMul(RInt(k - 1), h)), RDec("1e-6")), "C19.default-even"))
     ELSE If(~RSame(e.x, e.out), "C19.output-wavenumbers"))
    \cup If(Len(e.I) # Len(e.x), "C19.number-of-points")
    \cup (IF Len(e.I) # Len(e.x) THEN {} ELSE
      LET size == RVMap("abs", e.h)
          \* single-precision outputs round every distance; otherwise each term is accurate
          loose == RMul(PeakHeight(e.fn, e.width), RSum(size))
          tol(k) == RAdd(RDec("1e-290"), RMul(RDec(e.tol),
                      IF e.tol = "1e-9" THEN Convolved(e.x[k], e.wn, size, e.fn, e.width) ELSE loose))
      IN If(\E k \in 1..Len(e.x) : ~RClose(e.I[k], Convolved(e.x[k], e.wn, e.h, e.fn, e.width), tol(k)), "C19." \o e.fn))

Failing(s, e) ==
  CASE e.op = "phonons" -> PhononsFailing(s, e)
    [] e.op = "rel" -> RelFailing(s, e)
    [] e.op = "object" -> {}
    [] e.op = "measure" -> MeasureFailing(s, e)
    [] e.op = "measuredrel" -> MeasuredRel(s, e)
    [] e.op = "trajectory" -> TrajFailing(s, e)
    [] e.op = "signal" -> SignalFailing(s, e)
    [] e.op = "conv" -> ConvFailing(s, e)
    [] e.op = "args" -> If(~e.same, s.focus \o ".arguments-modified")
    [] OTHER -> {s.focus \o ".unknown-event"}

Obj(e) == IF e.kind = "phonon" THEN [kind |-> "phonon", wn |-> e.wn, tensors |-> e.tensors]
          ELSE [kind |-> "md", ts |-> e.ts, timestep |-> e.timestep,
                raw |-> IF Len(e.ts) < 3 THEN <<>> ELSE MDIntensity(e.ts)]
After(s, e) ==
  CASE e.op = "phonons" ->
         [s EXCEPT !.objs = Append(@, [kind |-> "phonon", wn |-> e.wn, tensors |-> e.tensors])]
    [] e.op = "object" -> [s EXCEPT !.objs = Append(@, Obj(e))]
    [] e.op = "measure" ->
         IF e.badorientation THEN [s EXCEPT !.seen = Append(@, [o |-> 0, flags |-> e.flags, wn |-> e.wn, I |-> e.I])] ELSE
         [s EXCEPT !.seen = Append(@, [o |-> e.o, flags |-> e.flags, wn |-> e.wn, I |-> e.I])]
    [] OTHER -> s
InitState(t) == [focus |-> t.focus, objs |-> <<>>, seen |-> <<>>]

TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
