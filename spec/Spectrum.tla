------------------------------ MODULE Spectrum ------------------------------
(***************************************************************************)
(* Raman spectra.  A phonon spectrum is the sequence of <<wavenumber,      *)
(* Raman tensor>>; an MD spectrum a polarizability time series and a       *)
(* timestep; measuring is a function of these and the correction flags.    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64

Eps == RDec("0.001")               \* documented finite-difference step
HCoverK == RDec("1.438776877")     \* h c / k, cm K

(* ---- phonon Raman tensors ------------------------------------------------ *)
Response(plus, minus) == RVScale(RDiv(RInt(1), Eps), RVSub(plus, minus))

(* ---- rotational invariants of a symmetric tensor ---------------------------- *)
Sq(x) == RMul(x, x)
Iso2(T) == Sq(RDiv(RAdd(RAdd(T[1][1], T[2][2]), T[3][3]), RInt(3)))
Aniso2(T) ==
  RDiv(RAdd(RAdd(RAdd(Sq(RSub(T[1][1], T[2][2])), Sq(RSub(T[2][2], T[3][3]))), Sq(RSub(T[3][3], T[1][1]))),
            RMul(RInt(6), RAdd(RAdd(Sq(T[1][2]), Sq(T[2][3])), Sq(T[1][3])))), RInt(2))
Powder(T) == RAdd(RMul(RInt(45), Iso2(T)), RMul(RInt(7), Aniso2(T)))
Rotated(T, Q) == RMatMul(RMatMul(Q, T), RTransp(Q))

(* ---- corrections -------------------------------------------------------------- *)
P4(x) == Sq(Sq(x))
LaserFactor(w, wl) == RDiv(P4(RDiv(RSub(w, RDiv(RInt(10000000), wl)), RInt(10000))), w)
BEx(w, temp) == RDiv(RMul(HCoverK, w), temp)
BEFactor(w, temp) == RDiv(RInt(1), RSub(RInt(1), RExp(RNeg(BEx(w, temp)))))
Correction(w, f) ==
  RMul(IF f.laser THEN LaserFactor(w, f.wavelength) ELSE RInt(1),
       IF f.be THEN BEFactor(w, f.temperature) ELSE RInt(1))
(* relative tolerance: 1e-9 of rounding and, with the Bose-Einstein factor, what *)
(* constants h, c, k of four digits allow                                         *)
CorrTol(w, f) == IF f.be THEN RMul(RDec("1e-4"), RAdd(RInt(1), RAbs(BEx(w, f.temperature)))) ELSE RDec("1e-9")
BadFlags(f) == \/ f.laser /\ RLe(f.wavelength, RInt(0))
               \/ f.be /\ RLe(f.temperature, RInt(0))

(* ---- spectra of signals --------------------------------------------------------- *)
Autocorr(sig) == LET n == Len(sig) IN
  [k \in 1..n |-> RDot(SubSeq(sig, k, n), SubSeq(sig, 1, n - k + 1))]
NumFreq(n) == (n + 1) \div 2
\* real part of the discrete Fourier transform at frequency index m
FourierRe(c, m) == LET n == Len(c) IN
  RDot(c, [k \in 1..n |-> RCos(RMul(RMul(RInt(2), RPi), RFrac((m * (k - 1)) % n, n)))])
SignalSpectrum(sig) == LET c == Autocorr(sig) IN [m \in 1..NumFreq(Len(sig)) |-> FourierRe(c, m - 1)]
\* wavenumber of frequency index m: m / (n dt) / c
PerFs == RDec("33356.40951981521")
Grid(n, dt) == [m \in 1..NumFreq(n) |-> RDiv(RMul(RFrac(m - 1, n), PerFs), dt)]

Diff(ts) == [i \in 1..(Len(ts) - 1) |-> RVSub(ts[i + 1], ts[i])]
Sig(ad, F(_)) == [i \in 1..Len(ad) |-> F(ad[i])]
MDIntensity(ts) ==      \* zero frequency included
  LET ad == Diff(ts)
      S(F(_)) == SignalSpectrum(Sig(ad, F))
      A == RVScale(RFrac(1, 9), S(LAMBDA T : RAdd(RAdd(T[1][1], T[2][2]), T[3][3])))
      D == RVAdd(RVAdd(S(LAMBDA T : RSub(T[1][1], T[2][2])), S(LAMBDA T : RSub(T[2][2], T[3][3]))),
                 S(LAMBDA T : RSub(T[3][3], T[1][1])))
      O == RVAdd(RVAdd(S(LAMBDA T : T[1][2]), S(LAMBDA T : T[2][3])), S(LAMBDA T : T[1][3]))
      G == RVAdd(RVScale(RFrac(1, 2), D), RVScale(RInt(3), O))
  IN RVAdd(RVScale(RInt(45), A), RVScale(RInt(7), G))

(* ---- convolution ---------------------------------------------------------------- *)
Gauss(d, width) ==    \* d: sequence of distances
  RVScale(RDiv(RInt(1), RMul(width, RSqrt(RMul(RInt(2), RPi)))),
          RVMap("exp", RVScale(RDiv(RDec("-0.5"), Sq(width)), RVMul(d, d))))
Lorentz(d, width) ==
  LET h == RDiv(width, RInt(2)) IN
  RVScale(RDiv(h, RPi), RVMap("inv", RVShift(Sq(h), RVMul(d, d))))
Shape(d, function, width) == IF function = "gaussian" THEN Gauss(d, width) ELSE Lorentz(d, width)
Convolved(x, peaks, heights, function, width) ==
  RDot(heights, Shape(RVShift(RNeg(x), peaks), function, width))
PeakHeight(function, width) == Shape(<<RInt(0)>>, function, width)[1]
=============================================================================
