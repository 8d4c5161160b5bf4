---------------------------- MODULE SpectrumExact ----------------------------
(***************************************************************************)
(* Exact (integer) laws of the intensity formulas, for every small tensor, *)
(* proper or improper rotation that maps the axes to themselves, and every *)
(* small signal; and the normalisation of the line shapes (in doubles).    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Spectrum
CONSTANTS B, NS, SB
VARIABLES mode, T, Q, sig
vars == <<mode, T, Q, sig>>

Vals == (0 - B)..B
Sym(v) == <<<<v[1], v[4], v[5]>>, <<v[4], v[2], v[6]>>, <<v[5], v[6], v[3]>>>>
Perms == {p \in [1..3 -> 1..3] : \A i, j \in 1..3 : i # j => p[i] # p[j]}
Signed == {<<p, s>> : p \in Perms, s \in [1..3 -> {-1, 1}]}
Rot(M, q) == [i \in 1..3 |-> [j \in 1..3 |-> q[2][i] * q[2][j] * M[q[1][i]][q[1][j]]]]

Tr(M) == M[1][1] + M[2][2] + M[3][3]
S2(x) == x * x
G2(M) == S2(M[1][1] - M[2][2]) + S2(M[2][2] - M[3][3]) + S2(M[3][3] - M[1][1])
         + 6 * (S2(M[1][2]) + S2(M[2][3]) + S2(M[1][3]))
I2(M) == 10 * S2(Tr(M)) + 7 * G2(M)     \* twice the intensity
Scale(c, M) == [i \in 1..3 |-> [j \in 1..3 |-> c * M[i][j]]]
Iso(c) == [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN c ELSE 0]]
Add(M, N) == [i \in 1..3 |-> [j \in 1..3 |-> M[i][j] + N[i][j]]]

(* signals of length 3, 4 and 6: twice the cosines are integers              *)
Cos2(n, k) == LET r == k % n IN
  CASE n = 3 -> (IF r = 0 THEN 2 ELSE -1)
    [] n = 4 -> (IF r = 0 THEN 2 ELSE IF r = 2 THEN -2 ELSE 0)
    [] n = 6 -> (IF r = 0 THEN 2 ELSE IF r \in {1, 5} THEN 1 ELSE IF r \in {2, 4} THEN -1 ELSE -2)
RECURSIVE Sum(_, _)
Sum(f, k) == IF k = 0 THEN 0 ELSE f[k] + Sum(f, k - 1)
AC(s, k) == Sum([i \in 1..(Len(s) - k) |-> s[i] * s[i + k]], Len(s) - k)
F2(s, m) == LET n == Len(s) IN Sum([k \in 1..n |-> Cos2(n, m * (k - 1)) * AC(s, k - 1)], n)
Rev(s) == [i \in 1..Len(s) |-> 0 - s[Len(s) + 1 - i]]   \* differences of the reversed series

Init == \/ /\ mode = "tensor" /\ \E v \in [1..6 -> Vals] : T = Sym(v)
           /\ Q \in Signed /\ sig = <<>>
        \/ /\ mode = "signal" /\ T = Iso(0) /\ Q = <<[i \in 1..3 |-> i], [i \in 1..3 |-> 1]>>
           /\ \E n \in NS : sig \in [1..n -> (0 - SB)..SB]
Next == UNCHANGED vars

RotationInvariant == mode = "tensor" => I2(Rot(T, Q)) = I2(T)
NonNegative == mode = "tensor" => I2(T) >= 0 /\ (I2(T) = 0 <=> T = Iso(0))
Quadratic == mode = "tensor" => I2(Scale(-3, T)) = 9 * I2(T)
IsotropicPart == mode = "tensor" => G2(Add(T, Iso(5))) = G2(T)
TimeReversal == mode = "signal" => \A m \in 0..(NumFreq(Len(sig)) - 1) : F2(Rev(sig), m) = F2(sig, m)
QuadraticSignal == mode = "signal" => \A m \in 0..(NumFreq(Len(sig)) - 1) :
   F2([i \in 1..Len(sig) |-> 2 * sig[i]], m) = 4 * F2(sig, m)
(* 2 F_m = c_0 + |DFT_m|^2, so every intensity is at least c_0 / 2            *)
AtLeastHalf == mode = "signal" => \A m \in 0..(NumFreq(Len(sig)) - 1) : F2(sig, m) >= AC(sig, 0)
(* the double-precision definitions used on traces are these                 *)
Doubles == mode = "signal" =>
  LET d == SignalSpectrum([i \in 1..Len(sig) |-> RInt(sig[i])])
  IN /\ Len(d) = NumFreq(Len(sig))
     /\ \A m \in 1..Len(d) : RClose(RMul(RInt(2), d[m]), RInt(F2(sig, m - 1)), RDec("1e-9"))
DoublesTensor == mode = "tensor" =>
  RClose(RMul(RInt(2), Powder([i \in 1..3 |-> [j \in 1..3 |-> RInt(T[i][j])]])), RInt(I2(T)), RDec("1e-9"))

Steps(n) == [k \in 1..(2 * n + 1) |-> RFrac(k - 1 - n, 10)]
Integral(fn, w, n) == RDiv(RSum(Shape(Steps(n), fn, w)), RInt(10))
ASSUME \A w \in {RDec("0.7"), RInt(2), RInt(5)} : RClose(Integral("gaussian", w, 1000), RInt(1), RDec("1e-6"))
ASSUME \A w \in {RDec("0.7"), RInt(2)} : RClose(Integral("lorentzian", w, 20000), RInt(1), RDec("1e-3"))
ASSUME \A w \in {RDec("0.7"), RInt(2), RInt(5)} :   \* full width at half maximum
  RClose(RMul(RInt(2), Shape(<<RDiv(w, RInt(2))>>, "lorentzian", w)[1]), PeakHeight("lorentzian", w), RDec("1e-12"))
ASSUME \A w \in {RDec("0.7"), RInt(2), RInt(5)} :   \* one standard deviation out
  RClose(Shape(<<w>>, "gaussian", w)[1], RMul(PeakHeight("gaussian", w), RExp(RDec("-0.5"))), RDec("1e-12"))
=============================================================================
