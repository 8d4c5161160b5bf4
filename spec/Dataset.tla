------------------------------ MODULE Dataset ------------------------------
(***************************************************************************)
(* Polarizability datasets.  An input is a record [L, sp, P, pol]; a       *)
(* dataset is built from a sequence of inputs, all compatible with the     *)
(* first one, and holds the samples in order together with the scaling     *)
(* <<mean, stddev>> last applied to it.                                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, Real64

Gap(a, b) == RMaxAbs(RVSub(a.L, b.L))
(* clearly the same lattice / clearly another one (in between: either)       *)
SameLattice(a, b) == RLe(Gap(a, b), RDec("8e-6"))
OtherLattice(a, b) == ~RLe(Gap(a, b), RMul(RDec("1e-4"), RAdd(RInt(1), RMaxAbs(a.L))))
Fits(a, b) == a.sp = b.sp /\ SameLattice(a, b)
Clashes(a, b) == a.sp # b.sp \/ OtherLattice(a, b)
(* every input is compared with the first one                                *)
MustAccept(ins) == \A i \in 1..Len(ins) : Fits(ins[1], ins[i])
MustReject(ins) == \E i \in 2..Len(ins) : Clashes(ins[1], ins[i])

(* ------------------------------------------------------------ statistics  *)
RECURSIVE VSum(_)
VSum(xs) == IF Len(xs) = 1 THEN xs[1] ELSE RVAdd(xs[1], VSum(Tail(xs)))
Mean(xs) == RVScale(RDiv(RInt(1), RInt(Len(xs))), VSum(xs))
(* population standard deviation, entry by entry                             *)
Stddev(xs) == LET m == Mean(xs)
                  sq == [i \in 1..Len(xs) |-> LET d == RVSub(xs[i], m) IN RVMul(d, d)]
              IN RVMap("sqrt", Mean(sq))

(* ------------------------------------------------- 6-vectors and tensors  *)
Vec(t) == <<t[1][1], t[2][2], t[3][3], t[1][2], t[1][3], t[2][3]>>
Ten(v) == <<<<v[1], v[4], v[5]>>, <<v[4], v[2], v[6]>>, <<v[5], v[6], v[3]>>>>

(* the scaled vector of one sample, and how far rounding may move it: eps is  *)
(* the relative precision of the raw numbers, out of the stored result                            *)
Scaled(pol, mean, std) == Vec([i \in 1..3 |-> [j \in 1..3 |-> RDiv(RSub(pol[i][j], mean[i][j]), std[i][j])]])
Room(pol, mean, std, eps, out) ==
  Vec([i \in 1..3 |-> [j \in 1..3 |->
    RAdd(RMul(RMul(RInt(16), eps), RAdd(RInt(1), RDiv(RAdd(RAbs(pol[i][j]), RAbs(mean[i][j])), RAbs(std[i][j])))),
         RMul(RMul(RInt(16), out), RAdd(RInt(1), RAbs(RDiv(RSub(pol[i][j], mean[i][j]), std[i][j])))))]])
(* entries that do not vary at all cannot be scaled: nothing is said of them *)
Constant(mean, std) == Vec([i \in 1..3 |-> [j \in 1..3 |-> RLe(RAbs(std[i][j]), RMul(RDec("1e-10"), RAdd(RDec("1e-10"), RAbs(mean[i][j]))))]])
WithinRoom(v, w, room, free) ==
  Len(v) = Len(w) /\ \A k \in 1..Len(v) : free[k] \/ RLe(RAbs(RSub(v[k], w[k])), room[k])
=============================================================================
