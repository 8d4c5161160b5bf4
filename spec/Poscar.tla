------------------------------- MODULE Poscar -------------------------------
(***************************************************************************)
(* The POSCAR and XDATCAR formats.  A file is a sequence of lines          *)
(* [c |-> first character, t |-> tokens].  ParsePoscar / ParseXdatcar give *)
(* the meaning of a file: [ok, L, sp, P] with fractional positions P       *)
(* (XDATCAR: the sequence of configurations P).                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Elements, Real64

Bad == [ok |-> FALSE]
NLines(F) == Len(F)
Num3(F, i) == i <= Len(F) /\ Len(F[i].t) >= 3 /\ \A k \in 1..3 : RIsNum(F[i].t[k])
Vec3(F, i) == [k \in 1..3 |-> RDec(F[i].t[k])]

RECURSIVE Expand(_, _)
Expand(symbols, counts) ==
  IF symbols = <<>> THEN <<>>
  ELSE [k \in 1..counts[1] |-> NumberOf[symbols[1]]] \o Expand(Tail(symbols), Tail(counts))

HeaderOk(F) ==
  /\ Len(F) >= 7
  /\ Len(F[2].t) = 1 /\ RIsNum(F[2].t[1])
  /\ \A i \in 3..5 : Num3(F, i)
  /\ Len(F[6].t) > 0 /\ \A k \in 1..Len(F[6].t) : F[6].t[k] \in Symbols
  /\ Len(F[7].t) = Len(F[6].t) /\ \A k \in 1..Len(F[7].t) : RIsInt(F[7].t[k])

(* Universal scaling: a factor, or (negative) the volume of the cell.       *)
Header(F) ==
  LET raw == [i \in 1..3 |-> Vec3(F, i + 2)]
      s == RDec(F[2].t[1])
      f == IF RLt(s, RInt(0)) THEN RCbrt(RDiv(RNeg(s), RAbs(RDet3(raw)))) ELSE s
  IN [f |-> f, L |-> RVScale(f, raw),
      sp |-> Expand(F[6].t, [k \in 1..Len(F[7].t) |-> RDecInt(F[7].t[k])])]

IsDirect(line) == line.c \in {"d", "D"}
IsCart(line) == line.c \in {"c", "C"}
IsSelective(line) == line.c \in {"s", "S"}

(* Coordinates of n atoms, announced in line i.                             *)
BlockOk(F, i, n) == i <= Len(F) /\ (IsDirect(F[i]) \/ IsCart(F[i])) /\ \A a \in 1..n : Num3(F, i + a)
Block(F, i, n, h) ==
  LET P == [a \in 1..n |-> Vec3(F, i + a)]
  IN IF IsDirect(F[i]) THEN P ELSE RMatMul(RVScale(h.f, P), RInv3(h.L))

ParsePoscar(F) ==
  IF ~HeaderOk(F) THEN Bad
  ELSE LET h == Header(F)
           n == Len(h.sp)
           i == IF 8 <= Len(F) /\ IsSelective(F[8]) THEN 9 ELSE 8
       IN IF ~BlockOk(F, i, n) THEN Bad
          ELSE [ok |-> TRUE, L |-> h.L, sp |-> h.sp, P |-> Block(F, i, n, h), last |-> i + n]

ParseXdatcar(F) ==
  IF ~HeaderOk(F) THEN Bad
  ELSE LET h == Header(F)
           n == Len(h.sp)
           m == (Len(F) - 7) \div (n + 1)
           Start(k) == 8 + (k - 1) * (n + 1)
       IN IF m < 1 \/ Len(F) # 7 + m * (n + 1) \/ \E k \in 1..m : ~BlockOk(F, Start(k), n) THEN Bad
          ELSE [ok |-> TRUE, L |-> h.L, sp |-> h.sp, P |-> [k \in 1..m |-> Block(F, Start(k), n, h)],
                last |-> Len(F)]

(* ---- what may be written --------------------------------------------------*)
Grouped(sp) == \A i, j, k \in 1..Len(sp) : (i < j /\ j < k /\ sp[i] = sp[k]) => sp[j] = sp[i]
Coords(P) == RIsFinite(P) /\ \A a \in 1..Len(P) : Len(P[a]) = 3
InCell(P) == RLe(RMaxAbs(RVShift(RFrac(-1, 2), P)), RFrac(1, 2))
IsMat3(L) == RIsFinite(L) /\ Len(L) = 3 /\ \A i \in 1..3 : Len(L[i]) = 3
Species(sp) == Len(sp) > 0 /\ \A i \in 1..Len(sp) : sp[i] \in 1..Len(Symbol)
ValidStructure(L, sp, P) == IsMat3(L) /\ Species(sp) /\ Grouped(sp) /\ Coords(P) /\ Len(P) = Len(sp) /\ InCell(P)
ValidTrajectory(L, sp, T) == IsMat3(L) /\ Species(sp) /\ Grouped(sp) /\ Len(T) > 0
  /\ \A k \in 1..Len(T) : Coords(T[k]) /\ Len(T[k]) = Len(sp) /\ InCell(T[k])

PrintTol == RDec("1e-12")
Means(p, L, sp, P) ==
  /\ p.ok
  /\ RClose(p.L, L, RMul(PrintTol, RAdd(RInt(1), RMaxAbs(L))))
  /\ p.sp = sp
  /\ RClose(p.P, P, PrintTol)
=============================================================================
