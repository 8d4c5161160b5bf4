------------------------------ MODULE StoreMC ------------------------------
(***************************************************************************)
(* The directory as a state machine under valid, invalid and multi-file    *)
(* writes and external changes.  fs maps each path to a content (0 =       *)
(* absent).  A multi-file write refused because a later file exists may    *)
(* leave the earlier files written.                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT MaxLen
Names == {"a", "b", "c"}
Contents == 1..3
VARIABLES fs, last, hist
vars == <<fs, last, hist>>
View == <<fs, last>>

Rec(act, p, c, ow) == [act |-> act, p |-> p, c |-> c, ow |-> ow]
Init == fs = [p \in Names |-> 0] /\ last = Rec("init", <<>>, 0, FALSE) /\ hist = <<>>
Log(r) == last' = r /\ hist' = Append(hist, r)

(* contents 1..3 are valid structures, 10 + c an externally made file,       *)
(* 20 + k what a multi-file write puts into its k-th file                    *)
Write(p, c, ow) ==
  /\ fs' = IF fs[p] # 0 /\ ~ow THEN fs ELSE [fs EXCEPT ![p] = c]
  /\ Log(Rec("write", p, c, ow))
Invalid(p, c, ow) == UNCHANGED fs /\ Log(Rec("invalid", p, c, ow))
External(p, c) == fs' = [fs EXCEPT ![p] = IF c = 0 THEN 0 ELSE 10 + c] /\ Log(Rec("external", p, c, FALSE))

Seqs == {<<p, q>> : p, q \in Names} \cup {<<p, q, r>> : p, q, r \in Names}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
At(s, p) == CHOOSE k \in 1..Len(s) : s[k] = p
Given(s) == {s[k] : k \in 1..Len(s)}
Multi(s, ow) ==
  LET blocked == {k \in 1..Len(s) : fs[s[k]] # 0}
      n == IF ow \/ blocked = {} THEN Len(s) ELSE (CHOOSE k \in blocked : \A j \in blocked : k <= j) - 1
  IN \E m \in (IF n = Len(s) THEN {n} ELSE {0, n}) :
       /\ fs' = [p \in Names |-> IF p \in Given(s) /\ At(s, p) <= m THEN 20 + At(s, p) ELSE fs[p]]
       /\ Log(Rec("multi", s, 0, ow))
Miscount(s, ow) == UNCHANGED fs /\ Log(Rec("miscount", s, 0, ow))

Next == \/ \E p \in Names, c \in Contents, ow \in BOOLEAN : Write(p, c, ow) \/ Invalid(p, c, ow)
        \/ \E p \in Names, c \in {0, 1} : External(p, c)
        \/ \E s \in Seqs, ow \in BOOLEAN : Distinct(s) /\ (Multi(s, ow) \/ Miscount(s, ow))
Bounded == Len(hist) <= MaxLen
PrintHist == Len(hist) < MaxLen \/ PrintT(<<"HIST", ToJson(hist)>>)

TypeOK == \A p \in Names : fs[p] \in 0..30
Touched(r) == IF r.act \in {"multi", "miscount"} THEN Given(r.p) ELSE {r.p}
(* an existing file changes only when its writer was told to overwrite       *)
NeverLost == [][last'.act # "external" => \A p \in Names : (fs[p] # 0 /\ fs'[p] # fs[p]) => last'.ow]_vars
OnlyGiven == [][\A p \in Names : fs'[p] # fs[p] => p \in Touched(last')]_vars
RejectedIsNoOp == [][last'.act \in {"invalid", "miscount"} => fs' = fs]_vars
Replaced == [][(last'.act = "write" /\ last'.ow) => fs'[last'.p] = last'.c]_vars
=============================================================================
