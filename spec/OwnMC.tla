-------------------------------- MODULE OwnMC --------------------------------
(***************************************************************************)
(* Ownership of mutable storage.  heap maps storage cells to values; obj   *)
(* maps every library object to its cell; hand is the set of cells the     *)
(* caller holds because a property or query returned them.  Reading copies *)
(* into a fresh cell; the caller may write to any cell it holds; deriving  *)
(* an object copies (or shares storage only among library objects that     *)
(* never write it); documented mutators write the object's own cell.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxLen, MaxObj, MaxCells, Kinds
VARIABLES heap, obj, hand, truth, hist
vars == <<heap, obj, hand, truth, hist>>
View == <<heap, obj, hand, truth, Len(hist)>>
(* which kinds can be derived from which, and which have mutators            *)
From(k) == CASE k = "ref" -> {"interp", "art"} [] k = "interp" -> {"masked"} [] k = "art" -> {"masked"}
             [] k = "masked" -> {"masked"} [] k = "phonons" -> {"pspec"} [] k = "traj" -> {"mspec"} [] OTHER -> {}
Mutable == {"interp", "art", "masked", "dataset"}
Roots == {"ref", "phonons", "traj", "dataset", "pspec", "mspec"}
Rec(act, o, k, x) == [act |-> act, o |-> o, k |-> k, x |-> x]
Cells == DOMAIN heap
Fresh == Cardinality(Cells) + 1
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Log(r) == hist' = Append(hist, r)

Init == /\ heap = [x \in {} |-> 0] /\ obj = <<>> /\ hand = {} /\ truth = <<>> /\ hist = <<>>
Make(k) == /\ Len(obj) < MaxObj
           /\ heap' = Put(heap, Fresh, 100 + Len(obj))
           /\ obj' = Append(obj, [kind |-> k, cell |-> Fresh])
           /\ truth' = Append(truth, 100 + Len(obj))
           /\ UNCHANGED hand /\ Log(Rec("make", Len(obj) + 1, k, 0))
Derive(o, k) == /\ Len(obj) < MaxObj /\ k \in From(obj[o].kind)
                /\ heap' = Put(heap, Fresh, heap[obj[o].cell])
                /\ obj' = Append(obj, [kind |-> k, cell |-> Fresh])
                /\ truth' = Append(truth, truth[o])
                /\ UNCHANGED hand /\ Log(Rec("derive", o, k, Len(obj) + 1))
Read(o, x) == /\ Cardinality(Cells) < MaxCells
              /\ heap' = Put(heap, Fresh, heap[obj[o].cell])
              /\ hand' = hand \cup {Fresh}
              /\ UNCHANGED <<obj, truth>> /\ Log(Rec("read", o, "", x))
(* the caller overwrites the most recently returned storage                  *)
Latest == CHOOSE h \in hand : \A g \in hand : g <= h
Vandalise == /\ hand # {}
             /\ heap' = [heap EXCEPT ![Latest] = -1]
             /\ UNCHANGED <<obj, hand, truth>> /\ Log(Rec("vandalise", 0, "", 0))
Use(o, x) == UNCHANGED <<heap, obj, hand, truth>> /\ Log(Rec("use", o, "", x))
Mutate(o, x) == /\ obj[o].kind \in Mutable
                /\ heap' = [heap EXCEPT ![obj[o].cell] = @ + 1000]
                /\ truth' = [truth EXCEPT ![o] = @ + 1000]
                /\ UNCHANGED <<obj, hand>> /\ Log(Rec("mutate", o, "", x))
Next == \/ \E k \in Roots \cap Kinds : Make(k)
        \/ \E o \in 1..Len(obj) : \/ \E k \in Kinds : Derive(o, k)
                                  \/ \E x \in 1..2 : Read(o, x) \/ Use(o, x) \/ Mutate(o, x)
        \/ Vandalise
Bounded == Len(hist) <= MaxLen
PrintHist == Len(hist) < MaxLen \/ PrintT(<<"HIST", ToJson(hist)>>)

(* nothing the caller holds is storage of an object, objects do not share    *)
Separation == /\ \A o \in 1..Len(obj) : obj[o].cell \notin hand
              /\ \A o, p \in 1..Len(obj) : o # p => obj[o].cell # obj[p].cell
(* hence every object reports what its own history made it                   *)
Reports == \A o \in 1..Len(obj) : heap[obj[o].cell] = truth[o]
=============================================================================
