----------------------------- MODULE DatasetMC -----------------------------
(***************************************************************************)
(* Building and rescaling datasets, in the small.  Lattices are integers   *)
(* (ticks), two of them agree when they are at most Tol apart; species are *)
(* labels.  A dataset holds its samples and the result of scaling, kept    *)
(* symbolically as pairs (sample, scaling).  Files are read one by one, as *)
(* the library does, so that a rejected file leaves nothing behind.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Lattices, Species, Tol, MaxIn, MaxSets, MaxScale, MaxLen
VARIABLES todo, got, ref, sets, hist
vars == <<todo, got, ref, sets, hist>>
View == <<todo, got, ref, sets, Len(hist)>>
Abs(x) == IF x < 0 THEN 0 - x ELSE x
Inputs == [L : Lattices, sp : Species]
Agree(a, b) == a.sp = b.sp /\ Abs(a.L - b.L) <= Tol
None == [L |-> -1, sp |-> "none"]
Log(r) == hist' = Append(hist, r)
Idle == todo = <<>> /\ got = <<>>

Init == todo = <<>> /\ got = <<>> /\ ref = None /\ sets = <<>> /\ hist = <<>>
(* the caller hands over a list of inputs                                     *)
Start(ins) == /\ Idle /\ Len(sets) < MaxSets
              /\ todo' = ins /\ got' = <<>> /\ ref' = None
              /\ UNCHANGED sets /\ Log([act |-> "build", ins |-> ins, d |-> 0, x |-> 0])
(* one input is read and compared with the first one                          *)
Read == /\ todo # <<>>
        /\ IF got = <<>> \/ Agree(ref, Head(todo))
           THEN /\ got' = Append(got, Head(todo)) /\ todo' = Tail(todo)
                /\ ref' = IF got = <<>> THEN Head(todo) ELSE ref
           ELSE todo' = <<>> /\ got' = <<>> /\ ref' = None
        /\ UNCHANGED <<sets, hist>>
Finish == /\ todo = <<>> /\ got # <<>>
          /\ sets' = Append(sets, [ins |-> got, ref |-> ref, scale |-> 0,
                                   scaled |-> [i \in 1..Len(got) |-> <<i, 0>>]])
          /\ got' = <<>> /\ ref' = None /\ UNCHANGED <<todo, hist>>
(* scale number x: own statistics (0), given ones, or those of another set    *)
Scale(d, x) == /\ Idle
               /\ sets' = [sets EXCEPT ![d].scale = x, ![d].scaled = [i \in 1..Len(sets[d].ins) |-> <<i, x>>]]
               /\ UNCHANGED <<todo, got, ref>> /\ Log([act |-> "scale", ins |-> <<>>, d |-> d, x |-> x])
BadScale(d) == Idle /\ UNCHANGED <<todo, got, ref, sets>> /\ Log([act |-> "scale-bad", ins |-> <<>>, d |-> d, x |-> 0])
Item(d, i) == Idle /\ UNCHANGED <<todo, got, ref, sets>> /\ Log([act |-> "item", ins |-> <<>>, d |-> d, x |-> i])
Lists == UNION {[1..n -> Inputs] : n \in 1..MaxIn}
Next == \/ \E ins \in Lists : Start(ins)
        \/ Read \/ Finish
        \/ \E d \in 1..Len(sets) : \/ \E x \in 1..MaxScale : Scale(d, x)
                                   \/ BadScale(d)
                                   \/ \E i \in -1..1 : Item(d, i)
Bounded == Len(hist) <= MaxLen
PrintHist == Len(hist) < MaxLen \/ ~Idle \/ PrintT(<<"HIST", ToJson(hist)>>)

(* nothing that disagrees with the first input gets in, and the lattice and   *)
(* species reported are within tolerance of every sample's                    *)
Common == \A d \in 1..Len(sets) : /\ sets[d].ref = sets[d].ins[1]
                                  /\ \A i \in 1..Len(sets[d].ins) : Agree(sets[d].ref, sets[d].ins[i])
(* every compatible list is accepted in full, and in order                    *)
Ordered == \A d \in 1..Len(sets) : \E h \in 1..Len(hist) : hist[h].act = "build" /\ hist[h].ins = sets[d].ins
(* the scaling in force is that of the last call                              *)
LastScaling == \A d \in 1..Len(sets) : \A i \in 1..Len(sets[d].scaled) : sets[d].scaled[i] = <<i, sets[d].scale>>
=============================================================================
