-------------------------------- MODULE GnnMC --------------------------------
(***************************************************************************)
(* Predictions of a graph network in batches, in the small.  The reference *)
(* graph has Nodes nodes and the directed edges Edges (a sequence of       *)
(* pairs); a batch of B samples is the disjoint union of B copies, edge k  *)
(* of copy c joining nodes shifted by c * Nodes.  The index arrays of the  *)
(* latest batch size are cached.  Long batches are cut into pieces of at   *)
(* most Piece samples.  Weights change only in training steps; training    *)
(* mode lets the samples of a batch influence each other.                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Nodes, Piece, Sizes, Samples, MaxLen
VARIABLES size, cache, training, weights, stats, memo, hist
vars == <<size, cache, training, weights, stats, memo, hist>>
View == <<size, cache, training, weights, stats, memo, Len(hist)>>
Edges == IF Nodes = 2 THEN <<<<0, 1>>, <<1, 0>>>> ELSE <<<<0, 1>>, <<1, 2>>, <<2, 0>>>>
Min(a, b) == IF a < b THEN a ELSE b
(* index arrays of B disjoint copies, built afresh                            *)
Fresh(B) == [k \in 1..(B * Len(Edges)) |->
               LET c == (k - 1) \div Len(Edges)
                   e == Edges[((k - 1) % Len(Edges)) + 1]
               IN <<e[1] + c * Nodes, e[2] + c * Nodes>>]
Log(r) == hist' = Append(hist, r)
Init == /\ size = 1 /\ cache = Fresh(1) /\ training = TRUE /\ weights = 0 /\ stats = 0
        /\ memo = {} /\ hist = <<>>
(* what one sample gives: a function of the sample, weights and statistics, of *)
(* the edges that belong to its copy                                          *)
Copy(ix, c) == [k \in 1..Len(Edges) |-> LET e == ix[c * Len(Edges) + k] IN <<e[1] - c * Nodes, e[2] - c * Nodes>>]
Output(ix, c, x) == <<Copy(ix, c), x, weights, stats>>
RECURSIVE Pieces(_)
Pieces(n) == IF n = 0 THEN <<>> ELSE <<Min(n, Piece)>> \o Pieces(n - Min(n, Piece))
Get(B) == IF B = size THEN cache ELSE Fresh(B)
(* n samples, all alike or two kinds alternating, in evaluation mode           *)
Kind(x, y, i) == IF i % 2 = 0 THEN x ELSE y
Predict(n, x, y) ==
  /\ LET ps == Pieces(n)
         outs == UNION {{<<Kind(x, y, i), Output(Get(ps[p]), i - 1, Kind(x, y, i))>> : i \in 1..ps[p]} : p \in 1..Len(ps)}
     IN /\ memo' = memo \cup outs
        /\ size' = IF n = 0 THEN size ELSE ps[Len(ps)]
        /\ cache' = IF n = 0 THEN cache ELSE Get(ps[Len(ps)])
  /\ training' = FALSE
  /\ UNCHANGED <<weights, stats>> /\ Log([act |-> "predict", n |-> n, x |-> x, y |-> y])
Switch == /\ training' = ~training /\ UNCHANGED <<size, cache, weights, stats, memo>>
          /\ Log([act |-> "switch", n |-> 0, x |-> 0, y |-> 0])
Train(n) == /\ n > 1 /\ training /\ weights' = weights + 1 /\ stats' = stats + 1 /\ memo' = {}
            /\ size' = n /\ cache' = Get(n) /\ UNCHANGED training
            /\ Log([act |-> "train", n |-> n, x |-> 0, y |-> 0])
Forward(n, x, y) == /\ n > 0 /\ ~training
                    /\ memo' = memo \cup {<<Kind(x, y, i), Output(Get(n), i - 1, Kind(x, y, i))>> : i \in 1..n}
                    /\ size' = n /\ cache' = Get(n) /\ UNCHANGED <<training, weights, stats>>
                    /\ Log([act |-> "forward", n |-> n, x |-> x, y |-> y])
Next == \/ \E n \in Sizes, x, y \in Samples : Predict(n, x, y) \/ Forward(n, x, y)
        \/ Switch
        \/ \E n \in Sizes : Train(n)
Bounded == Len(hist) <= MaxLen
PrintHist == Len(hist) < MaxLen \/ PrintT(<<"HIST", ToJson(hist)>>)

(* the cache is what would be built afresh; one result per sample              *)
CacheIsFresh == cache = Fresh(size)
OneResult == \A a, b \in memo : a[1] = b[1] => a = b
Intact == \A a \in memo : a[2][1] = Edges
=============================================================================
