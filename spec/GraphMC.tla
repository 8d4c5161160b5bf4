------------------------------- MODULE GraphMC -------------------------------
(***************************************************************************)
(* Message passing over every graph of N atoms, in the small.  node[i] and *)
(* edge[i, j] hold the atoms whose positions may have influenced that      *)
(* state so far: an edge starts with the distance of its two atoms, each   *)
(* round lets a node hear its edges and an edge (i, j) hear both nodes and *)
(* the edges (k, j) that meet it.  The prediction is a mean of one         *)
(* contribution per edge, so it splits into parts along components.        *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS N, Rounds
Atoms == 1..N
VARIABLES E, node, edge, round
vars == <<E, node, edge, round>>
Pairs == {x \in Atoms \X Atoms : x[1] < x[2]}
Both(S) == S \cup {<<x[2], x[1]>> : x \in S}
Init == /\ E \in {Both(S) : S \in SUBSET Pairs}
        /\ node = [i \in Atoms |-> {}]
        /\ edge = [x \in E |-> {x[1], x[2]}]
        /\ round = 0
Hear(i) == node[i] \cup UNION {edge[x] : x \in {y \in E : y[1] = i}}
Next == /\ round < Rounds
        /\ node' = [i \in Atoms |-> Hear(i)]
        /\ edge' = [x \in E |-> edge[x] \cup node'[x[1]] \cup node'[x[2]]
                      \cup UNION {edge[y] \cup node'[y[1]] : y \in {z \in E : z[2] = x[2]}}]
        /\ round' = round + 1 /\ UNCHANGED E
RECURSIVE Reach(_)
Reach(A) == LET B == A \cup {x[2] : x \in {y \in E : y[1] \in A}} IN IF B = A THEN A ELSE Reach(B)
(* a contribution depends on atoms of its own component only: what two       *)
(* components do is added, and atoms without links do nothing                *)
Local == \A x \in E : edge[x] \subseteq Reach({x[1]})
Additive == \A x \in E : \A i, j \in edge[x] : j \in Reach({i})
Isolated == \A i \in Atoms : (\A x \in E : x[1] # i) => \A x \in E : i \notin edge[x]
(* and every linked atom is heard                                            *)
Heard == \A i \in Atoms : (\E x \in E : x[1] = i) => \E x \in E : i \in edge[x]
(* enough rounds let every edge of a component hear all of it                *)
Everything == round >= N - 1 => \A x \in E : edge[x] = Reach({x[1]})
=============================================================================
