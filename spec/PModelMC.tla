------------------------------ MODULE PModelMC ------------------------------
(***************************************************************************)
(* The model state machine of PModel, explored by TLC for a concrete       *)
(* crystal and a catalogue of candidate additions (file IOEnv.MC).  Which  *)
(* maximal orthogonal set of images an addition brings in is left open     *)
(* (nondeterministic), as in the property.                                 *)
(*                                                                         *)
(* Exhaustive runs check the invariants below on the specification itself; *)
(* simulation runs print the histories that the harness replays into the   *)
(* real classes (and PModelTrace then judges what they did).               *)
(***************************************************************************)
EXTENDS PModel, TLC, Json, IOUtils, SequencesExt

J == JsonDeserialize(IOEnv.MC)
Cry == [c |-> J.crystal, g |-> Group(J.crystal, J.K)]
Grp == Cry.g
NC == Len(J.cands)
Cand == [c \in 1..NC |-> J.cands[c]]
ParentU == [c \in 1..NC |-> Unit(Cand[c].disp)]
IMs == [c \in 1..NC |-> Imgs(Cry, ParentU[c])]

RECURSIVE Reduce(_, _)
Reduce(S, acc) == IF S = {} THEN acc
  ELSE LET x == CHOOSE x \in S : TRUE
       IN Reduce(S \ {x}, IF \E y \in acc : Coll(x, y) THEN acc ELSE acc \cup {x})
(* One representative per line among the images; the parent represents itself. *)
LinesOf == [c \in 1..NC |-> Reduce({x.w : x \in IMs[c]}, {ParentU[c]})]
ImageSets == [c \in 1..NC |->
  {B \in SUBSET LinesOf[c] :
     /\ ParentU[c] \in B
     /\ \A x, y \in B : x = y \/ Orth(x, y)
     /\ \A z \in LinesOf[c] : \E x \in B : ~Orth(x, z)}]

VARIABLES models, hist
vars == <<models, hist>>
View == models

Act(name, m, x) == [act |-> name, m |-> m, x |-> x]

Init == models = <<NewModel(J.kind, FALSE, J.ref), NewModel(J.kind, TRUE, J.ref)>> /\ hist = <<>>

AddTo(m, c, B) ==
  LET S == SetToSeq(B)
      k == Cand[c]
      pols == IF m.dummy THEN [j \in 1..Len(k.amps) |-> Zero33] ELSE k.pols
  IN IF MustReject(IMs[c], m, ParentU[c], k.amps, pols, k.k, k.incl) \/ ~OrthExisting(m, S)
     THEN m
     ELSE Extend(IMs[c], m, S, k.amps, pols, k.k, k.incl)

(* The real model and its dummy always receive the same addition.           *)
Add(i, c) ==
  /\ Len(models[i].dofs) < J.maxdofs
  /\ \E B \in ImageSets[c] :
       models' = [j \in 1..Len(models) |->
                    IF j \in {2*i-1, 2*i} THEN AddTo(models[j], c, B) ELSE models[j]]
  /\ hist' = Append(hist, Act("add", i, <<c>>))

Idx(m) == 1..Len(m.dofs)
MaskSets(m) == {{}, Idx(m)} \cup {{i} : i \in Idx(m)} \cup {Idx(m) \ {i} : i \in Idx(m)}
Copy(i) ==
  /\ Len(models) < 2 * J.maxmodels
  /\ \E S \in MaskSets(models[2*i-1]) :
       /\ models' = models \o <<MaskOnly(models[2*i-1], S), MaskOnly(models[2*i], S)>>
       /\ hist' = Append(hist, Act("masked", i, SetToSeq(S)))
SetMask(i) ==
  \E S \in MaskSets(models[2*i-1]) :
       /\ models' = [models EXCEPT ![2*i-1] = MaskOnly(@, S), ![2*i] = MaskOnly(@, S)]
       /\ hist' = Append(hist, Act("setmask", i, SetToSeq(S)))
Unmask(i) ==
  /\ models' = [models EXCEPT ![2*i-1] = MaskOnly(@, {}), ![2*i] = MaskOnly(@, {})]
  /\ hist' = Append(hist, Act("unmask", i, <<>>))

Pairs == 1..(Len(models) \div 2)
Next == \E i \in Pairs : (\E c \in 1..NC : Add(i, c)) \/ Copy(i) \/ SetMask(i) \/ Unmask(i)

Bounded == Len(hist) <= J.maxlen
PrintHist == Len(hist) < J.maxlen \/ PrintT(<<"HIST", ToJson(hist)>>)

(* ---- properties checked on the specification ----------------------------- *)
Reals == {models[2*i-1] : i \in Pairs}
T6(s) == RMul(RDec("1e-8"), s)

(* C03: the basis is orthonormal after every history. *)
Orthonormal == \A m \in Reals : \A i, j \in Idx(m) :
  IF i = j THEN RClose(Norm(m.dofs[i].v), ROne, RDec("1e-9")) ELSE Orth(m.dofs[i].v, m.dofs[j].v)
(* C03: more points than the order, distinct amplitudes. *)
PointsFine == \A m \in Reals : \A i \in Idx(m) :
  Len(m.dofs[i].pts) > m.dofs[i].k /\ ~XDup(m.dofs[i].pts)

Only(m, i) == MaskOnly(m, Idx(m) \ {i})
(* C01: each DOF passes through its data, and displacing along it involves   *)
(* no other DOF (whose interpolants stay at their value at amplitude 0).     *)
Interpolates == \A m \in Reals : \A i \in Idx(m) : \A p \in SeqSet(m.dofs[i].pts) :
  LET u == RVScale(p[1], m.dofs[i].v)
      r == PredictAt(MaskOnly(m, {}), u)
      RECURSIVE Rest(_)
      Rest(j) == IF j = 0 THEN Zero33 ELSE IF j = i THEN Rest(j-1)
                 ELSE RVAdd(Rest(j-1), InterpAt(m.dofs[j], RZero).y)
  IN r.ok /\ (\A j \in Idx(m) : InterpAt(m.dofs[j], RZero).ok)
       => RClose(r.y, RVAdd(RVAdd(m.ref, p[2]), Rest(Len(m.dofs))), T6(r.scale))
(* C01: displacements orthogonal to every DOF change nothing. *)
OrthogonalInert == \A m \in Reals : \A u \in SeqSet(J.probes) :
  LET RECURSIVE Strip(_, _)
      Strip(w, i) == IF i = 0 THEN w ELSE
                     Strip(RVSub(w, RVScale(RDot(w, m.dofs[i].v), m.dofs[i].v)), i-1)
      o == Strip(u, Len(m.dofs))
      r == PredictAt(m, o)
      z == PredictAt(m, RVScale(RZero, u))
  IN r.ok /\ z.ok => RClose(r.y, z.y, T6(r.scale))
(* C02: the response to an image of a DOF is the rotated response.  Responses *)
(* are relative to the undisplaced prediction: with f(0) # 0 (ARTs) the latter  *)
(* is a fixed offset.                                                           *)
(* It depends on the DOFs only, which only an addition changes.                 *)
JustAdded == hist # <<>> /\ hist[Len(hist)].act = "add"
Equivariant == JustAdded =>
  LET m == models[2*hist[Len(hist)].m - 1]
      full == MaskOnly(m, {})
      z == PredictAt(full, RVScale(RZero, J.probes[1]))
  IN z.ok => \A i \in Idx(m) :
       LET u == RVScale(RDec("-0.19"), m.dofs[i].v)
           r == PredictAt(full, u)
           Dr == RVAdd(RVSub(r.y, z.y), InterpAt(m.dofs[i], RZero).y)
       IN r.ok => \A g \in Grp :
            LET w == ImageOf(g, u)
                hit == {j \in Idx(m) : Coll(Unit(w), m.dofs[j].v)}
            IN hit # {} =>
                 LET j == CHOOSE j \in hit : TRUE
                     q == PredictAt(full, w)
                     Dq == RVAdd(RVSub(q.y, z.y), InterpAt(m.dofs[j], RZero).y)
                 IN q.ok => RClose(Dq, TensorImage(g, Dr), T6(r.scale))
(* C04: masked contributions split the prediction. *)
MaskSplits == \A m \in Reals : \A u \in SeqSet(J.probes) :
  LET full == PredictAt(MaskOnly(m, {}), u)
      act == {i \in Idx(m) : m.mask[i]}
      a == PredictAt(m, u)
      b == PredictAt(MaskOnly(m, Idx(m) \ act), u)
  IN full.ok => RClose(RVAdd(a.y, b.y), RVAdd(full.y, m.ref), T6(full.scale))
(* C05: the dummy mirrors structure and mask. *)
DummyMirrors == \A i \in Pairs :
  LET m == models[2*i-1]
      d == models[2*i] IN
  /\ d.dummy /\ ~m.dummy /\ m.mask = d.mask
  /\ [j \in Idx(m) |-> m.dofs[j].v] = [j \in Idx(d) |-> d.dofs[j].v]
(* C06: positions modulo lattice vectors. *)
Periodic == \A m \in Reals : \A u \in SeqSet(J.probes) :
  LET p == RVAdd(RefPos(Cry.c), RMatMul(u, RInv3(Cry.c.L)))
      q == [i \in Atoms(Cry.c) |-> [r \in Tri |-> RAdd(p[i][r], RInt(((i*r) % 3) - 1))]]
      a == PredictAt(m, CartDisp(Cry.c, p))
      b == PredictAt(m, CartDisp(Cry.c, q))
  IN a.ok => RClose(a.y, b.y, T6(a.scale))
(* C07: bookkeeping of atomic Raman tensors. *)
ArtBooks == J.kind = "art" => \A m \in Reals :
  /\ \A i \in Idx(m) : SingleAtom(m.dofs[i].v)
  /\ \A O \in Orbits(Cry.c, Grp) : \A a, b \in O :
       /\ Cardinality(DofsMoving(m, {a})) = Cardinality(DofsMoving(m, {b}))
       /\ Cardinality(DofsMoving(m, {a})) <= 3
  /\ \A a, b \in Atoms(Cry.c) : a # b => DofsMoving(m, {a}) \cap DofsMoving(m, {b}) = {}
(* C11: the operations form a group acting on the atoms; orbits partition. *)
Compose(g, h) == [Q |-> RMatMul(g.Q, h.Q), q |-> [j \in Atoms(Cry.c) |-> g.q[h.q[j]]]]
GroupLaws ==
  /\ \E g \in Grp : g.q = [j \in Atoms(Cry.c) |-> j]
  /\ \A g, h \in Grp : \E x \in Grp : x.q = Compose(g, h).q /\ RClose(x.Q, Compose(g, h).Q, RDec("1e-9"))
  /\ \A g \in Grp : RClose(RMatMul(g.Q, RTransp(g.Q)), [i \in Tri |-> [j \in Tri |-> RInt(IF i = j THEN 1 ELSE 0)]], RDec("1e-9"))
  /\ UNION Orbits(Cry.c, Grp) = Atoms(Cry.c)
  /\ \A A, B \in Orbits(Cry.c, Grp) : A = B \/ A \cap B = {}
  /\ \A O \in Orbits(Cry.c, Grp) : \A a, b \in O : Cry.c.sp[a] = Cry.c.sp[b]
ASSUME GroupLaws
(* Action property C04: nothing changes but the model acted on. *)
Independent ==
  \A j \in 1..Len(models) :
     (hist' # hist /\ j \notin {2*hist'[Len(hist')].m - 1, 2*hist'[Len(hist')].m})
       => models'[j] = models[j]
IndependentP == [][Independent]_vars
=============================================================================
