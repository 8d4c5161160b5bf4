---------------------------- MODULE PModelTrace ----------------------------
(***************************************************************************)
(* Checks recorded histories of real models against PModel.  Failing(st,e) *)
(* is the set of clauses ("Cxx.name") that event e violates in state st.   *)
(***************************************************************************)
EXTENDS PModel, TLC, Json, IOUtils

Traces == JsonDeserialize(IOEnv.TRACES)
VARIABLES tid, pos, st

Has(e, f) == f \in DOMAIN e
Tag(P, name) == {p \o "." \o name : p \in P}
N(s) == Len(s.cry.c.pos)
Tol(s) == RMul(RDec("1e-9"), s)

IsField(s, v) == RClose(v, v, RZero) /\ Len(v) = N(s) /\ \A a \in 1..N(s) : Len(v[a]) = 3
IsFields(s, B) == \A i \in 1..Len(B) : IsField(s, B[i])
SameBasis(m, B) == Len(B) = Len(m.dofs) /\ \A i \in 1..Len(B) : RClose(B[i], m.dofs[i].v, RDec("1e-7"))

(* ---- what is asked for by an addition ------------------------------------ *)
(* kind: "user" | "malformed" | "invalid" | "req" with u (unit) and amps.     *)
BadReq(k) == [kind |-> k]
FromPositions(s, e) ==
  IF \E j \in 1..Len(e.positions) : Len(e.positions[j]) # N(s) THEN BadReq("invalid")
  ELSE LET D == [j \in 1..Len(e.positions) |-> CartDisp(s.cry.c, e.positions[j])]
       IN IF \E j \in 1..Len(D) : RLt(Norm(D[j]), RDec("1e-9")) THEN BadReq("invalid")
          ELSE LET u == Unit(D[1]) IN
            IF \E j \in 1..Len(D) : RLt(AbsCos(u, Unit(D[j])), RDec("0.9997")) THEN BadReq("invalid")
            ELSE IF \E j \in 1..Len(D) : ~Coll(u, Unit(D[j])) THEN BadReq("grey")
            ELSE IF e.art /\ Cardinality({a \in 1..N(s) : RLt(RDec("1e-5"), RMaxAbs(D[1][a]))}) # 1
            THEN BadReq("invalid")
            ELSE [kind |-> "req", u |-> u, amps |-> [j \in 1..Len(D) |-> RDot(u, D[j])]]

Request(s, e) ==
  LET m == s.models[e.m] IN
  IF m.kind = "art" /\ ~e.art THEN BadReq("user")
  ELSE IF e.bad # "" THEN BadReq("malformed")
  ELSE IF e.via \in {"files", "pymatgen"} THEN
       IF e.via = "pymatgen" /\ ~m.dummy /\ Len(e.pols) # Len(e.positions) THEN BadReq("malformed")
       ELSE FromPositions(s, e)
  ELSE IF Len(e.disp) # N(s) \/ (~m.dummy /\ Len(e.pols) # Len(e.amps)) THEN BadReq("malformed")
  ELSE IF e.art /\ Len(e.amps) \notin {1, 2} THEN BadReq("malformed")
  ELSE IF RMaxAbs(e.disp) = RZero THEN BadReq("invalid")
  ELSE [kind |-> "req", u |-> Unit(e.disp), amps |-> e.amps]

(* Dummy models ignore whatever polarizabilities they are given.              *)
PolsFor(m, e, amps) == IF m.dummy THEN [j \in 1..Len(amps) |-> Zero33] ELSE e.pols

(* A verdict: "accept", "reject", "either" or "grey" for an admissible request *)
Verdict(s, e, q, IM) ==
  LET m == s.models[e.m]
      pols == PolsFor(m, e, q.amps)
      P == PtsOf(IM, m, q.u, q.amps, pols, e.incl)
      art2 == e.art /\ e.via \in {"files", "pymatgen"} /\ Len(P) # 2
  IN IF e.k < 1 THEN "value"
     ELSE IF MustReject(IM, m, q.u, q.amps, pols, e.k, e.incl) \/ art2
          THEN IF XGrey(P) \/ GreyAdd(IM, m, q.u) THEN "grey" ELSE "reject"
     ELSE IF XGrey(P) \/ GreyAdd(IM, m, q.u) THEN "grey"
     ELSE IF MustAccept(IM, m, q.u, q.amps, pols, e.k, e.incl) THEN "accept" ELSE "either"

Owners(s, e) ==
  {"C03"} \cup (IF e.via \in {"files", "pymatgen"} THEN {"C08"} ELSE {})
          \cup (IF s.models[e.m].dummy THEN {"C05"} ELSE {})
          \cup (IF e.art THEN {"C07"} ELSE {})

Unchanged(s, e) ==
  (IF ~SameBasis(s.models[e.m], e.basis) THEN Tag(Owners(s, e), "rejected-basis-unchanged") ELSE {})
  \cup (IF e.mask # s.models[e.m].mask THEN Tag(Owners(s, e), "rejected-mask-unchanged") ELSE {})

Accepted(s, e, q, IM) ==
  LET m == s.models[e.m]
      n == Len(m.dofs)
  IN IF Len(e.basis) < n \/ ~IsFields(s, e.basis) THEN Tag(Owners(s, e), "basis-shape")
     ELSE LET old == SubSeq(e.basis, 1, n)
              B == SubSeq(e.basis, n + 1, Len(e.basis))
              unit == \A i \in 1..Len(B) : RClose(Norm(B[i]), ROne, RDec("1e-7"))
     IN (IF ~SameBasis(m, old) THEN Tag(Owners(s, e), "existing-dofs-unchanged") ELSE {})
        \cup (IF ~unit THEN Tag(Owners(s, e) \cup {"C01"}, "basis-normalized") ELSE
              (IF ~PairOrth(B) \/ ~OrthExisting(m, B) THEN Tag({"C02"} \cup Owners(s, e), "basis-orthogonal") ELSE {})
              \cup (IF ~HasParent(q.u, B) THEN Tag({"C02"} \cup Owners(s, e), "contains-requested-dof") ELSE {})
              \cup (IF ~AreImages(IM, B) THEN Tag({"C02"} \cup (Owners(s, e) \ {"C03"}), "only-symmetry-images") ELSE {})
              \cup (IF ~Maximal(IM, B) THEN Tag({"C02"} \cup (Owners(s, e) \ {"C03"}), "all-symmetry-images") ELSE {})
              \cup (IF \E x \in IM : (\A i \in 1..Len(B) : Orth(x.w, B[i])) /\ \E v \in Basis(m) : ~Orth(x.w, v)
                    THEN Tag({"C02", "C03"}, "image-in-the-way-ignored") ELSE {})
              \cup (IF m.kind = "art" /\ \E i \in 1..Len(B) : ~SingleAtom(B[i])
                    THEN {"C07.single-atom"} ELSE {}))
        \cup (IF Len(e.mask) # Len(e.basis) \/ SubSeq(e.mask, 1, n) # m.mask
                 \/ \E i \in n+1..Len(e.mask) : e.mask[i]
              THEN Tag({"C04"} \cup Owners(s, e), "new-dofs-unmasked") ELSE {})

AddFailing(s, e) ==
  LET q == Request(s, e) IN
  CASE q.kind = "user" ->
         (IF e.res # "UserError" THEN {"C07.generic-add-raises-UserError"} ELSE {}) \cup Unchanged(s, e)
    [] q.kind = "malformed" ->
         (IF e.res \notin {"ValueError", "TypeError"} \cup (IF e.bad = "order" THEN {"InvalidDOFException"} ELSE {})
          THEN Tag(Owners(s, e), "malformed-arguments") ELSE {})
         \cup Unchanged(s, e)
    [] q.kind = "invalid" ->
         (IF e.res # "InvalidDOFException" THEN Tag(Owners(s, e), "invalid-rejected") ELSE {})
         \cup Unchanged(s, e)
    [] q.kind = "grey" -> {}
    [] q.kind = "req" ->
         LET IM == Imgs(s.cry, q.u)
             v == Verdict(s, e, q, IM)
         IN IF v = "value" THEN
              (IF e.res \notin {"ValueError", "TypeError", "InvalidDOFException"} THEN Tag(Owners(s, e), "bad-order") ELSE {})
              \cup Unchanged(s, e)
            ELSE IF e.res \notin {"ok", "InvalidDOFException"} THEN Tag(Owners(s, e), "unexpected-exception")
            ELSE IF v = "grey" THEN {}
            ELSE IF v = "reject" /\ e.res = "ok" THEN Tag(Owners(s, e), "invalid-rejected")
            ELSE IF v = "accept" /\ e.res # "ok" THEN Tag(Owners(s, e), "valid-accepted")
            ELSE IF e.res = "ok" THEN Accepted(s, e, q, IM)
            ELSE Unchanged(s, e)

AddAfter(s, e) ==
  LET q == Request(s, e) IN
  IF e.res # "ok" \/ q.kind # "req" THEN s
  ELSE LET m == s.models[e.m]
           IM == Imgs(s.cry, q.u)
       IN [s EXCEPT !.models[e.m] =
             Extend(IM, m, SubSeq(e.basis, Len(m.dofs) + 1, Len(e.basis)), q.amps,
                    PolsFor(m, e, q.amps), e.k, e.incl)]

(* ---- predictions --------------------------------------------------------- *)
SampleBad(s, m, p, out) ==
  LET r == PredictAt(m, CartDisp(s.cry.c, p))
  IN r.ok /\ ~RClose(out, r.y, Tol(r.scale))

PredictFailing(s, e) ==
  LET m == s.models[e.m] IN
  IF m.dummy THEN IF e.res # "UserError" THEN {"C05.never-predicts"} ELSE {}
  ELSE IF e.bad # "" THEN IF e.res \notin {"ValueError", "TypeError"} THEN {"C06.bad-input-rejected"} ELSE {}
  ELSE IF e.res # "ok" THEN Tag({s.focus}, "predict-raises")
  ELSE IF ~RClose(e.out, e.out, RZero) \/ Len(e.out) # Len(e.positions)
          \/ \E j \in 1..Len(e.out) : Len(e.out[j]) # 3 \/ \E r \in Tri : Len(e.out[j][r]) # 3
       THEN Tag({s.focus, "C06"}, "output-shape")
  ELSE IF \E j \in 1..Len(e.out) : SampleBad(s, m, e.positions[j], e.out[j])
       THEN Tag({s.focus}, "prediction") ELSE {}

(* ---- other events ---------------------------------------------------------- *)
ObserveBad(s, e, P) ==
  (IF ~SameBasis(s.models[e.m], e.basis) THEN Tag(P, "basis-of-other-model") ELSE {})
  \cup (IF e.mask # s.models[e.m].mask THEN Tag(P, "mask-of-other-model") ELSE {})

MaskedFailing(s, e) ==
  LET m == s.models[e.m]
      want == MaskOnly(m, SeqSet(e.idx)) IN
  IF e.res # "ok" THEN {"C04.masked-model-raises"}
  ELSE (IF ~SameBasis(m, e.basis) THEN Tag({"C04"} \cup (IF m.dummy THEN {"C05"} ELSE {}), "masked-copy-basis") ELSE {})
       \cup (IF e.mask # want.mask THEN Tag({"C04"} \cup (IF m.dummy THEN {"C05"} ELSE {}), "masked-copy-mask") ELSE {})
       \cup (IF e.kind # m.kind \/ e.dummy # m.dummy THEN {"C04.masked-copy-type"} ELSE {})

SetMaskFailing(s, e) ==
  LET m == s.models[e.m] IN
  IF Len(e.new) # Len(m.mask)
  THEN (IF e.res \notin {"ValueError", "TypeError"} THEN {"C04.wrong-length-mask-rejected"} ELSE {})
       \cup (IF e.mask # m.mask THEN {"C04.wrong-length-mask-no-effect"} ELSE {})
  ELSE IF e.res # "ok" \/ e.mask # e.new THEN {"C04.set-mask"} ELSE {}

DofIdxFailing(s, e) ==
  LET m == s.models[e.m]
      want == DofsMoving(m, SeqSet(e.atoms) \cup {a \in 1..N(s) : s.cry.c.sp[a] \in SeqSet(e.species)})
  IN IF e.res # "ok" THEN {"C07.dof-indexes-raises"}
     ELSE IF Len(e.out) # Cardinality(want) \/ SeqSet(e.out) # want
          THEN Tag({"C07"} \cup (IF m.dummy THEN {"C05"} ELSE {}), "dof-indexes") ELSE {}

SpecTupFailing(s, e) ==
  LET m == s.models[e.m]
      orbits == Orbits(s.cry.c, s.cry.g)
      P == {"C07"} \cup (IF m.dummy THEN {"C05"} ELSE {}) IN
  IF e.res # "ok" THEN {"C07.spec-tuples-raises"}
  ELSE (IF Len(e.out) # Cardinality(orbits)
           \/ {{x.atom} \cup SeqSet(x.equiv) : x \in SeqSet(e.out)} # orbits
           \/ \E x \in SeqSet(e.out) : Len(x.equiv) + 1 # Cardinality({x.atom} \cup SeqSet(x.equiv))
        THEN Tag(P, "nonequivalent-atoms") ELSE {})
       \cup (IF \E x \in SeqSet(e.out) :
                 LET ds == DofsMoving(m, {x.atom}) IN
                 Len(x.dirs) # Cardinality(ds)
                 \/ \E i \in ds : ~\E j \in 1..Len(x.dirs) : RClose(x.dirs[j], m.dofs[i].v[x.atom], RDec("1e-7"))
             THEN Tag(P, "specified-directions") ELSE {})
       \cup (IF \E O \in orbits : \E a, b \in O :
                 Cardinality(DofsMoving(m, {a})) # Cardinality(DofsMoving(m, {b}))
                 \/ Cardinality(DofsMoving(m, {a})) > 3
             THEN {"C07.directions-per-atom"} ELSE {})

EqAtomsFailing(s, e) ==
  LET orbits == Orbits(s.cry.c, s.cry.g)
      got == {{x.atom} \cup SeqSet(x.equiv) : x \in SeqSet(e.out)} IN
  IF e.res # "ok" THEN {"C11.equivalent-atoms-raises"}
  ELSE (IF got # orbits \/ Len(e.out) # Cardinality(orbits)
           \/ \E x \in SeqSet(e.out) : Len(x.equiv) + 1 # Cardinality({x.atom} \cup SeqSet(x.equiv))
        THEN {"C11.orbits"} ELSE {})
       \cup (IF e.num # Cardinality(orbits) THEN {"C11.num-nonequivalent"} ELSE {})

AtomIdxFailing(s, e) ==
  LET want == SelectSeq([i \in 1..N(s) |-> i], LAMBDA i : s.cry.c.sp[i] \in SeqSet(e.species))
  IN IF e.res # "ok" \/ e.out # want THEN {"C11.atom-indexes"} ELSE {}

(* get_equivalent_displacements: groups of fractional displacements.          *)
EqDispFailing(s, e) ==
  LET L == s.cry.c.L
      C(d) == RMatMul(d, L)
      u == Unit(C(e.disp))
      IM == Imgs(s.cry, u) IN
  IF e.res # "ok" THEN {"C11.equivalent-displacements-raises"}
  ELSE IF \E i \in 1..Len(e.out) : Len(e.out[i]) = 0 \/ ~IsFields(s, e.out[i])
  THEN {"C11.equivalent-displacements-shape"}
  ELSE LET Gr == [i \in 1..Len(e.out) |-> [j \in 1..Len(e.out[i]) |-> C(e.out[i][j])]]
           \* common magnitude of all images: that of the rescaled input
           h == Norm(Gr[1][1])
           U == [i \in 1..Len(Gr) |-> [j \in 1..Len(Gr[i]) |-> RVScale(RDiv(ROne, h), Gr[i][j])]]
           B == [i \in 1..Len(U) |-> U[i][1]]
           Near(x, y) == RClose(x, y, RDec("1e-6"))
       IN IF \E x \in IM : Grey(u, x.w) THEN {}
          ELSE
          (IF \E i \in 1..Len(U) : \E j \in 1..Len(U[i]) : ~\E x \in IM : Near(x.w, U[i][j])
           THEN {"C11.is-an-image"} ELSE {})
          \cup (IF \E i \in 1..Len(U) : \E j \in 1..Len(U[i]) : ~Coll(Unit(U[i][1]), Unit(U[i][j]))
                THEN {"C11.collinear-within-group"} ELSE {})
          \cup (IF \E i \in 1..Len(U) : \E j, k \in 1..Len(U[i]) : j # k /\ Near(U[i][j], U[i][k])
                THEN {"C11.distinct"} ELSE {})
          \cup (IF ~PairOrth([i \in 1..Len(B) |-> Unit(B[i])]) THEN {"C11.orthogonal-between-groups"} ELSE {})
          \cup (IF ~\E i \in 1..Len(U) : \E j \in 1..Len(U[i]) : Near(u, U[i][j]) THEN {"C11.includes-input"} ELSE {})
          \cup (IF ~Maximal(IM, [i \in 1..Len(B) |-> Unit(B[i])]) THEN {"C11.no-image-missing"} ELSE {})

Failing(s, e) ==
  IF s.dead THEN {}
  ELSE CASE e.op = "new" -> IF e.res # "ok" THEN Tag({s.focus}, "constructor") ELSE {}
    [] e.op = "add" -> AddFailing(s, e)
    [] e.op = "predict" -> PredictFailing(s, e)
    [] e.op = "observe" -> ObserveBad(s, e, {"C04", "C03"})
    [] e.op = "masked" -> MaskedFailing(s, e)
    [] e.op = "setmask" -> SetMaskFailing(s, e)
    [] e.op = "unmask" -> IF e.res # "ok" \/ e.mask # [i \in 1..Len(s.models[e.m].dofs) |-> FALSE]
                          THEN {"C04.unmask"} ELSE {}
    [] e.op = "dofidx" -> DofIdxFailing(s, e)
    [] e.op = "spectup" -> SpecTupFailing(s, e)
    [] e.op = "eqatoms" -> EqAtomsFailing(s, e)
    [] e.op = "atomidx" -> AtomIdxFailing(s, e)
    [] e.op = "eqdisp" -> EqDispFailing(s, e)
    [] e.op = "twin" ->
         IF e.res # e.res2 THEN {"C05.same-verdict"}
         ELSE IF ~RClose(e.basis, e.basis2, RDec("1e-9")) \/ e.mask # e.mask2 THEN {"C05.same-state"} ELSE {}
    [] e.op = "agree" ->
         IF \A j \in 2..Len(e.outs) : RClose(e.outs[1], e.outs[j], RMul(RDec("1e-9"), RAdd(ROne, RMaxAbs(e.outs[1]))))
         THEN {} ELSE {"C06.depends-on-batch-or-history"}
    [] e.op = "args" -> IF e.same THEN {} ELSE Tag({s.focus}, "arguments-modified")

After(s, e) ==
  IF s.dead THEN s
  ELSE IF e.op \in {"new", "add", "masked", "setmask", "unmask"} /\ Failing(s, e) # {}
  THEN [s EXCEPT !.dead = TRUE]
  ELSE CASE e.op = "new" -> [s EXCEPT !.models = Append(@, NewModel(e.kind, e.dummy, e.ref))]
    [] e.op = "add" -> AddAfter(s, e)
    [] e.op = "masked" -> [s EXCEPT !.models = Append(@, MaskOnly(s.models[e.m], SeqSet(e.idx)))]
    [] e.op = "setmask" -> IF e.res = "ok" THEN [s EXCEPT !.models[e.m].mask = e.new] ELSE s
    [] e.op = "unmask" -> [s EXCEPT !.models[e.m].mask = [i \in 1..Len(@) |-> FALSE]]
    [] OTHER -> s

InitState(t) ==
  [cry |-> [c |-> t.crystal, g |-> Group(t.crystal, t.K)], models |-> <<>>,
   focus |-> t.focus, dead |-> FALSE]

TraceInit == tid \in 1..Len(Traces) /\ pos = 0 /\ st = InitState(Traces[tid])
TraceNext ==
  /\ pos < Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[pos + 1]
         f == Failing(st, e)
     IN /\ \A c \in f : PrintT(<<"FAIL", tid, pos + 1, c>>)
        /\ st' = After(st, e)
  /\ pos' = pos + 1
  /\ (pos' = Len(Traces[tid].ev) => PrintT(<<"DONE", tid>>))
  /\ UNCHANGED tid
=============================================================================
