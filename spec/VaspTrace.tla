----------------------------- MODULE VaspTrace -----------------------------
(***************************************************************************)
(* Judges recorded file operations: writing and reading POSCAR/XDATCAR     *)
(* (C12), the state of the directory around every write (C13), displaced   *)
(* structures (C09), damaged files (C14) and the agreement of formats and  *)
(* front ends on one calculation (C15).  State: fs, the directory content  *)
(* as a function from path to content digest; calc; outputs seen.          *)
(***************************************************************************)
EXTENDS Poscar, Vasp, Pbc, TraceIn

SeqSet(s) == {s[i] : i \in 1..Len(s)}
Fs(e) == [p \in {e.fs[i][1] : i \in 1..Len(e.fs)} |->
            (CHOOSE x \in SeqSet(e.fs) : x[1] = p)[2]]

(* ---- the directory around a write ----------------------------------------- *)
Paths(e) == SeqSet(e.paths)
Exists(s, e) == Paths(e) \cap DOMAIN s.fs
Others(s, e) ==       \* files not given: unchanged, and nothing new
  LET f == Fs(e) IN
  If(\E p \in (DOMAIN s.fs) \ Paths(e) : p \notin DOMAIN f \/ f[p] # s.fs[p], "C13.other-file-touched")
  \cup If(~(DOMAIN f \subseteq (DOMAIN s.fs \cup Paths(e))), "C13.other-file-created")
Untouched(s, e) == If(Fs(e) # s.fs, "C13.rejected-write-has-effect")
RefusedExisting(s, e) ==   \* some files may have been written before the refusal
  LET f == Fs(e) IN
  If(\E p \in Exists(s, e) : p \notin DOMAIN f \/ f[p] # s.fs[p], "C13.existing-file-changed")
  \cup If(Len(e.paths) = 1 /\ f # s.fs, "C13.existing-file-changed")

(* outcome of a write whose arguments are valid (or not) *)
WriteFailing(s, e, valid, own) ==
  Others(s, e) \cup
  (IF e.res = "ok" THEN
     If(Exists(s, e) # {} /\ ~e.overwrite, "C13.existing-file-not-refused")
     \cup If(\E p \in Paths(e) : p \notin DOMAIN Fs(e), own \o ".nothing-written")
   ELSE IF ~valid THEN Untouched(s, e)
   ELSE IF e.nodir THEN Untouched(s, e)
   ELSE IF Exists(s, e) # {} /\ ~e.overwrite THEN
     RefusedExisting(s, e) \cup If(e.res # "FileExistsError", "C13.FileExistsError")
   ELSE {own \o ".valid-write-refused"})

Content(e, k) == e.lines[k]
(* the file means what was given and holds nothing else *)
PoscarIs(F, L, sp, P) == LET p == ParsePoscar(F) IN Means(p, L, sp, P)
PoscarWhole(F, sp) == Len(F) = 8 + Len(sp)
XdatcarIs(F, L, sp, T) == LET p == ParseXdatcar(F) IN Means(p, L, sp, T)

WriteStructure(s, e) ==
  WriteFailing(s, e, e.typed /\ e.fmtok /\ ValidStructure(e.L, e.sp, e.P), "C12")
  \cup (IF e.res # "ok" \/ ~e.typed THEN {}
        ELSE If(~PoscarIs(Content(e, 1), e.L, e.sp, e.P), "C12.written-structure")
             \cup If(e.overwrite /\ ~PoscarWhole(Content(e, 1), e.sp), "C13.not-completely-replaced")
             \cup If(~PoscarWhole(Content(e, 1), e.sp), "C12.written-structure-lines"))
WriteTrajectory(s, e) ==
  WriteFailing(s, e, e.typed /\ e.fmtok /\ ValidTrajectory(e.L, e.sp, e.P), "C12")
  \cup (IF e.res # "ok" \/ ~e.typed THEN {}
        ELSE If(~XdatcarIs(Content(e, 1), e.L, e.sp, e.P), "C12.written-trajectory")
             \cup If(e.overwrite /\ Len(Content(e, 1)) # 7 + Len(e.P) * (1 + Len(e.sp)), "C13.not-completely-replaced"))

(* ---- displaced structures --------------------------------------------------- *)
Norm(u) == RSqrt(RDot(u, u))
Along(e) == IF e.atom = 0 THEN e.u ELSE [a \in 1..Len(e.ref) |-> IF a = e.atom THEN e.u ELSE [i \in 1..3 |-> RInt(0)]]
DispFrac(e, amp) ==
  LET u == Along(e) IN Rows(RVScale(RDiv(amp, Norm(u)), u), RInv3(e.L))
Displaced(e, amp) == RVAdd(e.ref, DispFrac(e, amp))
DisplacedOk(e, P, amp) == IsWrappedPos(Displaced(e, amp), P)

DispFailing(e) ==
  IF e.res # "ok" THEN {"C09.displaced-positions-raises"}
  ELSE If(Len(e.out) # Len(e.amps), "C09.number-of-structures")
       \cup If(\E j \in 1..Len(e.out) : j <= Len(e.amps) /\ ~DisplacedOk(e, e.out[j], e.amps[j]), "C09.displaced-positions")
       \cup If(~e.refsame, "C09.reference-changed")
(* InCell is what the POSCAR writer requires; 1 + rounding never occurs. *)
WriteDisp(s, e) ==
  LET valid == Len(e.paths) = Len(e.amps) /\ e.fmtok /\ Grouped(e.sp) IN
  WriteFailing(s, e, valid, "C09")
  \cup If(Len(e.paths) # Len(e.amps) /\ (e.res = "ok" \/ Fs(e) # s.fs), "C09.count-mismatch-writes-nothing")
  \cup (IF e.res # "ok" \/ ~valid THEN {}
        ELSE If(\E k \in 1..Len(e.paths) :
                  LET p == ParsePoscar(Content(e, k)) IN
                  ~p.ok \/ p.sp # e.sp \/ ~RClose(p.L, e.L, RDec("1e-11")) \/ ~DisplacedOk(e, p.P, e.amps[k]),
                "C09.written-files"))
  \cup If(~e.refsame, "C09.reference-changed")

(* ---- reading back ----------------------------------------------------------- *)
ReadOk(e, p) ==
  CASE e.what \in {"structure", "ref"} -> e.sp = p.sp /\ RClose(e.L, p.L, RDec("1e-11")) /\ RClose(e.P, p.P, RDec("1e-11"))
    [] e.what = "positions" -> RClose(e.P, p.P, RDec("1e-11"))
    [] e.what = "ts" -> RClose(e.P, p.P, RDec("1e-11"))
    [] e.what = "traj" -> IsWrappedPos(p.P, e.P) /\ RClose(e.timestep, e.given, RInt(0))
ReadFailing(e) ==
  LET p == IF e.fmt = "poscar" THEN ParsePoscar(e.lines) ELSE ParseXdatcar(e.lines) IN
  IF ~p.ok THEN If(e.res = "ok", "C12.unreadable-file-read")
  ELSE IF e.res # "ok" THEN {"C12.valid-file-rejected"}
  ELSE If(~ReadOk(e, p), "C12.read-" \o e.what)

(* ---- damaged files ------------------------------------------------------------ *)
ProperPrefix(e) ==
  /\ e.traj /\ e.frames /\ e.clean       \* the file ends between configurations
  /\ Len(e.out.P) >= 1 /\ Len(e.out.P) < Len(e.full.P)
  /\ RSame(e.out.P, SubSeq(e.full.P, 1, Len(e.out.P)))
  /\ RSame(e.out.timestep, e.full.timestep)
DamagedFailing(e) ==
  IF e.res = "InvalidFileException" THEN {}
  ELSE IF e.res # "ok" THEN If(e.kind # "bytes", "C14.wrong-exception")
  ELSE If(~RSame(e.out, e.full) /\ ~ProperPrefix(e), "C14.partial-data-returned")
MissingFailing(e) == If(e.res # "FileNotFoundError", "C14.missing-file")

(* ---- agreement --------------------------------------------------------------- *)
Near(x, y, t) == RClose(x, y, RDec(t))
CalcOk(c, e) ==
  LET o == e.out IN
  CASE e.what = "positions" -> Near(o.P, c.P, "1e-9")
    [] e.what = "ref_structure" -> Near(o.P, c.P, "1e-9") /\ Near(o.L, c.L, "1e-9") /\ o.sp = c.sp
    [] e.what = "structure" -> Near(o.P, c.P, "1e-9") /\ Near(o.L, c.L, "1e-9") /\ o.sp = c.sp
    [] e.what = "structure_and_polarizability" ->
         Near(o.P, c.P, "1e-9") /\ Near(o.L, c.L, "1e-9") /\ o.sp = c.sp /\ Near(o.pol, c.pol, "1e-9")
    [] e.what = "positions_and_polarizability" -> Near(o.P, c.P, "1e-9") /\ Near(o.pol, c.pol, "1e-9")
    [] e.what = "trajectory" ->
         \* (an XDATCAR does not hold the timestep: the caller supplies it)
         LET T == Counted(c.steps, 1) IN
         /\ Len(o.P) = Len(T) /\ SameShape(o.P, T) /\ ModEq(T, o.P, RDec("1e-8")) /\ InUnit(o.P)
         /\ Near(o.timestep, c.timestep, "1e-12")
    [] e.what = "phonons" ->
         /\ Near(o.P, c.P, "1e-9")
         /\ Len(o.wn) = Len(c.modes) /\ Len(o.disp) = Len(c.modes)
         /\ \A k \in 1..Len(c.modes) :
              /\ Near(o.wn[k], c.modes[k].wn, "1e-5")
              \* masses differ between tables in the fourth digit
              /\ RClose(o.disp[k], ModeDisp(c, c.modes[k].vec), RMul(RDec("1e-3"), RAdd(RDec("1e-6"), RMaxAbs(ModeDisp(c, c.modes[k].vec)))))
(* finer agreement between the formats themselves *)
SameReading(a, b) ==
  \A f \in DOMAIN a : f \in DOMAIN b /\
    IF f = "sp" THEN a[f] = b[f]
    ELSE IF f = "P" THEN SameShape(a[f], b[f]) /\ ModEq(a[f], b[f], RDec("1e-8"))
    ELSE RClose(a[f], b[f], RMul(RDec("1e-7"), RAdd(RInt(1), RMaxAbs(a[f]))))
Key(e) == <<e.what, e.fmt>>
CalcFailing(s, e) ==
  IF e.fmt \notin e.supported
  THEN If(e.via = "generic" /\ e.res # "ValueError", "C15.unsupported-format")
  ELSE IF e.res # "ok" THEN {"C15.valid-file-rejected"}
  ELSE If(~CalcOk(s.calc, e), "C15." \o e.what)
       \cup If(\E k \in DOMAIN s.seen : k[1] = e.what /\ k[2] # e.fmt /\ ~SameReading(s.seen[k], e.out), "C15.formats-disagree")
       \cup If(Key(e) \in DOMAIN s.seen /\ ~RSame(s.seen[Key(e)], e.out), "C15.generic-differs-from-specific")

Sup(e) == [e EXCEPT !.supported = Supports[e.what]]

Failing(s, e) ==
  CASE e.op = "fs" -> {}
    [] e.op = "write" -> IF e.kind = "structure" THEN WriteStructure(s, e) ELSE WriteTrajectory(s, e)
    [] e.op = "writedisp" -> WriteDisp(s, e)
    [] e.op = "disp" -> DispFailing(e)
    [] e.op = "read" -> ReadFailing(e)
    [] e.op = "damaged" -> DamagedFailing(e)
    [] e.op = "missing" -> MissingFailing(e)
    [] e.op = "calc" -> CalcFailing(s, IF e.via = "generic" THEN Sup(e) ELSE [e EXCEPT !.supported = {e.fmt}])
    [] e.op = "args" -> If(~e.same, s.focus \o ".arguments-modified")
    [] OTHER -> {s.focus \o ".unknown-event"}

Put(f, k, v) == [x \in (DOMAIN f \cup {k}) |-> IF x = k THEN v ELSE f[x]]
After(s, e) ==
  CASE e.op \in {"fs", "write", "writedisp"} -> [s EXCEPT !.fs = Fs(e)]
    [] e.op = "calc" /\ e.res = "ok" /\ e.out # <<>> -> [s EXCEPT !.seen = Put(@, Key(e), e.out)]
    [] OTHER -> s
InitState(t) == [focus |-> t.focus, fs |-> [p \in {} |-> ""], calc |-> IF Has(t, "calc") THEN t.calc ELSE <<>>,
                 seen |-> [k \in {} |-> <<>>]]

TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
