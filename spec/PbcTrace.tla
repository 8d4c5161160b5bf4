------------------------------ MODULE PbcTrace ------------------------------
(* Judges recorded calls of the geometry functions with Pbc.                *)
EXTENDS Pbc, TraceIn

Ok(e) == e.res = "ok"
Bad(e, good, name) == IF ~Ok(e) THEN {"C10." \o name \o "-raises"} ELSE If(~good, "C10." \o name)
Plus(e) == IF RIsReal(e.d[1]) THEN RRowsAdd(e.p, e.d) ELSE RVAdd(e.p, e.d)

Failing(s, e) ==
  CASE e.op = "wrap" -> Bad(e, Ok(e) /\ IsWrappedPos(e.x, e.out), "wrap-positions")
    [] e.op = "wrapd" -> Bad(e, Ok(e) /\ IsWrappedDisp(e.x, e.out), "wrap-displacement")
    [] e.op = "displace" -> Bad(e, Ok(e) /\ IsWrappedPos(Plus(e), e.out), "displace")
    [] e.op = "calc" ->
         Bad(e, Ok(e) /\ IsWrappedDisp(RVSub(e.q, e.p), e.out) /\ IsWrappedDisp(RVSub(e.p, e.q), e.back)
                /\ (Inside(e.out) => RClose(e.out, RVScale(RInt(-1), e.back), TolOf(RVSub(e.p, e.q)))), "displacement")
    [] e.op = "rtrip" ->
         Bad(e, Ok(e) /\ IsWrappedDisp(e.d, e.out), "displace-then-measure")
    [] e.op = "transform" ->
         Bad(e, Ok(e) /\ IsWrappedPos(Transformed(e.p, e.R, e.t), e.out), "transform")
    [] e.op = "cart" ->     \* fractional -> Cartesian
         Bad(e, Ok(e) /\ IsWrappedDisp(e.d, Rows(e.out, RInv3(e.L))), "to-cartesian")
    [] e.op = "frac" ->     \* Cartesian -> fractional
         Bad(e, Ok(e) /\ IsWrappedDisp(Rows(e.c, RInv3(e.L)), e.out), "to-fractional")
    [] e.op = "invert" ->   \* there and back, for displacements inside half a cell
         Bad(e, Ok(e) /\ (Inside(e.d) => RClose(e.d, e.out, RDec("1e-9")))
                      /\ (~Inside(e.d) => IsWrappedDisp(e.d, e.out)), "conversions-invert")
    [] e.op = "same" ->     \* lattice-shifted inputs / batches: identical results
         If(\E i \in 2..Len(e.outs) : ~RClose(e.outs[1], e.outs[i], RDec("1e-9")), "C10." \o e.what)
    [] e.op = "args" -> If(~e.same, "C10.arguments-modified")
    [] OTHER -> {"C10.unknown-event"}
After(s, e) == s
InitState(t) == [focus |-> t.focus]

TraceInit == Start(InitState)
TraceNext == Step(Failing, After)
=============================================================================
