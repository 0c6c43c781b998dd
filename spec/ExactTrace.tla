----------------------------- MODULE ExactTrace -----------------------------
EXTENDS Exact, FiniteSets, TraceLib
VARIABLES l
tvars == <<l, flow, side>>
ev == Trace[l]
TraceInit == l = 1 /\ flow = <<>> /\ side = {}
Steady(x) == [d \in 1..D |-> IF d = 1 THEN Mul(flow.U, Div(x[D], flow.L)) ELSE "0"]
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Flow" /\ flow' = ev /\ side' = {}
       \/ ev.e = "Posed" /\ (BoxOk /\ ForceOk /\ ScaleOk /\ Cardinality(side) = 2 * D) = TRUE /\ UNCHANGED <<flow, side>>
       \/ ev.e = "Side" /\ SideOk(ev) = TRUE /\ side' = side \cup {<<ev.axis, ev.end>>} /\ UNCHANGED flow
       \* values around a place and a time
       \/ ev.e = "Probe" /\ (Continuity(ev) /\ Momentum(ev)) = TRUE /\ UNCHANGED <<flow, side>>
       \* values around a place at the beginning
       \/ ev.e = "Start" /\ (/\ Continuity(ev)
                             /\ (\A d \in 1..D : Near(Here(ev, d), Begin(ev.x)[d], "1e-10"))
                             /\ Near(ev.rho[1][3], BeginRho(ev.x), "1e-8")
                             /\ (flow.pressure => Poisson(ev))) = TRUE /\ UNCHANGED <<flow, side>>
       \* at the walls and at opposite sides
       \/ ev.e = "Edge" /\ (\A d \in 1..D : Near(ev.lo[d], IF ev.axis \in Across THEN Moving(d, ev.axis, 1) ELSE ev.hi[d], "1e-9")
                                            /\ (ev.axis \in Across => Near(ev.hi[d], Moving(d, ev.axis, 2), "1e-9"))) = TRUE /\ UNCHANGED <<flow, side>>
       \* shortly after the beginning the half that is further from the moving wall is still at rest
       \/ ev.e = "Early" /\ (Le(Add(ev.x[D], ev.x[D]), flow.L) /\ \A d \in 1..D : Near(ev.u[d], "0", "1e-10")) = TRUE /\ UNCHANGED <<flow, side>>
       \* long after the beginning
       \/ ev.e = "Late" /\ (\A d \in 1..D : Near(ev.u[d], Steady(ev.x)[d], "1e-8")) = TRUE /\ UNCHANGED <<flow, side>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
