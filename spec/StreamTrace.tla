----------------------------- MODULE StreamTrace -----------------------------
EXTENDS Stream, TraceLib
VARIABLES l, seen
tvars == <<l, box, set, field, seen>>
ev == Trace[l]
TraceInit == l = 1 /\ box = <<>> /\ set = <<>> /\ field = <<>> /\ seen = 0
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Set" /\ set' = ev /\ UNCHANGED <<box, field, seen>>
       \/ ev.e = "Box" /\ box' = ev /\ UNCHANGED <<set, field, seen>>
       \/ ev.e = "Poly" /\ field' = [k |-> "poly", exps |-> ev.exps, coef |-> ev.coef] /\ seen' = 0 /\ UNCHANGED <<box, set>>
       \/ ev.e = "Nodal" /\ field' = [k |-> "nodal", nodes |-> ev.nodes, cells |-> <<>>] /\ seen' = 0 /\ UNCHANGED <<box, set>>
       \/ ev.e = "Cell" /\ field' = [field EXCEPT !.cells = Append(@, [lo |-> ev.lo, hi |-> ev.hi, v |-> ev.v])] /\ UNCHANGED <<box, set, seen>>
       \/ ev.e \in {"At", "Corner"} /\ Streamed(ev.x, ev.v) = TRUE /\ ev.v[1] = ev.rest /\ (box.still => Still(ev.x, ev.v)) = TRUE /\ seen' = seen + 1 /\ UNCHANGED <<box, set, field>>
       \/ ev.e = "Step" /\ seen = ev.n /\ ev.n > 0 /\ Near(ev.dt, box.dt, "1e-14") /\ UNCHANGED <<box, set, field, seen>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
