---------------------------- MODULE StencilTrace ----------------------------
EXTENDS Stencil, TraceLib
VARIABLE l
tvars == <<svars, l>>
ev == Trace[l]
TraceInit == l = 1 /\ seen = [x \in {} |-> x]
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ ev.e = "Set" /\ Look(ev)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
