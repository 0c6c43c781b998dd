----------------------------- MODULE StartTrace -----------------------------
EXTENDS Start, TraceLib
VARIABLES l, seen
tvars == <<l, set, flow, st, seen>>
ev == Trace[l]
TraceInit == l = 1 /\ set = <<>> /\ flow = <<>> /\ st = <<>> /\ seen = 0
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Set" /\ set' = ev /\ UNCHANGED <<flow, st, seen>>
       \/ ev.e = "Fields" /\ flow' = ev /\ UNCHANGED <<set, st, seen>>
       \/ ev.e = "Start" /\ st' = ev /\ seen' = 0 /\ StartOk(ev) = TRUE /\ UNCHANGED <<set, flow>>
       \/ ev.e = "Node" /\ NodeOk(ev) = TRUE /\ seen' = seen + 1 /\ UNCHANGED <<set, flow, st>>
       \/ ev.e = "End" /\ seen > 0 /\ UNCHANGED <<set, flow, st, seen>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
