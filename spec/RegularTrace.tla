---------------------------- MODULE RegularTrace ----------------------------
EXTENDS Regular, TraceLib
VARIABLES l, n, state
tvars == <<l, set, rule, n, state>>
ev == Trace[l]
TraceInit == l = 1 /\ set = <<>> /\ rule = <<>> /\ n = 0 /\ state = "idle"
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Ask" /\ rule' = ev /\ n' = 0 /\ state' = "asked" /\ UNCHANGED set
       \/ ev.e = "Set" /\ state = "asked" /\ Supported(rule) /\ set' = ev /\ state' = "ready" /\ UNCHANGED <<rule, n>>
       \* the populations at a node before and after
       \/ ev.e = "Node" /\ state = "ready" /\ (IF rule.scheme = "NO_REGULARIZATION" THEN ev.after = ev.before ELSE NodeOk(ev.before, ev.after)) = TRUE /\ n' = n + 1 /\ UNCHANGED <<rule, set, state>>
       \* the copies that other processes hold are the same; a run regularizes once per step, after the collision
       \/ ev.e = "Copies" /\ Near(ev.diff, "0", "1e-15") = TRUE /\ UNCHANGED <<rule, set, n, state>>
       \/ ev.e = "Run" /\ n > 0 /\ Near(ev.diff, "0", "1e-13") = TRUE /\ Finite(ev.size) = TRUE /\ UNCHANGED <<rule, set, n, state>>
       \/ ev.e = "Exited" /\ UNCHANGED <<rule, set, n>> /\ state' = "idle"
          /\ \/ ev.how = "done" /\ state = "ready" /\ n > 0
             \/ ev.how = "refused" /\ state = "asked" /\ ~Supported(rule)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
