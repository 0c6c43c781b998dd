----------------------------- MODULE ModelsTrace ----------------------------
EXTENDS Models, TraceLib
VARIABLE l
tvars == <<mvars, l>>
ev == Trace[l]
TraceInit == l = 1 /\ MInit
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Class" /\ Take(ev)
       \/ ev.e = "Equilibrium" /\ Equilibrium(ev)
       \/ ev.e = "Collide" /\ <<m.class, m.set>> \in Known /\ Collide(ev)
       \/ ev.e = "Refused" /\ <<m.class, m.set>> \notin Known /\ UNCHANGED mvars
       \/ ev.e = "Done" /\ <<m.class, m.set>> \in Known /\ UNCHANGED mvars
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
