--------------------------- MODULE CollisionTrace ---------------------------
EXTENDS Collision, TraceLib
VARIABLE l
tvars == <<cvars, l>>
ev == Trace[l]
Want == IOEnv.WANT      \* the property that is looked at
Judge(c) ==
    CASE Want = "P07" -> Exact(c)
      [] Want = "P11" -> Mass(c) /\ Momentum(c) /\ Reported(c) /\ Stress(c) /\ (c.settled => Settled(c))
      [] Want = "P21" -> Mass(c) /\ Momentum(c) /\ Reported(c)
      [] Want = "P22" -> Mass(c) /\ Momentum(c) /\ Energy(c) /\ Reported(c) /\ ReportedT(c) /\ (c.settled => Settled(c))
(* a run that starts from prescribed fields: the populations carry them *)
Carried(c) == c.start =>
    LET n == Node(c) IN
    /\ Small(n.rho, mdl.rho0, mdl.rho0) /\ Small(n.T, mdl.T0, mdl.T0)
    /\ \A d \in 1..D : Small(Mul(n.u[d], mdl.sc), mdl.u0[d], mdl.sc)
TraceInit == l = 1 /\ CInit
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Ask" /\ Ask(ev)
       \/ ev.e = "Model" /\ Ready(ev)
       \/ ev.e = "Refused" /\ Refuse
       \/ ev.e = "Collide" /\ Collide(ev) /\ Judge(ev) /\ Carried(ev)
       \/ /\ ev.e = "Exited" /\ UNCHANGED <<ask, mdl>>
          /\ \/ ev.how = "done" /\ phase = "ready" /\ phase' = "idle"
             \/ ev.how = "refused" /\ phase \in {"asked", "ready"} /\ ~Supported(ask) /\ phase' = "idle"
             \/ ev.how = "refused" /\ phase = "refused" /\ phase' = "idle"
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
