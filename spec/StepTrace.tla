----------------------------- MODULE StepTrace -----------------------------
EXTENDS Step, TraceLib
VARIABLES l, last, clock
tvars == <<l, set, mesh, h, last, clock>>
ev == Trace[l]
TraceInit == l = 1 /\ set = <<>> /\ mesh = <<>> /\ h = "1e300" /\ last = [dt |-> "1e300", h |-> "1e300"] /\ clock = [t |-> "0", i |-> 0, dt |-> "0"]
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Set" /\ set' = ev /\ last' = [dt |-> "1e300", h |-> "1e300"] /\ UNCHANGED <<mesh, h, clock>>
       \/ ev.e = "Mesh" /\ mesh' = ev /\ h' = "1e300" /\ UNCHANGED <<set, last, clock>>
       \/ ev.e = "Cell" /\ h' = Min(h, Shortest(ev.v)) /\ UNCHANGED <<set, mesh, last, clock>>
       \* a finer mesh (refined) never has a longer step; half of the edges, half of the step
       \/ ev.e = "Step" /\ StepOk(ev) = TRUE
          /\ (ev.refined => Le(ev.dt, Mul(last.dt, "1.0000000001"))) = TRUE
          /\ (ev.halved => Same(Mul(2, ev.dt), last.dt)) = TRUE
          /\ last' = [dt |-> ev.dt, h |-> h] /\ UNCHANGED <<set, mesh, h, clock>>
       \* another scaling of the velocities, the step times the scaling stays
       \/ ev.e = "Scaled" /\ (Same(Mul(ev.dt, ev.by), last.dt) /\ Same(Mul(ev.cs, 1), Mul(ev.by, Sqrt(set.cs2)))) = TRUE /\ UNCHANGED <<set, mesh, h, last, clock>>
       \/ ev.e = "Tau" /\ Same(ev.tau, Tau(last.dt)) = TRUE /\ UNCHANGED <<set, mesh, h, last, clock>>
       \/ ev.e = "Names" /\ ev.v = Names /\ UNCHANGED <<set, mesh, h, last, clock>>
       \* a running simulation: uses this step
       \/ ev.e = "Begin" /\ (Same(ev.dt, TimeStep(mesh.cfl)) /\ Same(ev.advected, ev.dt) /\ Near(ev.t, 0, "1e-14")) = TRUE /\ clock' = [t |-> ev.t, i |-> 0, dt |-> ev.dt] /\ UNCHANGED <<set, mesh, h, last>>
       \/ ev.e = "Next" /\ ev.i = clock.i + 1
          /\ (Near(ev.t, Add(clock.t, ev.dt), "1e-11") /\ (~ev.free => Same(ev.dt, clock.dt)) /\ Lt(0, ev.dt)) = TRUE
          /\ (ev.tau # "0" => Same(ev.tau, Tau(ev.dt))) = TRUE
          /\ clock' = [t |-> ev.t, i |-> ev.i, dt |-> ev.dt] /\ UNCHANGED <<set, mesh, h, last>>
       \/ ev.e = "Relax" /\ RelaxOk(ev.a, ev.b, clock.dt) = TRUE /\ UNCHANGED <<set, mesh, h, last, clock>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
