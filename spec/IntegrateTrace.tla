--------------------------- MODULE IntegrateTrace ---------------------------
(* System, Alter (somebody else changes state, matrix or source), SetStep,   *)
(* Step: recorded from a time integrator.                                    *)
EXTENDS Integrate, TraceLib
VARIABLE l
tvars == <<l, sys, scheme, f, h>>
ev == Trace[l]
TraceInit == l = 1 /\ sys = <<>> /\ scheme = <<>> /\ f = <<>> /\ h = "0"
Used == IF Embedded(scheme.name) THEN Sub(ev.ret, ev.t) ELSE Effective(ev.dt)
StepOk == /\ Near(ev.h, Effective(ev.dt), "1e-15")
          /\ Near(Sub(ev.ret, ev.t), Used, "1e-12")
          /\ Len(ev.f) = Len(f) /\ \A i \in DOMAIN f : Finite(ev.f[i])
          /\ StateOk(Used, ev.f)
          /\ Embedded(scheme.name) => Ends(Effective(ev.dt), Used) /\ Guess(Used, ev.guess)
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "System" /\ sys' = [A |-> ev.A, b |-> ev.b] /\ scheme' = ev.scheme /\ f' = ev.f /\ h' = ev.h
       \/ ev.e = "Alter" /\ sys' = [A |-> ev.A, b |-> ev.b] /\ f' = ev.f /\ UNCHANGED <<scheme, h>>
       \/ ev.e = "SetStep" /\ h' = ev.h /\ UNCHANGED <<sys, scheme, f>>
       \/ ev.e = "Step" /\ StepOk = TRUE /\ f' = ev.f /\ h' = ev.h /\ UNCHANGED <<sys, scheme>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
