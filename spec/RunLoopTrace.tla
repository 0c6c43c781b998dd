---------------------------- MODULE RunLoopTrace ----------------------------
EXTENDS RunLoop, TraceLib
VARIABLE l
tvars == <<vars, l>>
ev == Trace[l]

(* what the files show must be exactly what this step is due to write *)
Written == /\ (Has(ev, "vtu") =>
                 /\ ToSet(ev.vtu)  = vtu' \ vtu
                 /\ ToSet(ev.pvtu) = vtu' \ vtu
                 /\ ToSet(ev.stat) = chk' \ chk
                 /\ ToSet(ev.data) = chk' \ chk
                 \* the second set of populations of runs with energy transport
                 /\ ToSet(ev.statG) = (IF cfg'.gas THEN chk' \ chk ELSE {})
                 /\ ToSet(ev.dataG) = (IF cfg'.gas THEN chk' \ chk ELSE {})
                 /\ rows \o ev.rows = rows'
                 /\ ev.left = <<>>
                 /\ ev.grid = (grid' /\ ~grid))

TBegin == /\ ev.e = "Begin"
          /\ Begin([N |-> ev.N, end |-> ev.end, start |-> ev.start, sol |-> ev.sol,
                    tab |-> ev.tab, chk |-> ev.chk, off |-> ev.off, gas |-> ev.gas], ev.t)
          /\ ev.start = ev.restart
TStep == /\ ev.e = "Step"
         /\ Step(ev.known, ev.below)
         /\ i' = ev.i /\ t' = ev.t
         /\ Written
TEnd == /\ ev.e = "End"
        /\ End
        /\ i = ev.i /\ t = ev.t
        /\ Written

TraceInit == /\ l = 1 /\ phase = "idle" /\ cfg = [off |-> TRUE, gas |-> FALSE] /\ i = 0 /\ t = 0
             /\ known = FALSE /\ below = FALSE
             /\ vtu = {} /\ chk = {} /\ rows = <<>> /\ grid = FALSE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TBegin \/ TStep \/ TEnd)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
