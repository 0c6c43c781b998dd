----------------------------- MODULE CkptTrace -------------------------------
EXTENDS Ckpt, TraceLib
VARIABLE l
tvars == <<cvars, l>>
ev == Trace[l]
St == <<ev.t, ev.f>>
K == <<ev.it, ev.g>>
To == <<ev.toit, ev.tog>>

TRun == /\ ev.e = "Run"
        /\ CBegin([group |-> ev.group, dir |-> ev.dir, clean |-> ev.clean, restart |-> ev.restart,
                   N |-> ev.N, chk |-> ev.chk, level |-> ev.level, order |-> ev.order, set |-> ev.set])
TStart == ev.e = "Start" /\ IF run.restart = 0 THEN ev.i = 0 /\ CFresh(St) ELSE CResume(ev.i, St)
TState == ev.e = "State" /\ ev.i = here.i + 1 /\ CAdvance(St)
TFinal == ev.e = "Final" /\ ev.i = here.i /\ CEnd(St)
TOp == /\ ev.e = "Op"
       /\ \/ ev.part = "data" /\ DataOp(K)
          \/ ev.kind = "rename" /\ ev.topart = "stat" /\ StatAppears(To)
          \/ ev.kind = "unlink" /\ ev.part = "stat" /\ StatVanishes(K)
          \/ ev.part = "other" /\ ev.topart = "other" /\ OtherOp
TExit == /\ ev.e = "Exited"
         /\ \/ ev.how = "done" /\ CLeave
            \/ ev.how = "refused" /\ CRefuse
            \/ ev.how = "killed" /\ Kill

TraceInit == /\ l = 1 /\ truth = Empty /\ disk = Empty /\ run = [phase |-> "none"]
             /\ here = [i |-> 0, st |-> "?"] /\ fs = Empty /\ open = <<>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TRun \/ TStart \/ TState \/ TFinal \/ TOp \/ TExit)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
