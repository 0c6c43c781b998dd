---------------------------- MODULE RestartTrace ----------------------------
EXTENDS Restart, TraceLib
VARIABLES l,
          mac      \* group -> iteration -> density and velocity seen there
tvars == <<vars, l, mac>>
ev == Trace[l]
St == <<ev.t, ev.f>>
Seen(g) == IF g \in DOMAIN mac THEN mac[g] ELSE Empty
Close(a, b) == /\ Len(a) = Len(b)
               /\ \A r \in 1..Len(a) : \A c \in 1..Len(a[r]) : a[r][c] - b[r][c] \in -2..2

TRun == /\ ev.e = "Run"
        /\ Begin([group |-> ev.group, dir |-> ev.dir, clean |-> ev.clean, restart |-> ev.restart,
                  N |-> ev.N, chk |-> ev.chk, level |-> ev.level, order |-> ev.order, set |-> ev.set,
                  forced |-> ev.forced, exact |-> TRUE])
        /\ UNCHANGED mac
TStart == /\ ev.e = "Start"
          /\ \/ ev.i = 0 /\ StartFresh(St)
             \/ /\ StartResumed(ev.i, St)
                \* density and velocity are those of the stored populations
                /\ (/\ ~run.forced /\ Ckpts(run.dir)[ev.i].level = run.level
                    /\ ev.i \in DOMAIN Seen(run.group)) => Close(ev.rows, Seen(run.group)[ev.i].rows)
          /\ UNCHANGED mac
TState == /\ ev.e = "State" /\ ev.i = here.i + 1
          /\ Advance(St)
          /\ ev.i \in DOMAIN Seen(run.group) => Seen(run.group)[ev.i].ru = ev.ru
          /\ mac' = Put(mac, run.group, Put(Seen(run.group), ev.i, [ru |-> ev.ru, rows |-> ev.rows]))
TFinal == ev.e = "Final" /\ ev.i = here.i /\ End(St) /\ UNCHANGED mac
TError == ev.e = "Error" /\ Refuse /\ UNCHANGED mac
TExit == /\ ev.e = "Exited"
         /\ \/ ev.how = "done" /\ Leave
            \/ ev.how = "refused" /\ Refuse
            \/ ev.how = "done" /\ run.phase = "none" /\ UNCHANGED vars
         /\ UNCHANGED mac

TraceInit == /\ l = 1 /\ truth = Empty /\ disk = Empty /\ run = [phase |-> "none"]
             /\ here = [i |-> 0, st |-> "?"] /\ mac = Empty
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (TRun \/ TStart \/ TState \/ TFinal \/ TError \/ TExit)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
