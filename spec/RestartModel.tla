---------------------------- MODULE RestartModel ----------------------------
(* All histories of runs in one directory: fresh, resumed (also from the     *)
(* most recent checkpoint), with a different mesh, order or velocity set.    *)
EXTENDS Restart
CONSTANTS MaxN, MaxRuns, Restarts
VARIABLE runs
mvars == <<vars, runs>>

\* the state a group reaches: it carries the number of the steps that led to it
Evolve(st) == st + 1

Discs == {[level |-> 1, order |-> 2, set |-> "A", group |-> "a1"],
          [level |-> 2, order |-> 2, set |-> "A", group |-> "a2"],
          [level |-> 1, order |-> 3, set |-> "A", group |-> "b1"]}
Asks == [dir : {"d"}, clean : BOOLEAN, restart : {0} \cup Restarts, N : 1..MaxN, chk : {1, 2, Never}]

Init == /\ truth = Empty /\ disk = Empty /\ run = [phase |-> "none"] /\ here = [i |-> 0, st |-> 0] /\ runs = 0
MBegin == /\ runs < MaxRuns /\ runs' = runs + 1
          /\ \E a \in Asks, d \in Discs :
                \* a run on a finer mesh than its checkpoint is a new evolution
                LET x == a @@ d
                    g == IF a.restart # 0 /\ ~a.clean /\ Usable(x) /\ Ckpts(a.dir)[Source(x)].level # d.level
                         THEN "new" ELSE d.group IN
                /\ g # "new"
                /\ (a.clean => a.restart = 0)
                /\ Begin(x @@ [exact |-> TRUE])
MFresh == StartFresh(0) /\ UNCHANGED runs
MResume == \E i \in 1..MaxN, st \in 0..MaxN : StartResumed(i, st) /\ UNCHANGED runs
MAdvance == run.phase = "going" /\ Advance(Evolve(here.st)) /\ UNCHANGED runs
MEnd == run.phase = "going" /\ End(here.st) /\ UNCHANGED runs
MRefuse == Refuse /\ UNCHANGED runs
MLeave == Leave /\ UNCHANGED runs
Next == MBegin \/ MFresh \/ MResume \/ MAdvance \/ MEnd \/ MRefuse \/ MLeave
Spec == Init /\ [][Next]_mvars

\* the state counts the steps of an uninterrupted run
Uninterrupted == run.phase \in {"going", "over"} => here.st = here.i
\* a run can always be begun, and begins or is refused
NeverStuck == run.phase = "asked" => ENABLED (MFresh \/ MResume \/ MRefuse)
\* the solver never stops because it disagrees with itself
Progress == run.phase = "going" /\ here.i < run.N => ENABLED MAdvance
=============================================================================
