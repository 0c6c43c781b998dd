----------------------------- MODULE CkptModel ------------------------------
(* All interleavings of runs, operations on files and kills in one           *)
(* directory, for a writer that follows the protocol.                        *)
EXTENDS Ckpt
CONSTANTS MaxN, MaxRuns, Chks, MaxOps
VARIABLES runs, ops, made
mvars == <<cvars, runs, ops, made>>

Init == /\ truth = Empty /\ disk = Empty /\ run = [phase |-> "none"] /\ here = [i |-> 0, st |-> <<"", 0>>]
        /\ runs = 0 /\ fs = Empty /\ open = <<>> /\ ops = 0 /\ made = FALSE
MBegin == /\ runs < MaxRuns /\ runs' = runs + 1 /\ made' = FALSE /\ UNCHANGED ops
          /\ \E g \in {"A", "B"}, c \in Chks, n \in 1..MaxN, r \in {0, 1} \cup 2..MaxN :
                CBegin([group |-> g, dir |-> "d", clean |-> FALSE, restart |-> r, N |-> n, chk |-> c,
                        level |-> 1, order |-> 2, set |-> "S"])
MFresh == CFresh(<<run.group, 0>>) /\ UNCHANGED <<runs, ops, made>>
MResume == /\ run.phase = "asked" /\ run.restart # 0
           /\ \E i \in DOMAIN Ckpts("d") : CResume(i, Ckpts("d")[i].st) /\ made' = TRUE
           /\ UNCHANGED <<runs, ops>>
\* the next step is taken once the checkpoint is made
MAdvance == /\ run.phase = "going" /\ (Owed => made)
            /\ CAdvance(<<here.st[1], here.i + 1>>)
            /\ made' = FALSE /\ ops' = 0 /\ UNCHANGED runs
K == <<here.i, 0>>
Writing == run.phase = "going" /\ ~made /\ Owed
MVanish == Writing /\ StatVanishes(K) /\ ops' = 0 /\ UNCHANGED <<runs, made>>
MData == Writing /\ ops < MaxOps /\ DataOp(K) /\ ops' = ops + 1 /\ UNCHANGED <<runs, made>>
MAppear == Writing /\ ops = MaxOps /\ StatAppears(K) /\ made' = TRUE /\ ops' = 0 /\ UNCHANGED runs
MEnd == /\ run.phase = "going" /\ (Owed => made) /\ CEnd(here.st) /\ UNCHANGED <<runs, ops, made>>
MLeave == CLeave /\ UNCHANGED <<runs, ops, made>>
MRefuse == CRefuse /\ UNCHANGED <<runs, ops, made>>
MKill == Kill /\ ops' = 0 /\ UNCHANGED <<runs, made>>
Next == MBegin \/ MFresh \/ MResume \/ MAdvance \/ MVanish \/ MData \/ MAppear \/ MEnd \/ MLeave \/ MRefuse \/ MKill
Spec == Init /\ [][Next]_mvars

\* a recognisable checkpoint holds the state of its iteration, of one evolution
Complete == \A i \in DOMAIN Ckpts("d") : Ckpts("d")[i].st = <<Ckpts("d")[i].group, i>>
\* so every run is on the track of one uninterrupted run, at its own iteration
Uninterrupted == run.phase \in {"going", "over"} => here.st = <<run.group, here.i>>
\* a kill never takes more than the checkpoint being written
Survives == [][MKill => disk' = disk]_mvars
OnlyOne == [][\A i \in DOMAIN Ckpts("d") : i \notin DOMAIN Ckpts("d")' => i = here.i]_mvars
NeverStuck == run.phase = "asked" => ENABLED (MFresh \/ MResume \/ MRefuse)
CanFinish == run.phase = "going" => ENABLED (MAdvance \/ MVanish \/ MData \/ MAppear \/ MEnd)
=============================================================================
