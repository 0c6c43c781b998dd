-------------------------------- MODULE Ckpt ---------------------------------
(* How checkpoints get to disk.  A checkpoint is recognised by its status    *)
(* file next to its data; a run may be killed before any operation on its    *)
(* files, and half way through a write.  Whatever is recognised then has to  *)
(* be complete.                                                              *)
(* disk of module Restart holds the recognisable checkpoints.                *)
EXTENDS Restart

VARIABLES fs,      \* directory -> <<iteration, kind>> -> [stat, data, ok] of the files
          open     \* <<iteration, kind>> of the checkpoint being written, or <<>>
cvars == <<vars, fs, open>>

Files(d) == IF d \in DOMAIN fs THEN fs[d] ELSE Empty
File(d, k) == IF k \in DOMAIN Files(d) THEN Files(d)[k] ELSE [stat |-> FALSE, data |-> FALSE]
SetFile(d, k, v) == fs' = Put(fs, d, Put(Files(d), k, v))
Due(r, i) == r.chk < Never /\ (i % r.chk = 0 \/ i = r.N)

CBegin(r) == /\ Begin(r)
             /\ fs' = IF r.clean THEN Put(fs, r.dir, Empty) ELSE fs
             /\ UNCHANGED open
CFresh(st) == StartFresh(st) /\ UNCHANGED <<fs, open>>
(* where the run going on began *)
From == IF "from" \in DOMAIN run THEN run.from ELSE 0
Owed == Due(run, here.i) /\ here.i > From
Saved == Owed => here.i \in DOMAIN Ckpts(run.dir)
(* The resumed run carries on what it found.                                 *)
CResume(i, st) ==
    /\ run.phase = "asked" /\ run.restart # 0 /\ Usable(run)
    /\ i = Source(run)
    /\ Ckpts(run.dir)[i].st = st
    /\ run' = [from |-> i] @@ [run EXCEPT !.phase = "going", !.group = Ckpts(run.dir)[i].group]
    /\ here' = [i |-> i, st |-> st]
    /\ UNCHANGED <<truth, disk, fs, open>>
CAdvance(st) ==
    /\ run.phase = "going" /\ here.i < run.N
    /\ LET i == here.i + 1 IN
        /\ i \in DOMAIN Known(run.group) => st = Known(run.group)[i]
        /\ truth' = Put(truth, run.group, Put(Known(run.group), i, st))
        /\ here' = [i |-> i, st |-> st]
    /\ open = <<>> /\ Saved
    /\ UNCHANGED <<disk, run, fs, open>>
CEnd(st) == /\ End(st) /\ open = <<>> /\ Saved /\ UNCHANGED <<fs, open>>
CLeave == Leave /\ UNCHANGED <<fs, open>>
CRefuse == Refuse /\ UNCHANGED <<fs, open>>
Kill == /\ run.phase \in {"asked", "going", "over"}
        /\ run' = [phase |-> "none"] /\ open' = <<>>
        /\ UNCHANGED <<truth, disk, here, fs>>

(* Operations on the files of checkpoint k = <<iteration, kind>>.            *)
Own(k) == /\ run.phase \in {"going", "over"} /\ k[1] = here.i /\ Owed
(* The data of a recognisable checkpoint is never touched.                   *)
DataOp(k) == /\ Own(k) /\ ~File(run.dir, k).stat
             /\ SetFile(run.dir, k, [stat |-> FALSE, data |-> TRUE])
             /\ open' = k
             /\ UNCHANGED vars
(* A status file appears all at once, after the data.                        *)
StatAppears(k) == /\ Own(k) /\ File(run.dir, k).data /\ ~File(run.dir, k).stat
                  /\ SetFile(run.dir, k, [stat |-> TRUE, data |-> TRUE])
                  /\ disk' = IF k[2] = 0
                             THEN Put(disk, run.dir, Put(Ckpts(run.dir), k[1],
                                      [level |-> run.level, order |-> run.order, set |-> run.set,
                                       st |-> here.st, group |-> run.group]))
                             ELSE disk
                  /\ open' = <<>>
                  /\ UNCHANGED <<truth, run, here>>
(* Only the checkpoint that is to be replaced may vanish.                    *)
StatVanishes(k) == /\ Own(k) /\ File(run.dir, k).stat
                   /\ SetFile(run.dir, k, [stat |-> FALSE, data |-> File(run.dir, k).data])
                   /\ disk' = IF k[2] = 0
                              THEN Put(disk, run.dir, Restrict(Ckpts(run.dir), DOMAIN Ckpts(run.dir) \ {k[1]}))
                              ELSE disk
                   /\ open' = k
                   /\ UNCHANGED <<truth, run, here>>
OtherOp == UNCHANGED cvars

------------------------------------------------------------------------------
(* what is recognised is complete: files and checkpoints agree               *)
Recognised == \A d \in DOMAIN fs : \A k \in DOMAIN fs[d] :
                 k[2] = 0 => (fs[d][k].stat <=> k[1] \in DOMAIN Ckpts(d))
=============================================================================
