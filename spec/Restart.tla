------------------------------- MODULE Restart -------------------------------
(* Interrupted and resumed runs.  What the solver computes is deterministic: *)
(* a run of group g (one problem, one discretisation) is in one definite     *)
(* state at every iteration, whether it got there in one go or by resuming.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Never == 1000000000
None  == "none"

VARIABLES truth,   \* group -> iteration -> state of the populations and the clock
          disk,    \* directory -> iteration -> [group, mesh, state] of the checkpoint
          run,     \* the run going on
          here     \* [i, state] of the run
vars == <<truth, disk, run, here>>

Restrict(f, S) == [x \in S |-> f[x]]
Empty == [x \in {} |-> x]
Put(f, x, v) == [y \in DOMAIN f \cup {x} |-> IF y = x THEN v ELSE f[y]]
Max(S) == CHOOSE x \in S : \A y \in S : y <= x

Ckpts(d) == IF d \in DOMAIN disk THEN disk[d] ELSE Empty
Known(g) == IF g \in DOMAIN truth THEN truth[g] ELSE Empty

(* restart = 1 asks for the most recent checkpoint *)
Source(r) == IF r.restart = 1 /\ DOMAIN Ckpts(r.dir) # {} THEN Max(DOMAIN Ckpts(r.dir)) ELSE r.restart
(* A checkpoint can be used by the same discretisation, or one on a mesh     *)
(* that is at least as fine.                                                 *)
Usable(r) == /\ Source(r) \in DOMAIN Ckpts(r.dir)
             /\ LET c == Ckpts(r.dir)[Source(r)] IN
                /\ c.order = r.order /\ c.level <= r.level /\ c.set = r.set

Begin(r) == /\ run.phase = "none"
            /\ run' = [phase |-> "asked"] @@ r
            /\ disk' = IF r.clean THEN Put(disk, r.dir, Empty) ELSE disk
            /\ UNCHANGED <<truth, here>>

StartFresh(st) == /\ run.phase = "asked" /\ run.restart = 0
                  /\ 0 \in DOMAIN Known(run.group) => st = Known(run.group)[0]
                  /\ truth' = Put(truth, run.group, Put(Known(run.group), 0, st))
                  /\ run' = [run EXCEPT !.phase = "going"]
                  /\ here' = [i |-> 0, st |-> st]
                  /\ UNCHANGED disk
(* a resumed run starts from the stored state, unless it had to be interpolated *)
StartResumed(i, st) ==
    /\ run.phase = "asked" /\ run.restart # 0 /\ Usable(run)
    /\ i = Source(run)
    /\ LET c == Ckpts(run.dir)[i] IN
         (c.level = run.level) => st = c.st
    /\ run' = [run EXCEPT !.phase = "going"]
    /\ here' = [i |-> i, st |-> st]
    /\ UNCHANGED <<truth, disk>>

Advance(st) == /\ run.phase = "going"
               /\ here.i < run.N
               /\ LET i == here.i + 1 IN
                    /\ i \in DOMAIN Known(run.group) => st = Known(run.group)[i]
                    /\ truth' = Put(truth, run.group, Put(Known(run.group), i, st))
                    /\ here' = [i |-> i, st |-> st]
                    /\ disk' = IF run.chk < Never /\ (i % run.chk = 0 \/ i = run.N)
                               THEN Put(disk, run.dir, Put(Ckpts(run.dir), i,
                                      [level |-> run.level, order |-> run.order, set |-> run.set, st |-> st]))
                               ELSE disk
               /\ UNCHANGED run

End(st) == /\ run.phase = "going" /\ here.i >= run.N
           /\ here.i > 0 => st = here.st
           /\ run' = [run EXCEPT !.phase = "over"]
           /\ UNCHANGED <<truth, disk, here>>

(* Refused: only if there is no usable checkpoint.                           *)
Refuse == /\ run.phase = "asked" /\ run.restart # 0 /\ ~Usable(run)
          /\ run' = [phase |-> "none"]
          /\ UNCHANGED <<truth, disk, here>>
Leave == /\ run.phase = "over"
         /\ run' = [phase |-> "none"]
         /\ UNCHANGED <<truth, disk, here>>

------------------------------------------------------------------------------
(* every checkpoint of a group holds that group's state of its iteration: a  *)
(* resumed run therefore continues the uninterrupted one                     *)
OnTrack == run.phase = "going" /\ here.i > 0 /\ here.i \in DOMAIN Known(run.group) /\ run.exact
             => here.st = Known(run.group)[here.i]
=============================================================================
