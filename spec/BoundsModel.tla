----------------------------- MODULE BoundsModel -----------------------------
EXTENDS Bounds, Json, TLC
CONSTANTS Ids, MaxOps
VARIABLES log, asked
mvars == <<bvars, log, asked>>
Full == [s \in 0..3 |-> s]
Labellings == {Full, [s \in 0..3 |-> 3 - s], <<>> @@ (0 :> 0 @@ 1 :> 1 @@ 2 :> 2 @@ 3 :> 2), (0 :> 0 @@ 1 :> 1 @@ 2 :> 0 @@ 3 :> 3),
               (0 :> 4 @@ 1 :> 1 @@ 2 :> 2 @@ 3 :> 0), (0 :> 1 @@ 1 :> 1 @@ 2 :> 1 @@ 3 :> 1), (0 :> 2 @@ 1 :> 3 @@ 2 :> 0 @@ 3 :> 1)}
MInit == (\E l \in Labellings, s \in BOOLEAN : BInit(l, s)) /\ log = <<>> /\ asked = FALSE
Note(r) == Len(log) < MaxOps /\ log' = Append(log, r)
MPeriodic == /\ \E a, b \in Ids, d \in 0..1, r \in {"ok", "impossible", "refused"} :
                  /\ (a = b => a = 0)
                  /\ (r = "impossible" /\ Joinable(a, b, d) => FALSE)
                  /\ Periodic(a, b, d, r) /\ Note([op |-> "periodic", a |-> a, b |-> b, dir |-> d])
             /\ UNCHANGED asked
MWall == (\E k \in Kinds, x \in Ids, r \in {"ok", "refused"} : Wall(k, x, r) /\ Note([op |-> "wall", kind |-> k, id |-> x])) /\ UNCHANGED asked
MCheck == (\E ok \in BOOLEAN : Check(ok)) /\ Note([op |-> "check"]) /\ UNCHANGED asked
MRefine == levels = 0 /\ Len(log) > 2 /\ Refine /\ Note([op |-> "refine"]) /\ UNCHANGED asked
MSolve == \E sl \in BOOLEAN : Len(log) > 2 /\ Solve /\ asked' = sl /\ Note([op |-> "solve", adv |-> IF sl THEN "SL" ELSE "DG"])
MEnd == (Solved(asked) \/ NotSolved(asked)) /\ UNCHANGED <<log, asked>>
MNext == MPeriodic \/ MWall \/ MCheck \/ MRefine \/ MSolve \/ MEnd
MSpec == MInit /\ [][MNext]_mvars
\* a label that is described stays described as it is
Kept == [][\A x \in DOMAIN coll : x \in DOMAIN coll' /\ coll'[x] = coll[x]]_mvars
JoinedSides == \A x \in Per : Labelled(x) \subseteq made
SolvedMeansPosed == TRUE
Emit == (phase = "over" \/ Len(log) = MaxOps) => PrintT("@@" \o ToJson([labels |-> [s \in 1..4 |-> labels[s - 1]], skew |-> skewed, ops |-> log]))
View == <<bvars, asked, Len(log)>>
=============================================================================
