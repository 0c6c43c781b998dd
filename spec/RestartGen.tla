----------------------------- MODULE RestartGen -----------------------------
(* Random histories of the model, written out as scenarios.                  *)
EXTENDS RestartModel, Json
VARIABLE log
gvars == <<mvars, log>>
GInit == Init /\ log = <<>>
GBegin == MBegin /\ log' = Append(log, run')
GNext == GBegin \/ ((MFresh \/ MResume \/ MAdvance \/ MEnd \/ MRefuse \/ MLeave) /\ UNCHANGED log)
GSpec == GInit /\ [][GNext]_gvars
Emit == (runs = MaxRuns /\ run.phase \in {"over"}) => PrintT("@@" \o ToJson(log))
=============================================================================
