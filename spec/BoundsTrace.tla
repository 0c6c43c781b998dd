----------------------------- MODULE BoundsTrace -----------------------------
EXTENDS Bounds, TraceLib
VARIABLES l, sl
tvars == <<bvars, l, sl>>
ev == Trace[l]
Text(p) == ToString(p.a) \o "-" \o ToString(p.b) \o "-" \o ToString(p.dir)
B(x) == IF x THEN 1 ELSE 0
Agree ==
    LET n == Len(ev.has) IN
    /\ n > 0 /\ Len(ev.kind) = n /\ Len(ev.per) = n /\ Len(ev.isp) = n /\ Len(ev.own) = n
    /\ \A i \in 1..n : LET x == i - 1 IN
         /\ ev.has[i] = B(~Free(x)) /\ ev.kind[i] = Kind(x)
         /\ ev.isp[i] = (IF Free(x) THEN -1 ELSE B(x \in Per))
         /\ ev.per[i] = (IF x \in Per THEN Text(coll[x]) ELSE "none")
         /\ ev.own[i] = (IF Free(x) THEN -2 ELSE IF x \in Per THEN -1 ELSE x)
    /\ ToSet(ev.keys) = DOMAIN coll /\ Len(ev.keys) = Cardinality(DOMAIN coll) /\ ev.n = Cardinality(DOMAIN coll)
    /\ ToSet(ev.pkeys) = Per /\ Len(ev.pkeys) = Cardinality(Per) /\ ev.np = Cardinality(Per)
TraceInit == l = 1 /\ sl = TRUE /\ BInit(<<>>, FALSE)
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ /\ ev.e = "Mesh" /\ UNCHANGED sl
          /\ labels' = [s \in 0..(2 * ev.D - 1) |-> ev.labels[s + 1]] /\ skewed' = ev.skew /\ levels' = 0 /\ made' = {} /\ coll' = <<>> /\ phase' = "open"
       \/ ev.e = "TryPeriodic" /\ phase = "open" /\ UNCHANGED <<bvars, sl>>
       \/ ev.e = "Periodic" /\ Periodic(ev.a, ev.b, ev.dir, ev.r) /\ UNCHANGED sl
       \/ ev.e = "Wall" /\ Wall(ev.kind, ev.id, ev.r) /\ UNCHANGED sl
       \/ ev.e = "Refine" /\ Refine /\ UNCHANGED sl
       \/ ev.e = "Check" /\ Check(ev.ok) /\ UNCHANGED sl
       \/ ev.e = "Look" /\ phase = "open" /\ Agree /\ UNCHANGED <<bvars, sl>>
       \/ ev.e = "Solve" /\ Solve /\ sl' = ev.sl
       \/ ev.e = "Solved" /\ Solved(sl) /\ UNCHANGED sl
       \/ ev.e = "Exited" /\ ev.how = "done" /\ phase \in {"open", "over"} /\ UNCHANGED <<bvars, sl>>
       \/ ev.e = "Exited" /\ ev.how = "refused" /\ NotSolved(sl) /\ UNCHANGED sl
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
