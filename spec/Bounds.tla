------------------------------- MODULE Bounds -------------------------------
(* The boundaries of a flow problem.  The mesh is a box whose sides (2 per   *)
(* axis: 2a lower, 2a+1 upper) carry labels; boundary conditions are added   *)
(* one after the other, each for a label (two labels: periodic).             *)
EXTENDS Integers, Sequences, FiniteSets
VARIABLES labels,   \* side -> label
          skewed,   \* the upper x side does not match the lower one
          levels,   \* the mesh was refined (number of times)
          made,     \* sides over which a periodic link exists in the mesh
          coll,     \* label -> [kind, a, b, dir]
          phase     \* "open", "solving", "over"
bvars == <<labels, skewed, levels, made, coll, phase>>
Sides == DOMAIN labels
Labelled(x) == {s \in Sides : labels[s] = x}
Kinds == {"wall", "bounce", "inflow", "open", "thermal"}
\* two labels can be joined: each names one side, and the sides face each other across the axis
Joinable(a, b, d) ==
    /\ a # b /\ levels = 0
    /\ \/ Labelled(a) = {2 * d} /\ Labelled(b) = {2 * d + 1}
       \/ Labelled(a) = {2 * d + 1} /\ Labelled(b) = {2 * d}
    /\ (skewed => d # 0)
Free(x) == x \notin DOMAIN coll
With(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
BInit(l, s) == labels = l /\ skewed = s /\ levels = 0 /\ made = {} /\ coll = <<>> /\ phase = "open"
(* r: "ok", "impossible" (the sides cannot be joined), "refused" (a label is taken) *)
Periodic(a, b, d, r) ==
    /\ phase = "open"
    /\ LET ss == Labelled(a) \cup Labelled(b)
           p  == [kind |-> "periodic", a |-> a, b |-> b, dir |-> d] IN
       IF ~Joinable(a, b, d) THEN r = "impossible" /\ UNCHANGED <<made, coll>>
       ELSE IF ~Free(a) \/ ~Free(b)
            THEN r \in {"impossible", "refused"} /\ made' = made \cup ss /\ UNCHANGED coll
            ELSE \/ r = "ok" /\ made' = made \cup ss /\ coll' = With(coll, [x \in {a, b} |-> p])
                 \/ r = "impossible" /\ ss \cap made # {} /\ UNCHANGED <<made, coll>>
    /\ UNCHANGED <<labels, skewed, levels, phase>>
Wall(k, x, r) ==
    /\ phase = "open"
    /\ IF Free(x) THEN r = "ok" /\ coll' = With(coll, [y \in {x} |-> [kind |-> k, a |-> x, b |-> x, dir |-> -1]])
                  ELSE r = "refused" /\ UNCHANGED coll
    /\ UNCHANGED <<labels, skewed, levels, made, phase>>
Refine == phase = "open" /\ levels' = levels + 1 /\ UNCHANGED <<labels, skewed, made, coll, phase>>
\* every side belongs to a condition and every condition to a side
Posed == {labels[s] : s \in Sides} = DOMAIN coll
Check(ok) == phase = "open" /\ ok = Posed /\ UNCHANGED bvars
\* a flow solver accepts the problem; the discontinuous Galerkin scheme knows walls with a velocity only
Acceptable(sl) == Posed /\ levels = 0 /\ (sl \/ \A x \in DOMAIN coll : coll[x].kind \in {"periodic", "wall"})
Solve == phase = "open" /\ phase' = "solving" /\ UNCHANGED <<labels, skewed, levels, made, coll>>
Solved(sl) == phase = "solving" /\ Acceptable(sl) /\ phase' = "over" /\ UNCHANGED <<labels, skewed, levels, made, coll>>
NotSolved(sl) == phase = "solving" /\ ~Acceptable(sl) /\ phase' = "over" /\ UNCHANGED <<labels, skewed, levels, made, coll>>
(* what the queries answer *)
Kind(x) == IF Free(x) THEN "none" ELSE IF coll[x].kind = "wall" THEN "wall" ELSE coll[x].kind
Per == {x \in DOMAIN coll : coll[x].kind = "periodic"}
\* ---------------------------------------------------------------- what always holds
PairedBoth == \A x \in Per : LET p == coll[x] IN x \in {p.a, p.b} /\ p.a # p.b /\ coll[p.a] = p /\ coll[p.b] = p
OneCondition == \A x \in DOMAIN coll \ Per : coll[x].a = x
=============================================================================
