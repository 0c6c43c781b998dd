---------------------------- MODULE PeriodicTrace ----------------------------
(* Which cells face each other across periodic boundaries of a box.          *)
EXTENDS Integers, Sequences, FiniteSets, Real, TraceLib
VARIABLES l, box, faces   \* the box; the faces seen so far (one event per face: side and centre)
tvars == <<l, box, faces>>
ev == Trace[l]
D == box.D
IsP(d) == box.periodic[d + 1] = "P"
Mismatch(d) == \E k \in 1..Len(box.local) : box.local[k] = d      \* refined at the lower side only
Image(id) == IF id % 2 = 0 THEN id + 1 ELSE id - 1
Shift(id) == IF id % 2 = 0 THEN box.size[id \div 2 + 1] ELSE Opp(box.size[id \div 2 + 1])
Moved(id, p, q) == \A d \in 1..D : Near(q[d], IF d = id \div 2 + 1 THEN Add(p[d], Shift(id)) ELSE p[d], "1e-9")
Along(id, p, q) == \A d \in 1..D : d # id \div 2 + 1 => Near(q[d], p[d], "1e-9")
Pos(p) == [d \in 1..D |-> Floor(Add(Mul(p[d], "1000000"), "0.5"))]
OnlyThis(id) == \A k \in 1..Len(ev.in) : ev.in[k] # -1 => ev.in[k] \div 2 = id \div 2
Listed(id) == \E k \in 1..Len(ev.in) : ev.in[k] = id
Paired ==
    LET id == ev.id  d == id \div 2 IN
    /\ ev.e = "Pair" /\ IsP(d)
    /\ \/ Mismatch(d) /\ ev.r = "unpaired" /\ UNCHANGED faces
       \/ /\ ev.r = "ok" /\ ev.moved = "ok"
          /\ ev.oid = Image(id)
          /\ Moved(id, ev.face, ev.oface) /\ Along(id, ev.at, ev.oat) /\ ev.level = ev.olevel
          /\ Moved(id, ev.p, ev.q) /\ NearSeq(ev.back, ev.p, "1e-9")
          /\ Listed(id) /\ Listed(Image(id)) /\ OnlyThis(id)
          /\ <<id, Pos(ev.face)>> \notin faces      \* every face once
          /\ faces' = faces \cup {<<id, Pos(ev.face)>>}
Plain == ev.e = "Plain" /\ ~IsP(ev.id \div 2) /\ (\A k \in 1..Len(ev.in) : ev.in[k] = -1) /\ UNCHANGED faces
\* the faces of opposite sides correspond one to one
Closed == \A x \in faces : Cardinality({y \in faces : y[1] = x[1]}) = Cardinality({y \in faces : y[1] = Image(x[1])})
SomePeriodic == \E d \in 0..(D - 1) : IsP(d) /\ ~Mismatch(d)
TraceInit == l = 1 /\ box = [D |-> 0] /\ faces = {}
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Box" /\ box' = ev /\ faces' = {}
       \/ ev.e = "Impossible" /\ ((ev.dir = 0 /\ box.skew) \/ Mismatch(ev.dir)) /\ UNCHANGED <<box, faces>>
       \/ Paired /\ UNCHANGED box
       \/ Plain /\ UNCHANGED box
       \/ ev.e = "End" /\ ~(box.skew /\ IsP(0)) /\ Closed /\ (SomePeriodic => faces # {}) /\ UNCHANGED <<box, faces>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
