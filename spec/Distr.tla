-------------------------------- MODULE Distr --------------------------------
(* Sets of populations: one vector of N numbers per velocity.  Ghosted sets  *)
(* (dg = FALSE) also carry a second view for other processes, which is       *)
(* brought up to date by certain operations only.                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT N
VARIABLE set      \* name -> [Q, dg, v (0..Q-1 -> 1..N -> Int), gh (the same)]
dvars == <<set>>
Zero == [i \in 1..N |-> 0]
Live == DOMAIN set
Put(o, s) == set' = [x \in Live \cup {o} |-> IF x = o THEN s ELSE set[x]]
Synced(s) == [s EXCEPT !.gh = s.v]
\* in the discontinuous kind both views are one
Norm(s) == IF s.dg THEN Synced(s) ELSE s
Make(o, q, dg) == Put(o, [Q |-> q, dg |-> dg, v |-> [k \in 0..(q - 1) |-> Zero], gh |-> [k \in 0..(q - 1) |-> Zero]])
Copy(o, p) == p \in Live /\ Put(o, set[p])
Assign(o, p, r) ==
    /\ o \in Live /\ p \in Live
    /\ IF set[o].Q = set[p].Q THEN r = "ok" /\ Put(o, [set[o] EXCEPT !.v = set[p].v, !.gh = set[p].v])
       ELSE r = "refused" /\ UNCHANGED set
Write(o, q, i, v, r) ==
    /\ o \in Live
    /\ IF q < set[o].Q THEN r = "ok" /\ Put(o, Norm([set[o] EXCEPT !.v[q][i] = v])) ELSE r = "refused" /\ UNCHANGED set
Update(o) == o \in Live /\ Put(o, Synced(set[o]))
SetF0(o, x) == o \in Live /\ Put(o, Norm([set[o] EXCEPT !.v[0] = x]))
SetStream(o, p, r) ==
    /\ o \in Live /\ p \in Live
    /\ IF set[o].Q = set[p].Q
       THEN /\ r = "ok"
            /\ LET w(u) == [k \in 0..(set[o].Q - 1) |-> IF k = 0 THEN u[0] ELSE set[p].v[k]] IN
               Put(o, [set[o] EXCEPT !.v = w(set[o].v), !.gh = w(set[o].gh)])
       ELSE r = "refused" /\ UNCHANGED set
FromVectors(o, q, x) ==
    LET v == [k \in 0..(q - 1) |-> [m \in 1..N |-> x[((k + m - 1) % Len(x)) + 1] + 2 * k]] IN
    Put(o, [Q |-> q, dg |-> TRUE, v |-> v, gh |-> v])
Scale(o, c) == o \in Live /\ LET v == [k \in DOMAIN set[o].v |-> [i \in 1..N |-> c * set[o].v[k][i]]] IN Put(o, [set[o] EXCEPT !.v = v, !.gh = v])
Equals(o, p, eq) == o \in Live /\ p \in Live /\ eq = (set[o].Q = set[p].Q /\ set[o].v = set[p].v) /\ UNCHANGED set
Beyond(o, q, r) == o \in Live /\ r = (IF q < set[o].Q THEN "ok" ELSE "refused") /\ UNCHANGED set
Shape == \A o \in Live : LET s == set[o] IN DOMAIN s.v = 0..(s.Q - 1) /\ DOMAIN s.gh = 0..(s.Q - 1) /\ (s.dg => s.gh = s.v)
=============================================================================
