---------------------------- MODULE StreamModel ----------------------------
(* Populations travel backwards through boxes of all kinds, step after step. *)
(* All places that can be reached are explored.  The paths of streaming are  *)
(* checked for what has to be true of them whatever the box.                 *)
EXTENDS Stream, TLC
CONSTANTS Steps, Cells       \* time steps (as strings); starting points per axis and half as many
VARIABLES at, q, done
mvars == <<box, set, field, at, q, done>>
D2Q9 == [c |-> << <<"0","0">>, <<"1","0">>, <<"0","1">>, <<"-1","0">>, <<"0","-1">>, <<"1","1">>, <<"-1","1">>, <<"-1","-1">>, <<"1","-1">> >>,
         w |-> << Div(4,9), Div(1,9), Div(1,9), Div(1,9), Div(1,9), Div(1,36), Div(1,36), Div(1,36), Div(1,36) >>,
         opp |-> <<1, 4, 5, 2, 3, 8, 9, 6, 7>>, cs2 |-> Div(1,3)]
Still0 == [a |-> <<"0","0">>, b |-> << <<"0","0">>, <<"0","0">> >>, t |-> <<"0","0">>]
Moving == [a |-> <<"0.05","-0.03">>, b |-> << <<"0.01","0.02">>, <<"0","-0.01">> >>, t |-> <<"0","0">>]
Pairs == {<<"P","P">>, <<"W","W">>, <<"W","E">>, <<"E","W">>, <<"B","B">>, <<"N","N">>}
Allowed(k) == LET s == {k[i] : i \in 1..4} IN s \in SUBSET {"P","W","E"} \/ s \in SUBSET {"P","B"} \/ s \in SUBSET {"P","N"}
Boxes == {[D |-> 2, lo |-> <<"0","0">>, hi |-> <<"1","1.5">>, kind |-> x \o y, wall |-> [s \in 1..4 |-> w], dt |-> dt, time |-> "0", temp |-> th, tol |-> "1e-9"] :
            x \in Pairs, y \in Pairs, w \in {Still0, Moving}, dt \in Steps, th \in {"1", "1.2"}}
Grid == {Div(i, 2 * Cells) : i \in 0..2 * Cells}
Start == {<<x, y>> : x \in {Div(i, 2 * Cells) : i \in 0..2 * Cells}, y \in {Div(3 * i, 4 * Cells) : i \in 0..2 * Cells}}
MInit == /\ box \in {b \in Boxes : Allowed(b.kind) /\ ((\E s \in 1..4 : b.kind[s] \in {"W","E"}) \/ (b.wall[1] = Still0)) /\ (b.temp = "1" \/ \E s \in 1..4 : b.kind[s] = "E")}
         /\ set = D2Q9 /\ field = [k |-> "poly", exps |-> << <<0, 0>> >>, coef |-> [i \in 1..9 |-> <<"0">>]]
         /\ at \in Start /\ q \in 2..9 /\ done = FALSE
All == Ends(at, q, q, box.dt, <<>>, Fuel)
Round(p) == [d \in 1..2 |-> IF Near(p[d], box.lo[d], "1e-12") THEN box.lo[d] ELSE IF Near(p[d], box.hi[d], "1e-12") THEN box.hi[d] ELSE Div(Floor(Add(Mul(p[d], 1000), "0.5")), 1000)]
Travel == ~done /\ \E e \in All : e.k = "in" /\ at' = Round(e.p) /\ q' = e.q /\ UNCHANGED <<box, set, field, done>>
Arrive == ~done /\ \E e \in All : e.k # "in" /\ done' = TRUE /\ UNCHANGED <<box, set, field, at, q>>
MNext == Travel \/ Arrive
MSpec == MInit /\ [][MNext]_mvars
-----------------------------------------------------------------------------
Here(p, r) == \E g \in Images(p) : \A d \in 1..2 : Near(ImageOf(p, g)[d], r[d], "1e-9")
OnSide(p) == \E d \in 1..2 : Near(p[d], box.lo[d], "1e-9") \/ Near(p[d], box.hi[d], "1e-9")
(* every path ends, inside the box *)
Somewhere == ~done => All # {}
Inside == InBox(at) /\ \A e \in All : InBox(e.p)
(* walls at rest add nothing, whatever the path *)
Resting == box.wall[1] = Still0 => \A e \in All : e.k = "in" => Near(e.add, 0, "1e-14")
(* a closed or periodic box loses no population: no path ends at a side *)
Closed == (\A s \in 1..4 : Kind(s) \in {"P", "W"}) => \A e \in All : e.k = "in"
(* each kind of end belongs to a side of the box *)
Sides == \A e \in All : (e.k = "set" => \E s \in 1..4 : Kind(s) = "E") /\ (e.k = "copy" => \E s \in 1..4 : Kind(s) = "B") /\ (e.k = "same" => \E s \in 1..4 : Kind(s) = "N")
(* what walls add does not depend on the direction in which a path is followed, so nothing is gained there and back *)
Reverse(e) == \E r \in Ends(e.p, set.opp[e.q], set.opp[e.q], box.dt, <<>>, Fuel) :
                 r.k = "in" /\ (Here(r.p, at) \/ Here(at, r.p)) /\ r.q = set.opp[q] /\ Near(r.add, e.add, "1e-12")
(* a path that meets two sides in the same point may leave either of them first: it is reversed up to that choice *)
Caught(e) == Cardinality(All) > 1 \/ Cardinality(Ends(e.p, set.opp[e.q], set.opp[e.q], box.dt, <<>>, Fuel)) > 1
Reversible == (~done /\ ~OnSide(at)) => \A e \in All : (e.k = "in" /\ ~OnSide(e.p)) => Reverse(e) \/ Caught(e)
(* away from corners a path has one end *)
OneEnd == (\A s \in 1..4 : Kind(s) = "P") => \A e, f \in All : e.q = f.q /\ (Here(e.p, f.p) \/ Here(f.p, e.p))
(* what flows in has density one and the velocity of the inflow *)
Entering == \A s \in 1..4 : Kind(s) = "E" =>
    LET u == WallU(s, at, 0) f == [r \in 1..9 |-> Inflow(r, u, box.temp)] IN
    Near(Sum(f), 1, "1e-12") /\ \A d \in 1..2 : Near(Dot(f, [r \in 1..9 |-> set.c[r][d]]), u[d], "1e-12")
=============================================================================
