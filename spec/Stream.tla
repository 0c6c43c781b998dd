------------------------------- MODULE Stream -------------------------------
(* The semi-Lagrangian streaming step in a box.  A population at x came from *)
(* x - c dt: follow the path back from x; it jumps at periodic sides and     *)
(* meets walls, which reverse it, end it, or send it the other way.          *)
EXTENDS Integers, Sequences, FiniteSets, Real
VARIABLES box, set, field    \* geometry, sides and time step; velocity set; the populations before the step
D == box.D
Q == Len(set.c)
Side(d, c) == 2 * (d - 1) + (IF Lt(0, c) THEN 1 ELSE 2)     \* the side a path backwards along c meets in axis d
Kind(s) == box.kind[s]
Dot2(a, b) == Dot(a, b)
\* wall velocity a + B x + c t of a side, at a place and time
WallU(s, p, t) == LET w == box.wall[s] IN [i \in 1..D |-> Add(w.a[i], Add(Dot(w.b[i], p), Mul(w.t[i], t)))]
\* time until the path backwards along c from p leaves the box in axis d (c[d] # 0)
Reach(p, c, d) == Div(Sub(p[d], IF Lt(0, c[d]) THEN box.lo[d] ELSE box.hi[d]), c[d])
Moves(c) == {d \in 1..D : ~Near(c[d], 0, "1e-12")}
Back(p, c, tau) == VSub(p, VScale(tau, c))
Snap(p, d, c) == [p EXCEPT ![d] = IF Lt(0, c[d]) THEN box.lo[d] ELSE box.hi[d]]
Jump(p, d, c) == [p EXCEPT ![d] = IF Lt(0, c[d]) THEN box.hi[d] ELSE box.lo[d]]
Eps(left) == Mul("1e-10", Add(left, box.dt))
(* All ends of the path: [k |-> "in", p, q, add] the value of population q at *)
(* p plus add; "set" the value add; "copy" what streaming gives the opposite *)
(* population at the same point.  Where several sides are met at once, any   *)
(* of them counts.  a: the population wanted, q: the present one, n: fuel     *)
(* equilibrium of density one, to fourth order, velocity u and temperature th *)
Inflow(r, u, temp) ==
    LET c == set.c[r]  th == Sub(temp, 1)
        x == Div(Dot(c, u), set.cs2)  b == Div(Dot(u, u), set.cs2)  e == Div(Dot(c, c), set.cs2)
        x2 == Mul(x, x)
        h2 == Sub(x2, b)
        h3 == Sub(Mul(x2, x), Mul(3, Mul(x, b)))
        h4 == Add(Sub(Mul(x2, x2), Mul(6, Mul(x2, b))), Mul(3, Mul(b, b)))
        t2 == Mul(th, Sub(e, D))
        t3 == Mul(Mul(3, th), Mul(x, Sub(e, D + 2)))
        t4 == Add(Mul(Mul(6, th), Sub(Mul(x2, Sub(e, D + 4)), Mul(b, Sub(e, D + 2)))),
                  Mul(Mul(3, Mul(th, th)), Add(Mul(e, Sub(e, 2 * D + 4)), D * D + 2 * D)))
    IN Mul(set.w[r], Sum(<<1, x, Div(Add(h2, t2), 2), Div(Add(h3, t3), 6), Div(Add(h4, t4), 24)>>))
Total(s) == IF s = <<>> THEN "0" ELSE Sum(s)
Part(s) == {Total([i \in 1..Len(s) |-> IF i \in t THEN s[i] ELSE "0"]) : t \in SUBSET (1..(IF Len(s) > 5 THEN 5 ELSE Len(s)))}
RECURSIVE Ends(_, _, _, _, _, _)
\* a link that lies outside the box in both directions (at corners) leaves the population as it is
Stuck(p, q, left) == LET out(c) == \E d \in Moves(c) : Kind(Side(d, c[d])) \in {"W", "B"} /\ Le(Reach(p, c, d), Eps(left))
                     IN out(set.c[q]) /\ out(set.c[set.opp[q]])
Ends(p, a, q, left, add, n) ==
    IF n > 4 /\ Stuck(p, q, left) \* unless a side of another kind is met in the same place
    THEN {[k |-> "in", p |-> p, q |-> a, add |-> "0"]} \cup {e \in Ends(p, a, q, left, add, 4) : e.k = "set"} ELSE
    LET c == set.c[q]  m == Moves(c)
        first == IF m = {} THEN left ELSE MinOf([k \in 1..Cardinality(m) |-> Reach(p, c, CHOOSE d \in m : Cardinality({e \in m : e < d}) = k - 1)])
    IN IF Le(Sub(left, Eps(left)), first) \/ m = {} THEN {[k |-> "in", p |-> Back(p, c, left), q |-> q, add |-> Total(add)]}
       ELSE IF n = 0 THEN {}
       ELSE UNION {LET s == Side(d, c[d])
                       at == Snap(Back(p, c, first), d, c)
                       rest == Sub(left, first)
                       when == Add(box.time, rest)
                       o == set.opp[q] IN
                   CASE Kind(s) = "P" -> Ends(Jump(at, d, c), a, q, rest, add, n - 1)
                     [] Kind(s) = "W" -> Ends(at, a, o, rest, Append(add, Div(Mul(Mul(2, set.w[q]), Dot(c, WallU(s, at, when))), set.cs2)), n - 1)
                     \* a path that was turned round before it met the inflow may keep either direction
                     \* and may keep what walls before the inflow contributed
                     [] Kind(s) = "E" -> {[k |-> "set", p |-> at, q |-> r, add |-> Add(y, Inflow(r, WallU(s, at, when), box.temp))] : r \in {a, q}, y \in Part(add)}
                     [] Kind(s) = "B" -> {[k |-> "copy", p |-> at, q |-> o, add |-> "0"]}
                     [] Kind(s) = "N" -> {[k |-> "same", p |-> at, q |-> q, add |-> "0"]}
                     [] OTHER -> {}
                   : d \in {d \in m : Le(Reach(p, c, d), Add(first, Eps(left)))}}
(* a point on a periodic side is also the point on the other side *)
Images(p) == LET near(d, s) == Near(p[d], s, "1e-9") IN
             {q \in [1..D -> {"lo", "hi", "in"}] : \A d \in 1..D : q[d] # "in" => (Kind(2 * d) = "P" /\ (near(d, box.lo[d]) \/ near(d, box.hi[d])))}
ImageOf(p, q) == [d \in 1..D |-> IF q[d] = "lo" THEN box.lo[d] ELSE IF q[d] = "hi" THEN box.hi[d] ELSE p[d]]
(* the population q at p, before the step *)
InCell(cl, p) == \A d \in 1..D : Le(Sub(cl.lo[d], "1e-9"), p[d]) /\ Le(p[d], Add(cl.hi[d], "1e-9"))
Unit(cl, p, d) == Div(Sub(p[d], cl.lo[d]), Sub(cl.hi[d], cl.lo[d]))
Shape(cl, p) == LET b(d) == Lagrange(field.nodes, Unit(cl, p, d)) IN
                IF D = 2 THEN Outer(b(1), b(2)) ELSE Outer(Outer(b(1), b(2)), b(3))
Value(q, p) == IF field.k = "poly" THEN Dot(field.coef[q], Mono(field.exps, p))
               ELSE LET cl == field.cells[CHOOSE i \in DOMAIN field.cells : InCell(field.cells[i], p)] IN Dot(cl.v[q], Shape(cl, p))
Agree(v, w) == Near(v, w, box.tol)
ValueOk(q, p, add, v) == \E g \in Images(p) : Agree(v, Add(Value(q, ImageOf(p, g)), add))
InBox(p) == \A d \in 1..D : Le(Sub(box.lo[d], "1e-9"), p[d]) /\ Le(p[d], Add(box.hi[d], "1e-9"))
Wrap(p) == [d \in 1..D |-> IF Kind(2 * d) # "P" THEN p[d]
              ELSE Sub(p[d], Mul(Sub(box.hi[d], box.lo[d]), Floor(Div(Sub(p[d], box.lo[d]), Sub(box.hi[d], box.lo[d])))))]
(* v: the values after the step, at x, of all populations *)
Fuel == 60
After(x, a, v) ==
    \E e \in Ends(x, a, a, box.dt, <<>>, Fuel) :
       CASE e.k = "in" -> ValueOk(e.q, e.p, e.add, v[a])
         [] e.k = "set" -> Agree(v[a], e.add)
         [] e.k = "copy" -> Agree(v[a], v[e.q])
         [] e.k = "same" -> LET p == Wrap(Back(x, set.c[set.opp[a]], box.dt)) IN InBox(p) => ValueOk(a, p, 0, v[a])  \* open at both ends of the link: not specified
(* a uniform flow between walls that move with it *)
Still(x, v) == \A q \in 1..Q : Agree(v[q], Value(q, x))
Streamed(x, v) == /\ Agree(v[1], Value(1, x))
                  /\ \A a \in 2..Q : After(x, a, v)
=============================================================================
