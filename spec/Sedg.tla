-------------------------------- MODULE Sedg --------------------------------
(* The spectral element discontinuous Galerkin advection operator on boxes:  *)
(* minus velocity times gradient in each cell; at faces through which a      *)
(* population enters a cell, the difference to the value outside is added,   *)
(* divided by the width that belongs to the face node.  Outside is the       *)
(* neighbour, the cell across a periodic side, or the wall, which returns    *)
(* the opposite population plus the momentum of the wall.                    *)
EXTENDS Integers, Sequences, FiniteSets, Real
VARIABLES box, set, nodes, cells, poly
D == box.D
Q == Len(set.c)
N == Len(nodes.x)                         \* nodes per axis
Pts == [1..D -> 0..N - 1]
Stride(d) == IF d = 1 THEN 1 ELSE IF d = 2 THEN N ELSE N * N
Index(i) == 1 + i[1] + i[2] * N + (IF D = 3 THEN i[3] * N * N ELSE 0)
Width(cl, d) == Sub(cl.hi[d], cl.lo[d])
Same(a, b) == Near(a, b, "1e-9")
Line(cl, q, i, d) == [k \in 1..N |-> cl.v[q][Index([i EXCEPT ![d] = k - 1])]]
Slope(cl, q, i, d) == Div(Dot(nodes.d[i[d] + 1], Line(cl, q, i, d)), Width(cl, d))
At(cl, i) == [d \in 1..D |-> Add(cl.lo[d], Mul(nodes.x[i[d] + 1], Width(cl, d)))]
(* the cell at the other side of face (d, side); 0 at a wall *)
Across(cl, d, side) ==
    LET edge == IF side = 1 THEN Same(cl.lo[d], box.lo[d]) ELSE Same(cl.hi[d], box.hi[d])
        wall == edge /\ box.kind[2 * (d - 1) + side] # "P"
        there(o) == IF side = 1 THEN Same(o.hi[d], IF edge THEN box.hi[d] ELSE cl.lo[d]) ELSE Same(o.lo[d], IF edge THEN box.lo[d] ELSE cl.hi[d])
        fits(o) == there(o) /\ \A e \in 1..D : e = d \/ (Same(o.lo[e], cl.lo[e]) /\ Same(o.hi[e], cl.hi[e]))
    IN IF wall THEN 0 ELSE CHOOSE k \in DOMAIN cells : fits(cells[k])
WallU(s, p) == LET w == box.wall[s] IN [i \in 1..D |-> Add(w.a[i], Dot(w.b[i], p))]
Outside(cl, q, i, d, side) ==
    LET k == Across(cl, d, side) IN
    IF k # 0 THEN cells[k].v[q][Index([i EXCEPT ![d] = IF side = 1 THEN N - 1 ELSE 0])]
    ELSE Add(cl.v[set.opp[q]][Index(i)], Div(Mul(Mul(2, set.w[q]), Dot(set.c[q], WallU(2 * (d - 1) + side, At(cl, i)))), set.cs2))
Enters(q, d, side) == IF side = 1 THEN Lt(0, set.c[q][d]) ELSE Lt(set.c[q][d], 0)
(* upwind flux; the central flux takes half of the difference at all faces *)
Part(q, d, side) == IF Lt(Abs(set.c[q][d]), "1e-9") THEN "0" ELSE IF box.central THEN IF Enters(q, d, side) THEN "0.5" ELSE "-0.5" ELSE IF Enters(q, d, side) THEN "1" ELSE "0"
Lift(cl, q, i, d, side) ==
    IF i[d] # (IF side = 1 THEN 0 ELSE N - 1) \/ Part(q, d, side) = "0" THEN 0
    ELSE Div(Mul(Mul(Part(q, d, side), Abs(set.c[q][d])), Sub(Outside(cl, q, i, d, side), cl.v[q][Index(i)])), Mul(nodes.w[1], Width(cl, d)))
Change(cl, q, i) == Sum([k \in 1..2 * D |-> LET d == (k + 1) \div 2 IN
                       IF k % 2 = 1 THEN Sub(Lift(cl, q, i, d, 1), Mul(set.c[q][d], Slope(cl, q, i, d))) ELSE Lift(cl, q, i, d, 2)])
(* r: the result of the operator in a cell, for the moving populations *)
ChangeOk(cl, r) == \A q \in 2..Q : \A i \in Pts : Near(r[q][Index(i)], Change(cl, q, i), box.tol)
Volume(cl) == IF D = 2 THEN Mul(Width(cl, 1), Width(cl, 2)) ELSE Mul(Mul(Width(cl, 1), Width(cl, 2)), Width(cl, 3))
Weights == IF D = 2 THEN Outer(nodes.w, nodes.w) ELSE Outer(Outer(nodes.w, nodes.w), nodes.w)
Mass(cl, r) == [q \in 1..Q |-> IF q = 1 THEN "0" ELSE Mul(Volume(cl), Dot(Weights, r[q]))]
(* gradient of a polynomial field *)
Slopes(q, d, p) == LET e == [k \in DOMAIN poly.exps |-> [poly.exps[k] EXCEPT ![d] = IF @ = 0 THEN 0 ELSE @ - 1]]
                   IN Dot([k \in DOMAIN poly.exps |-> Mul(poly.exps[k][d], poly.coef[q][k])], Mono(e, p))
Gradient(p, r) == \A q \in 2..Q : Near(r[q], Opp(Sum([d \in 1..D |-> Mul(set.c[q][d], Slopes(q, d, p))])), box.tol)
=============================================================================
