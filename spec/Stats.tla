-------------------------------- MODULE Stats --------------------------------
(* Statistics of a flow: integrals over the cells by the quadrature of the   *)
(* nodes, extrema over the nodes, averages over planes; and, for fields that *)
(* are polynomials, the exact integrals over the box.                        *)
EXTENDS Integers, Sequences, Real, Fields
VARIABLES box, set, nodes, flow,
          tot,    \* sums over the cells of the present state
          vals, old, resid, \* node values now and at the last look, change between the last two looks
          plane,  \* values in the planes
          rows, turb, plan, hot \* the rows that belong to the states so far
D == box.D
N == Len(nodes.x)
Q == Len(set.w)
Width(cl, d) == Sub(cl.hi[d], cl.lo[d])
Volume(cl) == IF D = 2 THEN Mul(Width(cl, 1), Width(cl, 2)) ELSE Mul(Mul(Width(cl, 1), Width(cl, 2)), Width(cl, 3))
(* nodes of an element: positions, weights, derivatives along each axis *)
Unit(n) == [i \in 1..n |-> [k \in 1..n |-> IF i = k THEN "1" ELSE "0"]]
Element(x, dim) ==
    LET w == LagrangeW(x) g == LagrangeD(x) I == Unit(Len(x)) IN
    [x |-> x, w |-> IF dim = 2 THEN Outer(w, w) ELSE Outer(Outer(w, w), w),
     g |-> IF dim = 2 THEN <<Kron(g, I), Kron(I, g)>> ELSE <<Kron(g, Kron(I, I)), Kron(I, Kron(g, I)), Kron(I, Kron(I, g))>>]
Slope1(cl, v, d) == VScale(Div(1, Width(cl, d)), MatVec(nodes.g[d], v))
One(v) == [k \in DOMAIN v |-> "1"]
RECURSIVE VSum(_)
VSum(s) == IF Len(s) = 1 THEN s[1] ELSE VAdd(s[1], VSum(Tail(s)))
Speed2(u) == VSum([d \in 1..D |-> VMul(u[d], u[d])])
(* without factor 1/2; in three dimensions the squares of all slopes *)
Spin2(cl) ==
    IF D = 2 THEN LET w == VSub(Slope1(cl, cl.u[2], 1), Slope1(cl, cl.u[1], 2)) IN VMul(w, w)
    ELSE VSum([k \in 1..9 |-> LET s == Slope1(cl, cl.u[1 + ((k - 1) \div 3)], 1 + ((k - 1) % 3)) IN VMul(s, s)])
Disorder(cl) == VScale("-1", VSum([q \in 1..Q |-> VMul(cl.f[q], [k \in DOMAIN cl.f[q] |-> Log(Div(cl.f[q][k], set.w[q]))])]))
(* the quantities of the second table: density, its slopes, velocity, its slopes *)
Observed(cl) ==
    <<cl.rho>> \o [d \in 1..D |-> Slope1(cl, cl.rho, d)] \o [d \in 1..D |-> cl.u[d]]
    \o [k \in 1..D * D |-> Slope1(cl, cl.u[1 + ((k - 1) \div D)], 1 + ((k - 1) % D))]
Curl2(o) == LET g(i, j) == o[1 + 2 * D + (i - 1) * D + j] sq(a, b) == LET w == VSub(a, b) IN VMul(w, w) IN
    IF D = 2 THEN sq(g(2, 1), g(1, 2)) ELSE VSum(<<sq(g(2, 1), g(1, 2)), sq(g(3, 2), g(2, 3)), sq(g(1, 3), g(3, 1))>>)
Pairs(o) == [k \in 1..((Len(o) * (Len(o) + 1)) \div 2) |-> LET i == CHOOSE m \in 1..Len(o) : k <= (m * (m + 1)) \div 2 /\ k > (m * (m - 1)) \div 2
                                                              IN VMul(o[i], o[k - (i * (i - 1)) \div 2])]
Turbulence(cl) ==
    LET o == Observed(cl) e == VScale("0.5", Speed2(cl.u)) s == Curl2(o) IN
    o \o Pairs(o) \o [k \in DOMAIN o |-> VMul(o[k], VMul(o[k], o[k]))] \o [k \in DOMAIN o |-> LET y == VMul(o[k], o[k]) IN VMul(y, y)] \o <<e, s, VMul(e, e), VMul(s, s)>>
(* a gas: dissipation by dilatation and by rotation with the viscosity of    *)
(* Sutherland, temperature; the largest Mach number                          *)
Sutherland(T) == Div(Mul("1.402", Mul(T, Sqrt(T))), Add(T, "0.40417"))
Gas(cl) ==
    LET o == Observed(cl) mu == [k \in DOMAIN cl.T |-> Sutherland(cl.T[k])] div == VSum([d \in 1..D |-> o[1 + 2 * D + (d - 1) * D + d]]) IN
    <<VMul(mu, VMul(div, div)), VMul(mu, Curl2(o)), cl.T>>
Mach(cl) == LET u2 == Speed2(cl.u) IN [k \in DOMAIN cl.T |-> Sqrt(Div(u2[k], Mul(box.gamma, cl.T[k])))]
Nothing == [gas |-> <<>>, sums |-> <<>>, turb |-> <<>>, high |-> <<>>, low |-> <<>>, n |-> 0]
Integral(cl, s) == LET w == VScale(Volume(cl), nodes.w) IN [k \in DOMAIN s |-> Dot(w, s[k])]
Plus(a, b) == IF a = <<>> THEN b ELSE VAdd(a, b)
Largest(a, b) == IF a = <<>> THEN b ELSE [k \in DOMAIN a |-> Max(a[k], b[k])]
(* a cell is added: volume, mass, energy, enstrophy and its square, entropy, momentum in x; densities and largest velocities *)
AddCell(t, cl) ==
    LET s2 == Spin2(cl) IN
    [sums |-> Plus(t.sums, Integral(cl, <<One(cl.rho), cl.rho, VScale("0.5", VMul(cl.rho, Speed2(cl.u))), s2, VMul(s2, s2), IF Len(cl.f) = 0 THEN cl.rho ELSE Disorder(cl), cl.u[1]>>)),
     gas |-> IF box.gas THEN Plus(t.gas, Integral(cl, Gas(cl))) ELSE <<>>,
     turb |-> IF box.turb THEN Plus(t.turb, Integral(cl, Turbulence(cl))) ELSE <<>>,
     high |-> Largest(t.high, <<MaxOf(cl.rho), Opp(MinOf(cl.rho)), MaxOf([d \in 1..D |-> MaxOf(VAbs(cl.u[d]))]), IF box.gas THEN MaxOf(Mach(cl)) ELSE "0">>),
     low |-> <<>>, n |-> t.n + 1]
Pressure(rho) == Mul(Sub(rho, 1), set.cs2)
(* max |u|, mass, kinetic energy, enstrophy, entropy, pressures, mean velocity, square of the enstrophy *)
Report(t) == <<t.high[3], t.sums[2], t.sums[3], t.sums[4], t.sums[6], Pressure(t.high[1]), Pressure(Opp(t.high[2])), Div(t.sums[7], t.sums[1]), t.sums[5]>>
(* dilatation, rotation, largest Mach number, temperature *)
GasRow(t) == <<t.gas[1], t.gas[2], t.high[4], t.gas[3]>>
Close(a, b, tol) == Len(a) = Len(b) /\ \A k \in DOMAIN a : Near(a[k], b[k], tol)
(* numbers as printed: six digits *)
Printed(a, b, size) == Le(Abs(Sub(a, b)), Add(Mul("6e-6", Max(Abs(a), Abs(b))), size))
(* the largest change of density and of the velocity vector *)
Change(now, then) ==
    <<MaxOf([k \in DOMAIN now |-> Sqrt(MaxOf(VSum([d \in 1..D |-> LET x == VSub(now[k].u[d], then[k].u[d]) IN VMul(x, x)])))]),
      MaxOf([k \in DOMAIN now |-> MaxOf(VAbs(VSub(now[k].rho, then[k].rho)))])>>
Mean(s) == Div(Sum(s), Len(s))
Spread(s) == LET m == Mean(s) IN Sqrt(Div(Sum([k \in DOMAIN s |-> LET x == Sub(s[k], m) IN Mul(x, x)]), Len(s)))
PlaneRow(p) == LET c(n) == 1 + ((n - 1) \div D) IN
    [k \in 1..Len(p) * D |-> Mean([i \in DOMAIN p[c(k)] |-> p[c(k)][i][1 + ((k - 1) % D)]])]
    \o [k \in 1..Len(p) * D |-> Spread([i \in DOMAIN p[c(k)] |-> p[c(k)][i][1 + ((k - 1) % D)]])]
------------------------------------------------------------------------------
(* exact integrals of polynomials over the box *)
Times(a, b) == [k \in 1..Len(a) * Len(b) |-> LET x == a[1 + ((k - 1) \div Len(b))] y == b[1 + ((k - 1) % Len(b))] IN [c |-> Mul(x.c, y.c), e |-> VAdd(x.e, y.e)]]
Deriv(f, d) == [k \in DOMAIN f |-> [c |-> Mul(f[k].c, f[k].e[d]), e |-> Lower(f[k].e, d)]]
Minus(f) == [k \in DOMAIN f |-> [f[k] EXCEPT !.c = Opp(@)]]
Power(x, n) == Mono(<<(<<n>>)>>, <<x>>)[1]
Over(f) == Sum([k \in DOMAIN f |-> Mul(f[k].c, LET p == [d \in 1..D |-> LET n == Add(f[k].e[d], 1) IN Div(Sub(Power(box.hi[d], n), Power(box.lo[d], n)), n)] IN IF D = 2 THEN Mul(p[1], p[2]) ELSE Mul(Mul(p[1], p[2]), p[3]))])
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
Size == Over(<<[c |-> "1", e |-> [d \in 1..D |-> "0"]]>>)
U2 == Cat([d \in 1..D |-> Times(flow.u[d], flow.u[d])])
Vorticity == Deriv(flow.u[2], 1) \o Minus(Deriv(flow.u[1], 2))
Slopes2 == Cat([k \in 1..D * D |-> LET g == Deriv(flow.u[1 + ((k - 1) \div D)], 1 + ((k - 1) % D)) IN Times(g, g)])
Exact == <<Over(flow.rho), Mul("0.5", Over(Times(flow.rho, U2))), Over(IF D = 2 THEN Times(Vorticity, Vorticity) ELSE Slopes2), Div(Over(flow.u[1]), Size)>>
ExactOk(r, tol) == /\ Near(r[2], Exact[1], tol)
                   /\ (box.energy => Near(r[3], Exact[2], tol))
                   /\ Near(r[4], Exact[3], tol)
                   /\ Near(r[8], Exact[4], tol)
=============================================================================
