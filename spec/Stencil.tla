------------------------------ MODULE Stencil -------------------------------
(* What a velocity set is: a symmetric set of velocities and weights that    *)
(* integrates polynomials against a Gaussian of variance cs^2 exactly, up to *)
(* its degree.  A set is asked for at several scalings; all of them are one  *)
(* set.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, Real, TLC

Sets == {"D2Q9", "D2Q19H", "D2Q19V", "D2Q25H", "D2Q777", "D3Q13", "D3Q15", "D3Q19", "D3Q21", "D3Q27",
         "RD3Q27", "D3V27", "D3Q45", "D3Q77"}
Dim(n) == IF n \in {"D2Q9", "D2Q19H", "D2Q19V", "D2Q25H", "D2Q777"} THEN 2 ELSE 3
Size(n) == CASE n = "D2Q9" -> 9 [] n \in {"D2Q19H", "D2Q19V", "D3Q19"} -> 19 [] n = "D2Q25H" -> 25 [] n = "D2Q777" -> 777
             [] n = "D3Q13" -> 13 [] n = "D3Q15" -> 15 [] n = "D3Q21" -> 21 [] n \in {"D3Q27", "RD3Q27", "D3V27"} -> 27
             [] n = "D3Q45" -> 45 [] n = "D3Q77" -> 77
(* polynomials up to this degree are integrated exactly *)
Degree(n) == CASE n \in {"D2Q9", "D3Q13", "D3Q15", "D3Q19", "D3Q21", "D3Q27", "RD3Q27"} -> 5
               [] n = "D3V27" -> 7
               [] OTHER -> 9
Cs2(n) == IF n = "RD3Q27" THEN "0.2" ELSE Div(1, 3)
(* the weights of D2Q777 are tabulated with few digits *)
Eps(n) == IF n = "D2Q777" THEN "1e-7" ELSE "1e-11"

VARIABLE seen     \* set -> what it looked like at scaling 1
svars == <<seen>>

(* (k-1)!! for even k: the moments of a Gaussian of variance 1 *)
RECURSIVE Odd2(_)
Odd2(k) == IF k <= 1 THEN 1 ELSE (k - 1) * Odd2(k - 2)
RECURSIVE GaussR(_, _, _)
GaussR(m, d, c) == IF d = 0 THEN 1
                   ELSE IF m[d] % 2 = 1 THEN 0
                   ELSE Mul(Mul(Odd2(m[d]), Pow(c, m[d] \div 2)), GaussR(m, d - 1, c))
Order(m) == IF Len(m) = 2 THEN m[1] + m[2] ELSE m[1] + m[2] + m[3]
Powers(d, n) == {m \in [1..d -> 0..n] : Order(m) <= n}

(* v: [set, scaling, D, Q, w, e, opp, ...], e sequence of velocities *)
Comp(v, d) == [i \in 1..v.Q |-> v.vel[i][d]]
Moment(v, unit, m) ==    \* unit[d]: component d of all velocities, without scaling
    LET P(d) == VPow(unit[d], m[d]) IN
    Dot(v.w, IF v.D = 2 THEN VMul(P(1), P(2)) ELSE VMul(VMul(P(1), P(2)), P(3)))

Quadrature(v, unit) ==
    \A m \in Powers(v.D, Degree(v.set)) :
        LET got == Moment(v, unit, m) want == GaussR(m, v.D, Cs2(v.set)) IN
        \/ Near(got, want, Mul(Eps(v.set), Pow(4, Order(m))))
        \/ PrintT(<<"moment", v.set, m, got, want>>) /\ FALSE

WellFormed(v) ==
    /\ v.set \in Sets /\ v.type = v.set
    /\ v.D = Dim(v.set) /\ v.Q = Size(v.set)
    /\ Len(v.w) = v.Q /\ Len(v.vel) = v.Q /\ Len(v.opp) = v.Q /\ v.nw = v.Q /\ v.ne = v.Q
    /\ \A i \in 1..v.Q : Len(v.vel[i]) = v.D /\ Lt(0, v.w[i])
    \* no velocity twice
    /\ Cardinality({v.vel[i] : i \in 1..v.Q}) = v.Q

(* indices in the implementation start at 0 *)
Reversed(v) ==
    \A i \in 1..v.Q : LET o == v.opp[i] + 1 IN
        /\ o \in 1..v.Q
        /\ v.opp[o] + 1 = i
        /\ v.w[o] = v.w[i]
        /\ \A d \in 1..v.D : Near(v.vel[o][d], Opp(v.vel[i][d]), "1e-14")
        \* the population at rest is the first
        /\ (o = i) <=> (i = 1)
Rest(v) == \A d \in 1..v.D : Near(v.vel[1][d], 0, "1e-300")

Scaled(v) ==
    /\ Near(v.sc, v.scaling, "1e-15")
    /\ Near(Div(v.cs2, Mul(v.scaling, v.scaling)), Cs2(v.set), "1e-13")
    /\ Near(Div(Mul(v.cs, v.cs), Mul(v.scaling, v.scaling)), Cs2(v.set), "1e-13")

Same(v, u) ==   \* the same set at another scaling
    /\ v.w = u.w /\ v.opp = u.opp
    /\ \A d \in 1..v.D :
         NearSeq(VScale(Div(1, v.scaling), Comp(v, d)), VScale(Div(1, u.scaling), Comp(u, d)), "1e-13")
    /\ Near(Div(v.vmax, v.scaling), Div(u.vmax, u.scaling), "1e-13")

Unit(n, i) == [k \in 1..n |-> IF k = i THEN 1 ELSE 0]
Inverse(v) ==
    v.Q < 100 =>
       /\ Len(v.M) = v.Q /\ Len(v.I) = v.Q
       /\ \A c \in 1..v.Q :
            LET col == [r \in 1..v.Q |-> v.I[r][c]] IN
            \* to rounding, which grows with the size of the entries
            LET size == MaxOf(MatVec([r \in 1..v.Q |-> VAbs(v.M[r])], VAbs(col)))
            IN NearBy(MatVec(v.M, col), Unit(v.Q, c), [r \in 1..v.Q |-> Mul("1e-9", Max(1, size))])

Look(v) == /\ WellFormed(v) /\ Rest(v) /\ Reversed(v) /\ Scaled(v)
           /\ LET unit == [d \in 1..v.D |-> VScale(Div(1, v.scaling), Comp(v, d))] IN Quadrature(v, unit)
           /\ Inverse(v)
           /\ v.set \in DOMAIN seen => Same(v, seen[v.set])
           /\ seen' = [x \in DOMAIN seen \cup {v.set} |-> IF x = v.set THEN v ELSE seen[x]]
=============================================================================
