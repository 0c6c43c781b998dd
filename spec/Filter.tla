------------------------------- MODULE Filter -------------------------------
(* Filters: the nodal values of a cell are expanded in products of Legendre  *)
(* polynomials of the coordinates of the cell, every coefficient is          *)
(* multiplied by the damping factor that belongs to its degree, and the      *)
(* result is evaluated at the nodes again.                                   *)
EXTENDS Integers, Sequences, Real
VARIABLES par, to, from        \* parameters; nodal values to coefficients and back
Order == Len(par.nodes) - 1
Modes == IF par.D = 2 THEN (Order + 1) * (Order + 1) ELSE (Order + 1) * (Order + 1) * (Order + 1)
(* degrees of mode m (from 0) along the axes *)
Along(m) == [d \in 1..par.D |-> IF d = 1 THEN m % (Order + 1) ELSE IF d = 2 THEN (m \div (Order + 1)) % (Order + 1) ELSE m \div ((Order + 1) * (Order + 1))]
Total(a) == IF par.D = 2 THEN a[1] + a[2] ELSE a[1] + a[2] + a[3]
Largest(a) == CHOOSE x \in {a[d] : d \in 1..par.D} : \A d \in 1..par.D : a[d] <= x
Damp(x) == Exp(Opp(Mul(par.alpha, Pow(x, par.s))))
Factor(a) ==
    IF par.kind = "new" THEN Damp(Div(Total(a), par.D * Order))
    ELSE LET deg == IF par.bysum THEN Total(a) ELSE Largest(a)
             top == IF par.bysum THEN par.D * Order ELSE Order
         IN IF deg < par.Nc THEN "1" ELSE Damp(Div(deg + 1 - par.Nc, top + 1 - par.Nc))
Factors == [m \in 1..Modes |-> Factor(Along(m - 1))]
(* values of the Legendre polynomials at the nodes, for one axis and the cell *)
One(nodes) == [k \in 1..Len(nodes) |-> Legendre(Len(nodes) - 1, nodes[k])]
From(p) == LET o == One(p.nodes) IN IF p.D = 2 THEN Kron(o, o) ELSE Kron(Kron(o, o), o)
Filtered(v) == MatVec(from, VMul(Factors, MatVec(to, v)))
Weights == LET w == LagrangeW(par.nodes) IN IF par.D = 2 THEN Outer(w, w) ELSE Outer(Outer(w, w), w)
Mean(v) == Dot(Weights, v)
KeepsMean == par.kind = "new" \/ par.Nc > 0
Due(i) == i % par.interval = 0
Constant(v) == \A k \in DOMAIN v : v[k] = v[1]
(* the values v of a cell became w in iteration i *)
CellOk(i, v, w) ==
    \A q \in DOMAIN v :
        IF ~Due(i) THEN w[q] = v[q]
        ELSE /\ (par.apart => NearSeq(w[q], Filtered(v[q]), "1e-9"))
             /\ (par.apart /\ KeepsMean => Near(Mean(w[q]), Mean(v[q]), "1e-9"))
             /\ (KeepsMean /\ Constant(v[q]) => NearSeq(w[q], v[q], "1e-9"))
=============================================================================
