------------------------------ MODULE Regular ------------------------------
(* Regularization of the populations at a node by the largest (quadratic)    *)
(* entropy that leaves density, momentum and stress as they are; in the      *)
(* other variant only the traceless stress.  The populations become          *)
(* polynomials of second degree in the velocities, times the weights.        *)
EXTENDS Integers, Sequences, Real
VARIABLES set, rule  \* velocities and weights; [D, name, scheme, set]
D == rule.D
Q == Len(set.w)
C(d) == [q \in 1..Q |-> set.c[q][d]]
Rho(f) == Sum(f)
Flux(f, d) == Dot(C(d), f)
Eye(a, b) == IF a = b THEN "1" ELSE "0"
Second(f, a, b) == Sub(Dot(VMul(C(a), C(b)), f), Mul(Eye(a, b), Mul(set.cs2, Rho(f))))
Trace2(f) == Sum([d \in 1..D |-> Second(f, d, d)])
Stress(f, a, b) == IF rule.name = "full" THEN Second(f, a, b) ELSE Sub(Second(f, a, b), Mul(Eye(a, b), Div(Trace2(f), D)))
Regularized(f) ==
    LET rho == Rho(f)
        j == [d \in 1..D |-> Div(Flux(f, d), set.cs2)]
        s == [k \in 1..D * D |-> Div(Stress(f, 1 + ((k - 1) \div D), 1 + ((k - 1) % D)), Mul("2", Mul(set.cs2, set.cs2)))]
    IN [q \in 1..Q |-> Mul(set.w[q], Add(rho, Add(Sum([d \in 1..D |-> Mul(j[d], set.c[q][d])]),
            Sum([k \in 1..D * D |-> LET a == 1 + ((k - 1) \div D) b == 1 + ((k - 1) % D) IN
                Mul(s[k], Sub(Mul(set.c[q][a], set.c[q][b]), Mul(Eye(a, b), set.cs2)))]))))]
(* what no regularization may change, whatever else it does *)
Kept(f, g) ==
    /\ Near(Rho(g), Rho(f), "1e-11")
    /\ \A d \in 1..D : Near(Div(Flux(g, d), Sqrt(set.cs2)), Div(Flux(f, d), Sqrt(set.cs2)), "1e-11")
NodeOk(f, g) == Kept(f, g) /\ NearSeq(g, Regularized(f), "1e-11")
(* schemes and the velocity sets they exist for; all others are refused *)
Supported(r) == \/ r.scheme = "NO_REGULARIZATION"
                \/ r.scheme = "PSEUDO_ENTROPY_MAXIMIZATION" /\ r.set \in {"D2Q9", "D3Q19"}
                \/ r.scheme = "PSEUDO_ENTROPY_MAXIMIZATION_WITH_E" /\ r.set = "D2Q9"
=============================================================================
