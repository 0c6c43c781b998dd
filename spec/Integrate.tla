------------------------------ MODULE Integrate ------------------------------
(* One step of a time integrator for df/dt = A f + b.                        *)
(* Explicit schemes are polynomials in d*A applied to the rate A f + b, the  *)
(* exponential scheme is the series of (exp(z)-1)/z, implicit schemes are    *)
(* given by the equation that the new state satisfies.  Embedded schemes     *)
(* shorten the step until the difference of their two polynomials is small.  *)
EXTENDS Naturals, Sequences, Real
VARIABLES sys, scheme, f, h    \* [A, b]; scheme; state; stored step size
Rate == VAdd(MatVec(sys.A, f), sys.b)
Norm(x) == Sqrt(Dot(x, x))
dA(d, x) == VScale(d, MatVec(sys.A, x))
(* d (g[1] r + d A (g[2] r + d A (...))) *)
RECURSIVE Horner(_, _, _, _)
Horner(g, k, r, d) == IF k = Len(g) THEN VScale(g[k], r) ELSE VAdd(VScale(g[k], r), dA(d, Horner(g, k + 1, r, d)))
Increment(g, d) == VScale(d, Horner(g, 1, Rate, d))
RECURSIVE Coef(_)
Coef(k) == IF k = 1 THEN "1" ELSE Div(Coef(k - 1), k)
Taylor(n) == [k \in 1..n |-> Coef(k)]
Weights == [RK5 |-> Taylor(4) \o <<"0.005">>, EXPONENTIAL |-> Taylor(30),
            FORWARD_EULER |-> Taylor(1), RK_THIRD_ORDER |-> Taylor(3), RK_CLASSIC_FOURTH_ORDER |-> Taylor(4),
            HEUN_EULER |-> Taylor(2), BOGACKI_SHAMPINE |-> Taylor(3), DOPRI |-> Taylor(5) \o <<Div(1, 600)>>,
            FEHLBERG |-> Taylor(5) \o <<Div(1, 2080)>>, CASH_KARP |-> Taylor(5) \o <<Div(1, 800)>>]
(* the schemes that the embedded ones are compared with *)
Second == [HEUN_EULER |-> Taylor(1), BOGACKI_SHAMPINE |-> Taylor(2) \o <<Div(3, 16), Div(1, 48)>>,
           DOPRI |-> Taylor(4) \o <<Div(1097, 120000), Div(161, 120000), Div(1, 24000)>>,
           FEHLBERG |-> Taylor(4) \o <<Div(1, 104)>>, CASH_KARP |-> Taylor(4) \o <<Div(10517, 1228800), Div(1771, 1638400)>>]
Explicit(s) == s \in DOMAIN Weights
Embedded(s) == s \in DOMAIN Second
(* (1 - th d A)(new - f) = d (A f + b); twice for the two-stage scheme *)
Implicit(th, d, x) == VSub(x, VScale(th, dA(d, x)))
Gamma == Sub(1, Sqrt("0.5"))
Theta == CASE scheme.name = "THETA" -> scheme.theta
           [] scheme.name = "BACKWARD_EULER" -> "1"
           [] scheme.name \in {"IMPLICIT_MIDPOINT", "CRANK_NICOLSON"} -> "0.5"
Defect(d, new) ==
    IF scheme.name = "SDIRK_TWO_STAGES"
    THEN VSub(Implicit(Gamma, d, Implicit(Gamma, d, VSub(new, f))), VScale(d, VSub(Rate, VScale(Mul(Gamma, Gamma), dA(d, Rate)))))
    ELSE VSub(Implicit(Theta, d, VSub(new, f)), VScale(d, Rate))
Right(d) == VAdd(Implicit(IF scheme.name = "SDIRK_TWO_STAGES" THEN Gamma ELSE Theta, d, f), VScale(d, Rate))
Within(x, tol) == Le(Norm(x), tol)
StateOk(d, new) ==
    IF Explicit(scheme.name) THEN Within(VSub(VSub(new, f), Increment(Weights[scheme.name], d)), Mul(scheme.tol, Max(1, Norm(f))))
    ELSE Within(Defect(d, new), Mul(scheme.tol, Max(IF scheme.name = "THETA" THEN 0 ELSE 1, Norm(Right(d)))))
(* sizes an embedded scheme may end up with *)
Error(d) == Norm(VSub(Increment(Weights[scheme.name], d), Increment(Second[scheme.name], d)))
Smallest(d) == Near(Div(d, scheme.min), 1, "1e-9")
RECURSIVE Ends(_, _)
Ends(d, used) == \/ Near(Div(d, used), 1, "1e-9") /\ (Smallest(d) \/ Lt(Error(d), Mul(scheme.refinetol, "1.001")))
                 \/ Lt(Mul(used, "1.000001"), d) /\ ~Smallest(d) /\ Lt(Mul(scheme.refinetol, "0.999"), Error(d)) /\ Ends(Max(Mul(d, scheme.refine), scheme.min), used)
Guess(d, g) == \/ Lt(Error(d), Mul(scheme.coarsentol, "1.001")) /\ Near(Div(g, Min(Mul(d, scheme.coarsen), scheme.max)), 1, "1e-9")
               \/ Lt(Mul(scheme.coarsentol, "0.999"), Error(d)) /\ Near(Div(g, d), 1, "1e-9")
Effective(dt) == IF Near(dt, 0, "1e-300") THEN h ELSE dt
=============================================================================
