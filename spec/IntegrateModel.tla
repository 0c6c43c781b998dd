--------------------------- MODULE IntegrateModel ---------------------------
(* The schemes advance small systems; what is known of them (order, steady    *)
(* states, linearity, stability, bounds of the adapted steps) is checked in   *)
(* every state that is reached.                                              *)
EXTENDS Integrate, FiniteSets, TLC
CONSTANTS MaxSteps
VARIABLES n, x0, adapted        \* steps, initial state, last size of an embedded scheme
mvars == <<sys, scheme, f, h, n, x0, adapted>>
I2 == << <<"1","0">>, <<"0","1">> >>
Systems == {[A |-> a, b |-> b] : a \in {<< <<"-1","0">>, <<"0","-2">> >>, << <<"0","1">>, <<"-1","0">> >>, << <<"-0.5","3">>, <<"-1","-0.2">> >>, << <<"-1","1">>, <<"0","-1">> >>},
                                 b \in {<<"0","0">>, <<"1","-0.5">>}}
Names == DOMAIN Weights \cup {"THETA", "BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES"}
Rates == [RK5 |-> 4, EXPONENTIAL |-> 9, FORWARD_EULER |-> 1, RK_THIRD_ORDER |-> 3, RK_CLASSIC_FOURTH_ORDER |-> 4, HEUN_EULER |-> 2, BOGACKI_SHAMPINE |-> 3, DOPRI |-> 5, FEHLBERG |-> 5, CASH_KARP |-> 5,
          THETA |-> 1, BACKWARD_EULER |-> 1, IMPLICIT_MIDPOINT |-> 2, CRANK_NICOLSON |-> 2, SDIRK_TWO_STAGES |-> 2]
Lower == [HEUN_EULER |-> 1, BOGACKI_SHAMPINE |-> 2, DOPRI |-> 4, FEHLBERG |-> 4, CASH_KARP |-> 4]
MInit == /\ sys \in Systems
         /\ scheme \in {[name |-> s, theta |-> "0.7", refine |-> "0.7", coarsen |-> "1.4", min |-> "0.001", max |-> "0.4", refinetol |-> "1e-4", coarsentol |-> "1e-6", tol |-> "1e-10"] : s \in Names}
         /\ x0 \in {<<"1","0.5">>, <<"-0.3","2">>} /\ f = x0 /\ h \in {"0.1", "0.4"} /\ n = 0 /\ adapted = h
Minus(th, d) == [i \in 1..2 |-> [k \in 1..2 |-> Sub(I2[i][k], Mul(Mul(th, d), sys.A[i][k]))]]
Solve(m, v) == MatVec(Invert(m), v)
Plus(d) == IF Explicit(scheme.name) THEN Increment(Weights[scheme.name], d)
           ELSE IF scheme.name = "SDIRK_TWO_STAGES"
           THEN LET r == VScale(d, VSub(Rate, VScale(Mul(Gamma, Gamma), dA(d, Rate)))) IN Solve(Minus(Gamma, d), Solve(Minus(Gamma, d), r))
           ELSE Solve(Minus(Theta, d), VScale(d, Rate))
Exactly(d) == Increment(Taylor(30), d)
Step == /\ n < MaxSteps /\ ~Embedded(scheme.name)
        /\ f' = VAdd(f, Plus(h)) /\ n' = n + 1 /\ UNCHANGED <<sys, scheme, h, x0, adapted>>
(* an embedded scheme: any size that the rules allow *)
RECURSIVE Powers(_, _)
Powers(d, k) == IF k = 0 THEN {d} ELSE {d} \cup Powers(Max(Mul(d, scheme.refine), scheme.min), k - 1)
Adapt == /\ n < MaxSteps /\ Embedded(scheme.name)
         /\ \E d \in Powers(h, 16) : /\ Ends(h, d) = TRUE
                                     /\ f' = VAdd(f, Plus(d)) /\ adapted' = d
                                     /\ \E g \in {d, Min(Mul(d, scheme.coarsen), scheme.max)} : Guess(d, g) = TRUE /\ h' = g
         /\ n' = n + 1 /\ UNCHANGED <<sys, scheme, x0>>
MNext == Step \/ Adapt
MSpec == MInit /\ [][MNext]_mvars
-----------------------------------------------------------------------------
Off(d) == Norm(VSub(Plus(d), Exactly(d)))
Power(k) == Pow(2, k)
(* the error of one step shrinks with the power of the order, or is nothing *)
Ordered == LET a == Off("0.02") b == Off("0.01") IN Lt(b, "1e-13") \/ Lt(Mul(b, Mul("0.85", Power(Rates[scheme.name] + 1))), a)
(* so does the difference of the two schemes that are compared *)
Second2 == Embedded(scheme.name) => LET a == Error("0.02") b == Error("0.01") IN Lt(b, "1e-14") \/ Lt(Mul(b, Mul("0.85", Power(Lower[scheme.name] + 1))), a)
(* what the trace specification accepts is what the scheme computes *)
Accepted1 == StateOk(h, VAdd(f, Plus(h)))
Rejected1 == ~Near(Norm(Plus(h)), 0, "1e-9") => ~StateOk(h, VAdd(f, VScale("1.001", Plus(h))))
(* a steady state stays: f = -A^-1 b *)
Rest == IF sys.b = <<"0","0">> THEN <<"0","0">> ELSE Solve(sys.A, VScale("-1", sys.b))
Steady1 == LET r == VAdd(MatVec(sys.A, Rest), sys.b) IN Near(Norm(r), 0, "1e-12")
(* sizes stay within their bounds *)
Close == Embedded(scheme.name) => Le(scheme.min, Mul(adapted, "1.0000001")) /\ Le(adapted, "0.4000001")
(* decaying systems decay with the schemes that are stable for every step *)
Decays == (scheme.name \in {"THETA", "BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES"} /\ sys.A[1][1] = "-1" /\ sys.A[1][2] = "0")
            => \A d \in {"0.1", "1", "30", "1000"} : LET y == VSub(f, Rest) IN Le(Norm(VAdd(y, Plus(d))), Mul(Norm(y), "1.0000001"))
(* close to the solution after several steps *)
Far(x, t) == LET r == VAdd(MatVec(sys.A, x), sys.b) IN VScale(t, Horner(Taylor(40), 1, r, t))
Tracks == ~Embedded(scheme.name) => LET t == Mul(h, n) IN Le(Norm(VSub(f, VAdd(x0, Far(x0, t)))), IF Rates[scheme.name] = 1 THEN "6" ELSE "1")
=============================================================================
