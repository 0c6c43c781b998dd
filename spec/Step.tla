-------------------------------- MODULE Step --------------------------------
(* The time step and the relaxation time of a simulation.                    *)
EXTENDS Integers, Sequences, FiniteSets, Real
VARIABLES set, mesh, h
D == mesh.D
Q == Len(set.c)
Len2(v) == Dot(v, v)
Fastest == Sqrt(MaxOf([q \in 1..Q |-> Len2(set.c[q])]))
(* the smallest distance between two corners of a cell *)
Shortest(c) == LET n == Len(c) IN Sqrt(MinOf([k \in 1..n * n |-> LET i == 1 + ((k - 1) \div n) j == 1 + ((k - 1) % n) IN IF i >= j THEN "1e300" ELSE Len2(VSub(c[i], c[j]))]))
(* the smallest gap between support points of an element of edge length one *)
Gap(x) == MinOf([k \in 1..Len(x) - 1 |-> Sub(x[k + 1], x[k])])
TimeStep(cfl) == Div(Mul(cfl, h), Mul(Fastest, mesh.p * mesh.p))
Same(a, b) == Near(a, b, "1e-11")
StepOk(e) ==
    /\ Same(e.fastest, Fastest)
    /\ Same(e.h, h) /\ Same(e.gll, Mul(h, Gap(mesh.x))) /\ Same(e.fe, Mul(h, Gap(mesh.x)))
    /\ Same(e.dt, TimeStep(mesh.cfl))
(* relaxation: time over step, for the viscosity *)
Tau(dt) == Div(mesh.nu, Mul(dt, set.cs2))
Equilibrium(f) ==
    LET rho == Sum(f) u == [d \in 1..D |-> Div(Dot(f, [q \in 1..Q |-> set.c[q][d]]), rho)] uu == Len2(u) IN
    [q \in 1..Q |-> LET e == Div(Dot(set.c[q], u), set.cs2) IN Mul(Mul(set.w[q], rho), Sub(Add(Add(1, e), Div(Mul(e, e), 2)), Div(uu, Mul(2, set.cs2))))]
Relaxed(f, dt) == VAdd(f, VScale(Div(1, Add(Tau(dt), "0.5")), VSub(Equilibrium(f), f)))
RelaxOk(a, b, dt) == NearSeq(b, Relaxed(a, dt), "1e-10")
(* the choices of integrators by number *)
Names == <<"RUNGE_KUTTA_5STAGE", "THETA_METHOD", "EXPONENTIAL", "FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER", "BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON",
           "SDIRK_TWO_STAGES", "HEUN_EULER", "BOGACKI_SHAMPINE", "DOPRI", "FEHLBERG", "CASH_KARP">>
=============================================================================
