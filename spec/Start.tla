-------------------------------- MODULE Start --------------------------------
(* The state a simulation starts from: the prescribed density and velocity   *)
(* at every node, and the populations in equilibrium, with the part that     *)
(* belongs to the velocity gradient if that is asked for.                    *)
EXTENDS Integers, Sequences, Real, Fields
VARIABLES set, flow, st
Q == Len(set.c)
D == Len(flow.u)
Rho(p) == Value(flow.rho, flow.trig, p)
U(p) == VScale(st.scale, [d \in 1..D |-> Value(flow.u[d], flow.trig, p)])
Quadratic(rho, u) ==
    [q \in 1..Q |-> LET e == Div(Dot(set.c[q], u), set.cs2) IN
        Mul(Mul(set.w[q], rho), Sub(Add(Add(1, e), Div(Mul(e, e), 2)), Div(Dot(u, u), Mul(2, set.cs2))))]
Tau == Add(Div(st.nu, Mul(st.dt, set.cs2)), "0.5")
(* c.grad(u.c) - cs2 div u *)
Strain(q, g) == Sub(Sum([d \in 1..D |-> Mul(set.c[q][d], Dot(set.c[q], g[d]))]), Mul(set.cs2, Sum([d \in 1..D |-> g[d][d]])))
Grad(p) == [d \in 1..D |-> VScale(st.scale, [e \in 1..D |-> Slope(flow.u[d], flow.trig, p, e)])]
Deviation(p, rho) == LET g == Grad(p) k == Opp(Div(Mul(Mul(Tau, st.dt), rho), set.cs2)) IN [q \in 1..Q |-> Mul(Mul(k, set.w[q]), Strain(q, g))]
Column(d) == [q \in 1..Q |-> set.c[q][d]]
Near9(a, b) == Near(a, b, st.tol)
NodeOk(n) ==
    LET rho == Rho(n.x) u == U(n.x) eq == Quadratic(rho, u) IN
    /\ \A d \in 1..D : Near9(n.u[d], u[d])
    /\ IF st.init = "ITERATIVE" /\ ~st.still
       THEN /\ Finite(n.rho) /\ Lt(0, n.rho)
            /\ (st.what = "made" => Near9(Sum(n.f), n.rho))      \* the last collision belongs to this density
       ELSE /\ Near9(n.rho, rho) /\ Near9(Sum(n.f), rho)
            /\ \A d \in 1..D : Near9(Dot(n.f, Column(d)), Mul(rho, u[d]))
            /\ IF st.eq = "QUARTIC_EQUILIBRIUM"
               THEN \A d, e \in 1..D : Near9(Dot(VMul(n.f, Column(d)), Column(e)), Add(Mul(rho, Mul(u[d], u[e])), IF d = e THEN Mul(rho, set.cs2) ELSE 0))
               ELSE NearSeq(n.f, IF st.init = "GRADIENTS" THEN VAdd(eq, Deviation(n.x, rho)) ELSE eq, st.tol)
StartOk(e) == e.i = 0 /\ Near(e.time, 0, "1e-14")
=============================================================================
