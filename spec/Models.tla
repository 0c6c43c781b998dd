------------------------------- MODULE Models -------------------------------
(* The collision classes (directory collision): what one collision does to   *)
(* the populations of a node.  Some relax every population alike towards an  *)
(* equilibrium, one keeps the stress only, two use what the collision before *)
(* left; of the others only mass, momentum, stress and rest are given.       *)
EXTENDS Integers, Sequences, FiniteSets, Real, TLC
VARIABLES m,       \* the class and its parameters
          past     \* node -> <<populations, equilibrium>> before the last collision
mvars == <<m, past>>
Q == m.Q
D == m.D
c(d) == [i \in 1..Q |-> m.vel[i][d]]
Shift == IF m.class = "BGKStandardTransformed" THEN 1 ELSE 0    \* populations less the weights
Density(f) == Add(Sum(f), Shift)
Momentum(f) == [d \in 1..D |-> Dot(f, c(d))]
Over(v, a) == [d \in 1..Len(v) |-> Div(v[d], a)]
Tau == Div(m.nu, Mul(m.dt, Mul(m.cs2, IF m.class = "BGKSteadyState" THEN m.gamma ELSE 1)))
Rate == Div(1, Add(Tau, "0.5"))
(* the equilibria *)
Quadratic(rho, u, g) ==
    LET uu == Div(Dot(u, u), Mul(2, m.cs2)) IN
    [i \in 1..Q |-> LET x == Div(Dot(m.vel[i], u), m.cs2) IN Mul(Mul(m.w[i], rho), Add(Add(1, x), Div(Sub(Div(Mul(x, x), 2), uu), g)))]
(* product of one-dimensional entropic equilibria *)
One(u, k) == LET r == Sqrt(Add(1, Mul(3, Mul(u, u)))) z == Div(Add(Mul(2, u), r), Sub(1, u)) IN
    Mul(Sub(2, r), CASE k = 0 -> 1 [] k = 1 -> z [] OTHER -> Div(1, z))
Step1(x) == IF Near(x, 0, "1e-9") THEN 0 ELSE IF Lt(0, x) THEN 1 ELSE -1
Product(rho, u) ==
    [i \in 1..Q |-> LET k(d) == Step1(Div(m.vel[i][d], m.sc)) o(d) == One(Div(u[d], m.sc), k(d)) IN
        Mul(Mul(m.w[i], rho), IF D = 2 THEN Mul(o(1), o(2)) ELSE Mul(Mul(o(1), o(2)), o(3)))]
Feq(rho, u) ==
    CASE m.class = "KBCStandard" -> Product(rho, u)
      [] m.class = "BGKSteadyState" -> Quadratic(rho, u, m.gamma)
      [] m.class = "BGKStandardTransformed" -> VSub(Quadratic(rho, u, 1), m.w)
      [] OTHER -> Quadratic(rho, u, 1)
Eps == "1e-9"
Same(a, b) == NearSeq(a, b, Eps)
EquilibriumOk(e) == NearSeq(e.feq, Feq(e.rho, e.u), "1e-11")
(* force: the momentum it adds; the velocity of the equilibrium and the reported one *)
Forced == m.forcing # "NO_FORCING"
Force == IF Forced THEN m.F ELSE [d \in 1..D |-> 0]
Plus(u, a, b) == [d \in 1..D |-> Add(u[d], Mul(a, b[d]))]
Reported(f) == Plus(Over(Momentum(f), Density(f)), Div(Mul("0.5", m.dt), Density(f)), Force)
Conserves(e) ==
    /\ Near(Density(e.f1), Density(e.f), Eps) /\ Near(e.rho, Density(e.f), Eps)
    /\ m.init \/ LET p == Plus(Momentum(e.f), m.dt, Force) q == Momentum(e.f1) IN \A d \in 1..D : Near(Div(q[d], m.sc), Div(p[d], m.sc), Eps)
    /\ IF m.init THEN Same(e.u, e.asked) ELSE Same(Over(e.u, m.sc), Over(Reported(e.f), m.sc))
(* what the whole relaxes to *)
Velocity(e) == IF m.init THEN e.asked ELSE Over(Momentum(e.f), Density(e.f))
Eq(e) == Feq(Density(e.f), Velocity(e))
H2(i, a, b) == Sub(Mul(m.vel[i][a], m.vel[i][b]), IF a = b THEN m.cs2 ELSE 0)
Pi(f, a, b) == Dot(f, [i \in 1..Q |-> H2(i, a, b)])
Stress(f) == LET s == [k \in 1..D * D |-> Pi(f, 1 + ((k - 1) \div D), 1 + ((k - 1) % D))] IN
    [k \in 1..D * D |-> [i \in 1..Q |-> Div(Mul(Mul(m.w[i], s[k]), H2(i, 1 + ((k - 1) \div D), 1 + ((k - 1) % D))), Mul(2, Mul(m.cs2, m.cs2)))]]
OnlyStress(f) == VTotal(Stress(f))
(* deviatoric stress, in units of the scaling *)
Dev(f) == LET t == Div(Sum([a \in 1..D |-> Pi(f, a, a)]), D) s2 == Mul(m.sc, m.sc) IN
    [k \in 1..D * D |-> LET a == 1 + ((k - 1) \div D) b == 1 + ((k - 1) % D) IN Div(Sub(Pi(f, a, b), IF a = b THEN t ELSE 0), s2)]
DevOk(e) == LET q == Eq(e) IN Same(Dev(e.f1), VAdd(Dev(q), VScale(Sub(1, Rate), Dev(VSub(e.f, q)))))
Lambda == Div(m.nu, Mul(m.cs2, m.dt))
Relaxed(e) ==
    LET q == Eq(e) d == VSub(e.f, q)
        h == IF e.node \in DOMAIN past THEN past[e.node] ELSE <<e.f, e.f>>
        dh == VSub(h[1], h[2])
    IN CASE m.class \in {"BGKStandard", "BGKStandardTransformed", "BGKSteadyState", "BGKIncompressible"} -> VSub(e.f, VScale(Rate, d))
         [] m.class = "BGKRegularized" -> VAdd(q, VScale(Sub(1, Rate), OnlyStress(d)))
         [] m.class = "AM4" -> VAdd(VSub(e.f, VScale(Div(13, Add(Mul(12, Lambda), 5)), d)), VScale(Div(1, Add(Mul(12, Lambda), 5)), dh))
         [] m.class = "BDF2" -> VAdd(VSub(VAdd(e.f, VScale(Div(1, 3), VSub(e.f, h[1]))), VScale(Div(1, Add(Mul(Div(9, 8), Lambda), "0.75")), d)), VScale(Div(1, Add(Mul("4.5", Lambda), 3)), dh))
Whole == {"BGKStandard", "BGKStandardTransformed", "BGKSteadyState", "BGKIncompressible", "BGKRegularized", "AM4", "BDF2"}
Viscous == {"MRTStandard", "MRTEntropic", "KBCStandard", "KBCCentral"}
RelaxedOk(e) ==
    /\ m.class \in Whole /\ ~Forced => Same(e.f1, Relaxed(e))
    /\ m.class \in Viscous /\ ~m.init => DevOk(e)
    /\ e.start /\ ~Forced /\ ~m.init => Same(e.f1, e.f)
Known == {<<x, s>> : x \in {"BGKStandard", "BGKStandardTransformed", "BGKSteadyState"}, s \in {"D2Q9", "D3Q15", "D3Q19", "D3Q21", "D3Q27"}}
    \cup {<<"BGKIncompressible", "D2Q9">>, <<"BGKRegularized", "D2Q9">>, <<"BGKRegularized", "D3Q19">>, <<"MRTStandard", "D2Q9">>, <<"MRTEntropic", "D2Q9">>, <<"MRTEntropic", "D3Q19">>,
          <<"EntropicStabilized", "D2Q9">>, <<"EntropicStabilized", "D3Q19">>, <<"EntropicStabilized", "D3Q27">>, <<"KBCStandard", "D2Q9">>, <<"KBCStandard", "D3Q15">>, <<"KBCCentral", "D2Q9">>,
          <<"AM4", "D2Q9">>, <<"AM4", "D3Q19">>, <<"BDF2", "D2Q9">>, <<"BDF2", "D3Q19">>}
MInit == m = [class |-> "none"] /\ past = <<>>
Take(e) == m' = e /\ past' = <<>>
Equilibrium(e) == EquilibriumOk(e) = TRUE /\ UNCHANGED mvars
Collide(e) == /\ (Conserves(e) /\ RelaxedOk(e)) = TRUE
              /\ past' = (e.node :> <<e.f, Eq(e)>>) @@ past /\ UNCHANGED m
=============================================================================
