----------------------------- MODULE Collision ------------------------------
(* One collision at one node.  Populations are sequences of reals, one per   *)
(* velocity.  The equilibria are truncated Hermite series of a Maxwellian of *)
(* temperature T; the models relax the deviation from the equilibrium, all   *)
(* of it alike (BGK), only what carries momentum and stress (regularized),   *)
(* or moment by moment (MRT).  A force shifts the equilibrium velocity or    *)
(* adds the difference of two equilibria.                                    *)
EXTENDS Integers, Sequences, FiniteSets, Real, TLC

VARIABLES phase,   \* idle, asked, ready, refused
          ask,     \* the configuration asked for
          mdl      \* the velocity set and the parameters it runs with
cvars == <<phase, ask, mdl>>

----------------------------------------------------------------------------
(* which configurations there is a meaning for *)
Sets2 == {"D2Q9", "D2Q19H", "D2Q19V", "D2Q25H", "D2Q777"}
Isothermal ==
    {<<s, "BGK_STANDARD", "BGK_EQUILIBRIUM">> : s \in {"D2Q9", "D3Q13", "D3Q15", "D3Q19", "D3Q21", "D3Q27", "D3V27", "D3Q45", "D3Q77"}}
    \cup {<<s, "BGK_STANDARD", "QUARTIC_EQUILIBRIUM">> : s \in {"D2Q9", "D2Q25H", "D2Q19H", "D2Q19V", "D3Q27", "D3V27", "D3Q45", "D3Q77"}}
    \cup {<<s, "BGK_REGULARIZED", "BGK_EQUILIBRIUM">> : s \in {"D2Q9", "D3Q15", "D3Q19", "D3Q27"}}
    \cup {<<s, "MRT_STANDARD", "BGK_EQUILIBRIUM">> : s \in {"D2Q9", "D3Q19"}}
TwoPopulation ==
    {<<s, "BGK_STANDARD", "BGK_EQUILIBRIUM">> : s \in {"D2Q25H", "D2Q19H"}}
    \cup {<<s, "BGK_STANDARD", "QUARTIC_EQUILIBRIUM">> : s \in {"D2Q25H", "D2Q19H", "D2Q19V", "D2Q777", "D3Q45", "D3Q77"}}
MrtOK(a) == a.scheme # "MRT_STANDARD" \/
    CASE a.set = "D2Q9" -> \/ a.basis \in {"DELLAR_D2Q9", "LALLEMAND_D2Q9"} /\ a.mode = "RELAX_FULL"
                           \/ a.basis = "DELLAR_D2Q9" /\ a.mode = "DELLAR_RELAX_ONLY_N"
      [] a.set = "D3Q19" -> a.basis = "DHUMIERES_D3Q19" /\ a.mode \in {"RELAX_FULL", "RELAX_DHUMIERES_PAPER"}
      [] OTHER -> FALSE
ForceOK(a) == ~a.forced \/ a.forcing \in {"SHIFTING_VELOCITY", "EXACT_DIFFERENCE"}
Supported(a) ==
    /\ <<a.set, a.scheme, a.eq>> \in (IF a.thermal THEN TwoPopulation ELSE Isothermal)
    /\ MrtOK(a) /\ ForceOK(a)

----------------------------------------------------------------------------
(* vectors over the velocities *)
Q == mdl.Q
D == ask.D
E(d) == [i \in 1..Q |-> Div(mdl.vel[i][d], mdl.sc)]
Units == IF D = 2 THEN <<E(1), E(2)>> ELSE <<E(1), E(2), E(3)>>
Ones == [i \in 1..Q |-> 1]
Cs2 == Div(mdl.cs2, Mul(mdl.sc, mdl.sc))
W == mdl.w
Tau == Add(Div(mdl.nu, Mul(mdl.dt, mdl.cs2)), "0.5")

Density(f) == Sum(f)
Velocity(f, x) == [d \in 1..D |-> Div(Dot(f, x[d]), Sum(f))]

(* Hermite polynomials of the velocities, and their coefficients *)
H(n, x, c) ==
    CASE n = 0 -> Ones
      [] n = 1 -> x
      [] n = 2 -> VSub(VPow(x, 2), VScale(c, Ones))
      [] n = 3 -> VSub(VPow(x, 3), VScale(Mul(3, c), x))
      [] n = 4 -> VAdd(VSub(VPow(x, 4), VScale(Mul(6, c), VPow(x, 2))), VScale(Mul(3, Mul(c, c)), Ones))
B(n, u, t) ==
    CASE n = 0 -> 1
      [] n = 1 -> u
      [] n = 2 -> Add(Mul(u, u), t)
      [] n = 3 -> Add(Pow(u, 3), Mul(3, Mul(u, t)))
      [] n = 4 -> Add(Add(Pow(u, 4), Mul(6, Mul(Mul(u, u), t))), Mul(3, Mul(t, t)))
Fact(n) == CASE n <= 1 -> 1 [] n = 2 -> 2 [] n = 3 -> 6 [] n = 4 -> 24
Indices == IF D = 2 THEN [1..2 -> 0..4] ELSE [1..3 -> 0..4]
Deg(k) == IF D = 2 THEN k[1] + k[2] ELSE k[1] + k[2] + k[3]
(* order: highest degree kept; T: temperature *)
Maxwell(order, x, rho, u, T) ==
    LET c == Cs2
        t == Mul(c, Sub(T, 1))
        h == [d \in 1..D |-> [n \in 0..order |-> H(n, x[d], c)]]
        b == [d \in 1..D |-> [n \in 0..order |-> Div(B(n, u[d], t), Mul(Fact(n), Pow(c, n)))]]
        K == {k \in Indices : Deg(k) <= order}
        term(k) == IF D = 2 THEN VScale(Mul(b[1][k[1]], b[2][k[2]]), VMul(h[1][k[1]], h[2][k[2]]))
                   ELSE VScale(Mul(Mul(b[1][k[1]], b[2][k[2]]), b[3][k[3]]), VMul(VMul(h[1][k[1]], h[2][k[2]]), h[3][k[3]]))
    IN VScale(rho, VMul(W, VTotal([k \in K |-> term(k)])))
(* the quadratic equilibrium knows no temperature *)
Equilibrium(x, rho, u, T) == IF ask.eq = "QUARTIC_EQUILIBRIUM" THEN Maxwell(4, x, rho, u, T) ELSE Maxwell(2, x, rho, u, 1)

----------------------------------------------------------------------------
(* moments of the multiple relaxation time models and their rates *)
Sq(x) == VPow(x, 2)
C2(x) == IF D = 2 THEN VAdd(Sq(x[1]), Sq(x[2])) ELSE VAdd(VAdd(Sq(x[1]), Sq(x[2])), Sq(x[3]))
Aff(a, v, b) == VAdd(VScale(a, v), VScale(b, Ones))     \* a v + b
Rows(x, o) ==   \* <<moment, rate>>; o = 1/tau
    LET c2 == C2(x)
        n9 == VAdd(Aff(Div(-21, 2), c2, 4), VScale(Div(9, 2), Sq(c2)))    \* 4, -2, 1
        nd == [i \in 1..Q |-> IF Near(c2[i], 0, "1e-9") THEN 1 ELSE IF Near(c2[i], 1, "1e-9") THEN -2 ELSE 4]
        full == ask.mode = "RELAX_FULL"
    IN CASE ask.basis = "DELLAR_D2Q9" ->
              << <<Ones, o>>, <<x[1], o>>, <<x[2], o>>, <<Sq(x[1]), o>>, <<VMul(x[1], x[2]), o>>, <<Sq(x[2]), o>>,
                 <<nd, 1>>, <<VMul(nd, x[1]), IF full THEN 1 ELSE o>>, <<VMul(nd, x[2]), IF full THEN 1 ELSE o>> >>
         [] ask.basis = "LALLEMAND_D2Q9" ->
              << <<Ones, o>>, <<x[1], o>>, <<x[2], o>>, <<VSub(Sq(x[1]), Sq(x[2])), o>>, <<VMul(x[1], x[2]), o>>, <<Aff(3, c2, -4), o>>,
                 <<VMul(Aff(3, c2, -5), x[1]), 1>>, <<VMul(Aff(3, c2, -5), x[2]), 1>>, <<n9, 1>> >>
         [] ask.basis = "DHUMIERES_D3Q19" ->
              LET q == Aff(5, c2, -9)
                  g == Aff(3, c2, -5)
                  xx == VSub(VScale(3, Sq(x[1])), c2)
                  ww == VSub(Sq(x[2]), Sq(x[3]))
                  r(a) == IF full THEN 1 ELSE a
              IN << <<Ones, o>>, <<x[1], o>>, <<x[2], o>>, <<x[3], o>>,
                    <<Aff(19, c2, -30), IF full THEN o ELSE "1.19">>,
                    <<VAdd(Aff(Div(-53, 2), c2, 12), VScale(Div(21, 2), Sq(c2))), r("1.4")>>,
                    <<VMul(q, x[1]), r("1.2")>>, <<VMul(q, x[2]), r("1.2")>>, <<VMul(q, x[3]), r("1.2")>>,
                    <<xx, o>>, <<ww, o>>, <<VMul(g, xx), r("1.4")>>, <<VMul(g, ww), r("1.4")>>,
                    <<VMul(x[1], x[2]), o>>, <<VMul(x[2], x[3]), o>>, <<VMul(x[1], x[3]), o>>,
                    <<VMul(ww, x[1]), r("1.98")>>, <<VMul(VSub(Sq(x[3]), Sq(x[1])), x[2]), r("1.98")>>,
                    <<VMul(VSub(Sq(x[1]), Sq(x[2])), x[3]), r("1.98")>> >>

----------------------------------------------------------------------------
(* the force: shift of the equilibrium velocity, shift of the reported one *)
Kick(rho) == [d \in 1..D |-> Div(Mul(mdl.dt, mdl.F[d]), Mul(rho, mdl.sc))]
Plus(u, k, v) == [d \in 1..D |-> Add(u[d], Mul(k, v[d]))]
Shifting == ask.forced /\ ask.forcing = "SHIFTING_VELOCITY"
Difference == ask.forced /\ ask.forcing = "EXACT_DIFFERENCE"

(* temperature from the energy of both populations *)
Cv == Div(1, Sub(mdl.gamma, 1))
Peculiar(x, u) == LET s(d) == VPow(Aff(1, x[d], Opp(u[d])), 2) IN IF D = 2 THEN VAdd(s(1), s(2)) ELSE VAdd(VAdd(s(1), s(2)), s(3))
Temp(f, g, x, u) == Div(Add(Div(Dot(f, Peculiar(x, u)), Cs2), Sum(g)), Mul(2, Mul(Sum(f), Cv)))
Inner(T) == Mul(T, Sub(Mul(2, Cv), D))      \* energy of the inner degrees of freedom, per mass

(* relaxation time at a node: the viscosity is that of density and temperature 1 *)
LocalTau(rho, T) ==
    IF ~ask.thermal THEN Tau
    ELSE Add(Div(Mul(Sub(Tau, "0.5"), IF mdl.suth THEN Pow(Div(T, "0.85"), "0.7") ELSE 1), Mul(T, rho)), "0.5")

Tol(f, want) == LET r == Sum(VAbs(f)) IN VAdd(VScale("1e-11", VAdd(VAbs(f), VAbs(want))), VScale(Mul("1e-11", r), W))

(* everything there is to know of a collision of f, g *)
Node(c) ==
    LET x == Units
        rho == Density(c.f)
        u == Velocity(c.f, x)
        T == IF ask.thermal THEN Temp(c.f, c.g, x, u) ELSE 1
        tau == LocalTau(rho, T)
        ueq == IF Shifting THEN Plus(u, tau, Kick(rho)) ELSE u
    IN [x |-> x, rho |-> rho, u |-> u, T |-> T, tau |-> tau, ueq |-> ueq, feq |-> Equilibrium(x, rho, ueq, T),
        gain |-> IF Difference THEN Plus(u, 1, Kick(rho)) ELSE u]

ThirdCentral(f, x, u) ==   \* sum of |e-u|^2-type third moments, as a function of three axes
    [k \in (1..D) \X (1..D) \X (1..D) |->
        Dot(f, VMul(VMul(Aff(1, x[k[1]], Opp(u[k[1]])), Aff(1, x[k[2]], Opp(u[k[2]]))), Aff(1, x[k[3]], Opp(u[k[3]]))))]

(* the populations after the collision, for the models written as one formula *)
After(c, n) ==
    LET o == Div(1, n.tau)
        neq == VSub(c.f, n.feq)
        relaxed == CASE ask.scheme = "BGK_STANDARD" -> VSub(c.f, VScale(o, neq))
                     [] ask.scheme = "BGK_REGULARIZED" ->
                        LET first(d) == VScale(Div(Dot(neq, n.x[d]), Cs2), n.x[d])
                            qab(a, b) == IF a = b THEN H(2, n.x[a], Cs2) ELSE VMul(n.x[a], n.x[b])
                            second(p) == VScale(Div(Dot(neq, VMul(n.x[p[1]], n.x[p[2]])), Mul(2, Mul(Cs2, Cs2))), qab(p[1], p[2]))
                            f1 == VMul(W, VAdd(VTotal([d \in 1..D |-> first(d)]), VTotal([p \in (1..D) \X (1..D) |-> second(p)])))
                        IN VAdd(n.feq, VScale(Sub(1, o), f1))
        forced == IF Difference THEN VAdd(relaxed, VSub(Equilibrium(n.x, n.rho, n.gain, n.T), n.feq)) ELSE relaxed
        heat == IF ask.thermal /\ ~Near(mdl.pr, 0, 0)
                THEN LET q == ThirdCentral(neq, n.x, n.ueq)
                         star(k) == LET p == VMul(VMul(n.x[k[1]], n.x[k[2]]), n.x[k[3]])
                                        m == IF k[1] = k[2] THEN VSub(p, VScale(Mul(3, Cs2), n.x[k[3]])) ELSE p
                                    IN VScale(Div(q[k], Mul(6, Pow(Cs2, 3))), m)
                         ptau == Add(Div(Sub(n.tau, "0.5"), mdl.pr), "0.5")
                     IN VScale(Sub(o, Div(1, ptau)), VMul(W, VTotal([k \in (1..D) \X (1..D) \X (1..D) |-> star(k)])))
                ELSE VScale(0, Ones)
    IN VAdd(forced, heat)

AfterG(c, n) ==
    LET o == Div(1, n.tau)
        geq == VScale(Inner(n.T), n.feq)
        neq == VSub(c.g, geq)
        flux(d) == Dot(neq, Aff(1, n.x[d], Opp(n.ueq[d])))
        heat == IF ~Near(mdl.pr, 0, 0)
                THEN LET star(d) == VScale(Div(flux(d), n.T), n.x[d])
                         ptau == Add(Div(Sub(n.tau, "0.5"), mdl.pr), "0.5")
                     IN VScale(Sub(o, Div(1, ptau)), VMul(W, VTotal([d \in 1..D |-> star(d)])))
                ELSE VScale(0, Ones)
    IN VAdd(VSub(c.g, VScale(o, neq)), heat)

Exact(c) ==
    LET n == Node(c) IN
    IF ask.scheme = "MRT_STANDARD"
    THEN LET o == Div(1, n.tau)
             add == IF Difference THEN VSub(Equilibrium(n.x, n.rho, n.gain, n.T), n.feq) ELSE VScale(0, Ones)
             rows == Rows(n.x, o)
         IN \A k \in 1..Len(rows) :
              LET r == rows[k][1]
                  m == Dot(r, c.f)
                  want == Add(Sub(m, Mul(rows[k][2], Sub(m, Dot(r, n.feq)))), Dot(r, add))
              IN Le(Abs(Sub(Dot(r, c.f1), want)), Mul("1e-10", Dot(VAbs(r), VAbs(c.f))))
                 \/ (PrintT(<<"moment", k, Dot(r, c.f1), want>>) /\ FALSE)
    ELSE LET a == After(c, n) IN
         /\ NearBy(c.f1, a, Tol(c.f, a)) \/ (PrintT(<<"after", ask, c.f1, a>>) /\ FALSE)
         /\ ask.thermal => LET b == AfterG(c, n) IN NearBy(c.g1, b, Tol(c.g, b)) \/ (PrintT(<<"after g", ask, c.g1, b>>) /\ FALSE)

----------------------------------------------------------------------------
(* what a user relies on, whatever the model *)
Small(a, b, scale) == Le(Abs(Sub(a, b)), Mul(IF ask.set = "D2Q777" THEN "1e-6" ELSE "1e-10", scale))
Mass(c) == Small(Sum(c.f1), Sum(c.f), Sum(VAbs(c.f)))
Momentum(c) == LET x == Units IN \A d \in 1..D :
    Small(Dot(c.f1, x[d]), Add(Dot(c.f, x[d]), IF ask.forced THEN Div(Mul(mdl.dt, mdl.F[d]), mdl.sc) ELSE 0), Dot(VAbs(c.f), VAbs(x[d])))
Energy(c) == LET x == Units
                 e2 == C2(x)
                 en(f, g) == Add(Div(Dot(f, e2), Cs2), Sum(g))
             IN Small(en(c.f1, c.g1), en(c.f, c.g), Add(Div(Dot(VAbs(c.f), e2), Cs2), Sum(VAbs(c.g))))
Reported(c) == LET n == Node(c) IN
    /\ Small(c.rho, n.rho, n.rho)
    /\ \A d \in 1..D : Small(Div(c.u[d], mdl.sc), IF ask.forced THEN Add(n.u[d], Mul("0.5", Kick(n.rho)[d])) ELSE n.u[d], 1)
ReportedT(c) == LET n == Node(c) IN Small(c.T, n.T, n.T)
(* the part of the stress that carries the viscosity *)
Stress(c) ==
    LET n == Node(c)
        k == Sub(1, Div(1, n.tau))
        mom(f, a, b) == Dot(f, VMul(n.x[a], n.x[b]))
        ok(got, was, eq, s) == Small(got, Add(eq, Mul(k, Sub(was, eq))), s)
        s == Dot(VAbs(c.f), C2(n.x))
    IN \A a, b \in 1..D : a < b =>
        /\ ok(mom(c.f1, a, b), mom(c.f, a, b), mom(n.feq, a, b), s)
        /\ ok(Sub(mom(c.f1, a, a), mom(c.f1, b, b)), Sub(mom(c.f, a, a), mom(c.f, b, b)), Sub(mom(n.feq, a, a), mom(n.feq, b, b)), s)
(* repeated collisions end in the equilibrium of the conserved quantities and leave it alone *)
Settled(c) == LET n == Node(c) IN
    /\ NearBy(c.f1, c.f, VScale(Mul("1e-9", n.rho), W))
    /\ NearBy(c.f, n.feq, VScale(Mul(IF ask.set = "D2Q777" THEN "1e-5" ELSE "1e-8", n.rho), W))
    /\ ask.thermal => LET geq == VScale(Inner(n.T), n.feq) IN NearBy(c.g1, c.g, VScale(Mul("1e-9", n.rho), W)) /\ NearBy(c.g, geq, VScale(Mul("1e-5", n.rho), W))

----------------------------------------------------------------------------
CInit == phase = "idle" /\ ask = <<>> /\ mdl = <<>>
Ask(a) == /\ phase \in {"idle", "ready", "refused"}
          /\ phase' = "asked" /\ ask' = a /\ mdl' = <<>>
(* the solver exists: the parameters of the run *)
Ready(m) == /\ phase = "asked"
            /\ phase' = "ready" /\ mdl' = m /\ UNCHANGED ask
Refuse == /\ phase \in {"asked", "ready"}
          /\ ~Supported(ask)
          /\ phase' = "refused" /\ UNCHANGED <<ask, mdl>>
Collide(c) == /\ phase = "ready" /\ Supported(ask)
              /\ UNCHANGED cvars
=============================================================================
