-------------------------------- MODULE Exact --------------------------------
(* Benchmark flows: what they prescribe solves the equations of a viscous,   *)
(* nearly incompressible fluid, fits their walls, and has the stated form.   *)
(* Derivatives are taken from five neighbouring values along each axis.      *)
EXTENDS Integers, Sequences, Real
VARIABLES flow,  \* parameters, box, force
          side   \* side[a][e]: what the flow prescribes at the two ends of axis a
D == flow.D
Pi == "3.14159265358979323846"
D1(f, h) == Div(Add(Sub(f[1], f[5]), Mul("8", Sub(f[4], f[2]))), Mul("12", h))
D2(f, h) == Div(Sub(Mul("16", Add(f[2], f[4])), Add(Add(f[1], f[5]), Mul("30", f[3]))), Mul("12", Mul(h, h)))
(* p.u[i][d]: values of component i along axis d; p.when[i]: in time; p.rho[d] *)
Grad(p, i, d) == D1(p.u[i][d], p.h)
Here(p, i) == p.u[i][1][3]
Divergence(p) == Sum([d \in 1..D |-> Grad(p, d, d)])
Convection(p, i) == Sum([d \in 1..D |-> Mul(Here(p, d), Grad(p, i, d))])
Viscous(p, i) == Mul(flow.nu, Sum([d \in 1..D |-> D2(p.u[i][d], p.h)]))
Pressure(p, i) == Mul(flow.cs2, D1(p.rho[i], p.h))
Rate(p, i) == D1(p.when[i], p.k)
Balance(p, i) == Sub(Sum(<<Rate(p, i), Convection(p, i), Pressure(p, i)>>), Viscous(p, i))
Size(p) == MaxOf([n \in 1..4 * D |-> LET i == 1 + ((n - 1) \div 4) IN Abs(CASE n % 4 = 0 -> Rate(p, i) [] n % 4 = 1 -> Convection(p, i) [] n % 4 = 2 -> Pressure(p, i) [] n % 4 = 3 -> Viscous(p, i))])
Small(x, size) == Le(Abs(x), Add(Mul(flow.tol, size), "1e-9"))
Slopes(p) == MaxOf([n \in 1..D * D |-> Abs(Grad(p, 1 + ((n - 1) \div D), 1 + ((n - 1) % D)))])
Continuity(p) == Small(Divergence(p), Slopes(p))
Momentum(p) == (flow.pressure \/ flow.name = "couette") => \A i \in 1..D : Small(Balance(p, i), Size(p))
(* the pressure that goes with a velocity: cs2 Laplace(rho) = - d_i u_j d_j u_i *)
Source(p) == Sum([n \in 1..D * D |-> LET i == 1 + ((n - 1) \div D) j == 1 + ((n - 1) % D) IN Mul(Grad(p, j, i), Grad(p, i, j))])
Poisson(p) == Small(Add(Mul(flow.cs2, Sum([d \in 1..D |-> D2(p.rho[d], p.h)])), Source(p)), Mul(Slopes(p), Slopes(p)))
------------------------------------------------------------------------------
Wave == Div(Mul("2", Pi), flow.L)
Tanh(x) == LET e == Exp(Mul("-2", x)) IN Div(Sub(1, e), Add(1, e))
(* the velocity at a place x at the beginning *)
Begin(x) ==
    CASE flow.name = "vortex" -> <<Add(flow.U, Mul(Sin(Mul(Wave, x[1])), Cos(Mul(Wave, x[2])))), Opp(Mul(Cos(Mul(Wave, x[1])), Sin(Mul(Wave, x[2]))))>>
      [] flow.name = "vortices" -> <<Mul(Mul(Sin(x[1]), Cos(x[2])), Cos(x[3])), Opp(Mul(Mul(Cos(x[1]), Sin(x[2])), Cos(x[3]))), "0">>
      [] flow.name = "layer" -> <<Mul(flow.U, Tanh(Mul(flow.kappa, IF Le(x[2], "0.5") THEN Sub(x[2], "0.25") ELSE Sub("0.75", x[2])))),
                                  Mul(Mul(flow.amp, flow.U), Sin(Mul(Mul("2", Pi), Add(x[1], "0.25"))))>>
      [] OTHER -> [d \in 1..D |-> "0"]
(* the density at the beginning, if it goes with the velocity *)
BeginRho(x) ==
    IF ~flow.pressure THEN "1"
    ELSE IF flow.name = "vortex" THEN Add(1, Div(Mul("0.25", Add(Cos(Mul("2", Mul(Wave, x[1]))), Cos(Mul("2", Mul(Wave, x[2]))))), flow.cs2))
    ELSE Add(1, Div(Mul("0.0625", Mul(Add(Cos(Mul("2", x[1])), Cos(Mul("2", x[2]))), Add(Cos(Mul("2", x[3])), 2))), flow.cs2))
(* between walls: which axis has walls, and their velocities *)
Across == IF flow.name \in {"couette", "poiseuille"} THEN {D} ELSE {}
Moving(d, a, e) == IF flow.name = "couette" /\ e = 2 /\ d = 1 THEN flow.U ELSE "0"
SideOk(s) == IF s.axis \in Across THEN s.kind = "wall" /\ \A d \in 1..D : Near(s.v[d], Moving(d, s.axis, s.end), "1e-12") ELSE s.kind = "periodic"
Height == Sub(flow.hi[D], flow.lo[D])
(* a force that holds a parabola of mean velocity U between the walls *)
ForceOk == \A d \in 1..D : Near(flow.force[d], IF flow.name = "poiseuille" /\ d = 1 THEN Div(Mul("12", Mul(flow.U, flow.nu)), Mul(Height, Height)) ELSE "0", Mul("1e-12", Add(1, Abs(flow.force[d]))))
BoxOk == \A d \in 1..D : Near(flow.lo[d], "0", "1e-12") /\ Near(flow.hi[d], flow.side[d], "1e-9")
ScaleOk == flow.reach = "" \/ Near(flow.reach, flow.L, "1e-12")
=============================================================================
