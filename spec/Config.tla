------------------------------- MODULE Config -------------------------------
(* A solver configuration: a set of named values, each with the values it    *)
(* may take and a default; assignments, files, and the check of consistency. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Real

\* ---------------------------------------------------------------- the settings
Pick(d, s)       == [kind |-> "pick", dflt |-> d, of |-> s, lo |-> "0", hi |-> "0"]
Between(d, l, h) == [kind |-> "real", dflt |-> d, of |-> {}, lo |-> l, hi |-> h]
Whole(d, l, h)   == [kind |-> "int",  dflt |-> d, of |-> {}, lo |-> l, hi |-> h]
Text(d)          == [kind |-> "text", dflt |-> d, of |-> {}, lo |-> "0", hi |-> "0"]
Reals(d)         == [kind |-> "list", dflt |-> d, of |-> {}, lo |-> "-1e10", hi |-> "1e10"]
Flag(d)          == Pick(d, {"true", "false"})
Huge == "1.7e308"
MaxInt == "2147483647"

Table == [
  CFL |-> Between("0.4", "1e-10", Huge), Prandtl |-> Between("1", "1e-10", Huge), PrandtlSet |-> Flag("false"),
  ReferenceTemperature |-> Between("1", "1e-10", Huge), Gamma |-> Between("1.4", "1e-10", Huge), Sutherland |-> Flag("false"),
  StencilScaling |-> Between("1", "1e-10", Huge), Analytic |-> Flag("false"),
  Stencil |-> Pick("D2Q9", {"D2Q9", "D2Q19H", "D2Q19V", "D2Q25H", "D2Q777", "D3Q13", "D3Q15", "D3Q19", "D3Q21", "D3Q27", "RD3Q27", "D3V27", "D3Q45", "D3Q77"}),
  Advection |-> Pick("SEDG", {"SEDG", "SEMI_LAGRANGIAN"}),
  SupportPoints |-> Pick("GAUSS_LOBATTO_POINTS", {"GAUSS_LOBATTO_POINTS", "GAUSS_CHEBYSHEV_POINTS", "GAUSS_LOBATTO_CHEBYSHEV_POINTS", "EQUIDISTANT_POINTS"}),
  Quadrature |-> Pick("QGAUSS_LOBATTO", {"QGAUSS_LOBATTO", "QGAUSS"}),
  TimeIntegrator |-> Pick("RUNGE_KUTTA_5STAGE", {"RUNGE_KUTTA_5STAGE", "THETA_METHOD", "EXPONENTIAL", "OTHER"}),
  Order |-> Whole("1", "1", MaxInt), Flux |-> Pick("LAX_FRIEDRICHS", {"LAX_FRIEDRICHS", "CENTRAL"}), Theta |-> Between("0.5", "0", "1"),
  DealIntegrator |-> Pick("NONE", {"FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER", "BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON",
                                   "SDIRK_TWO_STAGES", "HEUN_EULER", "BOGACKI_SHAMPINE", "DOPRI", "FEHLBERG", "CASH_KARP", "NONE"}),
  DealSolver |-> Pick("BICGSTAB", {"BICGSTAB", "CG", "FGMRES", "GMRES", "MINRES", "QMRS", "RELAXATION", "RICHARDSON"}),
  EmbCoarsen |-> Between("1.2", "1", "1000"), EmbRefine |-> Between("0.8", "0", "1"), EmbMinCFL |-> Between("1", "-1.7e308", Huge),
  EmbMaxCFL |-> Between("1", "-1.7e308", Huge), EmbRefineTol |-> Between("1e-8", "-1.7e308", Huge), EmbCoarsenTol |-> Between("1e-12", "-1.7e308", Huge),
  Collision |-> Pick("BGK_STANDARD", {"BGK_STANDARD", "BGK_STANDARD_TRANSFORMED", "BGK_STEADY_STATE", "BGK_MULTIPHASE", "BGK_INCOMPRESSIBLE", "MRT_STANDARD",
                      "MRT_ENTROPIC", "ENTROPIC_STABILIZED", "KBC_STANDARD", "KBC_CENTRAL", "BGK_MULTI_AM4", "BGK_MULTI_BDF2", "BGK_REGULARIZED"}),
  MRTBasis |-> Pick("DELLAR_D2Q9", {"DELLAR_D2Q9", "LALLEMAND_D2Q9", "DHUMIERES_D3Q19"}),
  MRTRelaxation |-> Pick("RELAX_FULL", {"RELAX_FULL", "DELLAR_RELAX_ONLY_N", "RELAX_DHUMIERES_PAPER"}),
  Equilibrium |-> Pick("BGK_EQUILIBRIUM", {"BGK_EQUILIBRIUM", "QUARTIC_EQUILIBRIUM", "INCOMPRESSIBLE_EQUILIBRIUM", "STEADYSTATE_EQUILIBRIUM", "ENTROPIC_EQUILIBRIUM"}),
  SteadyGamma |-> Between("1", "0", "1"), Pseudopotential |-> Pick("SHAN_CHEN", {"SHAN_CHEN", "SUKOP", "CARNAHAN_STARLING"}),
  PseudoG |-> Between("-5", "-1e10", "1e10"), PseudoT |-> Between("0.0848997582", "-1e10", "1e10"),
  Forcing |-> Pick("NO_FORCING", {"NO_FORCING", "SHIFTING_VELOCITY", "EXACT_DIFFERENCE", "GUO"}),
  Regularization |-> Pick("NO_REGULARIZATION", {"NO_REGULARIZATION", "PSEUDO_ENTROPY_MAXIMIZATION", "ZERO_HIGH_ORDER_MOMENTS", "ENTROPY_MAXIMIZATION", "PSEUDO_ENTROPY_MAXIMIZATION_WITH_E"}),
  VmultLimiter |-> Flag("false"), Filtering |-> Flag("false"), FilterScheme |-> Pick("EXPONENTIAL_FILTER", {"EXPONENTIAL_FILTER", "NEW_FILTER"}),
  FilterInterval |-> Whole("1", "1", "10000000"), FilterAlpha |-> Between("10", "0", "1e10"), FilterS |-> Between("20", "0", "1e10"),
  FilterNc |-> Whole("1", "0", "50"), FilterSums |-> Flag("false"),
  Restart |-> Whole("0", "0", MaxInt), Initialization |-> Pick("EQUILIBRIUM", {"EQUILIBRIUM", "ITERATIVE", "COMPRESSIBLE_ITERATIVE", "GRADIENTS"}),
  InitResidual |-> Between("1e-7", "1e-25", Huge), InitIterations |-> Whole("2000", "1", MaxInt),
  Steps |-> Whole("100000000", "1", MaxInt), EndTime |-> Between("100000000", "0", Huge), Threshold |-> Between("1e-30", "-1.7e308", Huge),
  OutputOff |-> Flag("false"), UserInteraction |-> Flag("true"), OutputDir |-> Text("/tmp/NATriuM"),
  CheckpointInterval |-> Whole("1000000000", "1", MaxInt), TableInterval |-> Whole("1000", "1", MaxInt), SolutionInterval |-> Whole("1000", "1", MaxInt),
  Verbosity |-> Whole("5", "0", "8"), LogFile |-> Flag("true"), TurbGlobal |-> Flag("false"), TurbCompressible |-> Flag("false"), Turb |-> Flag("false"),
  WallDirection |-> Whole("1", "0", "3"), WallCoordinates |-> Reals(<<"0.1", "0.2", "0.5">>) ]

Names == DOMAIN Table
(* the constructor has these two exchanged, nothing documents them *)
NoDefault == {"EmbMinCFL", "EmbMaxCFL"}
EmbNames == <<"EmbCoarsen", "EmbRefine", "EmbMinCFL", "EmbMaxCFL", "EmbRefineTol", "EmbCoarsenTol">>

\* ---------------------------------------------------------------- values
InRange(n, v) == Le(Table[n].lo, v) /\ Le(v, Table[n].hi)
Allowed(n, v) ==
  CASE Table[n].kind = "pick" -> v \in Table[n].of
    [] Table[n].kind = "text" -> TRUE
    [] Table[n].kind = "list" -> \A i \in 1..Len(v) : InRange(n, v[i])
    [] OTHER -> InRange(n, v)
\* files and assignments keep 16 digits
SameReal(a, b) == Le(Abs(Sub(a, b)), Mul("2e-15", Abs(a)))
Same(n, a, b) ==
  CASE Table[n].kind \in {"pick", "text"} -> a = b
    [] Table[n].kind = "list" -> Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameReal(a[i], b[i])
    [] OTHER -> SameReal(a, b)

\* ---------------------------------------------------------------- the state
VARIABLES cur,    \* the configuration
          files   \* file -> what is written in it (a configuration or a part of one; "bad": not readable)
cvars == <<cur, files>>

\* the defaults of the two limits of embedded integrators are as the constructor says
Defaults(c) == DOMAIN c = Names /\ \A n \in Names : n \in NoDefault \/ Same(n, Table[n].dflt, c[n])
Fresh(c) == Defaults(c) /\ cur' = c /\ UNCHANGED files
\* assigning the Prandtl number notes that it was assigned; the law of Sutherland can only be switched on
After(n, v) == CASE n = "Prandtl" -> [cur EXCEPT !.Prandtl = v, !.PrandtlSet = "true"]
                 [] n = "Sutherland" -> [cur EXCEPT !.Sutherland = "true"]
                 [] OTHER -> [cur EXCEPT ![n] = v]
Assign(n, v, ok) ==
  /\ n \in Names
  /\ ok = Allowed(n, v)
  /\ cur' = IF ok THEN After(n, v) ELSE cur
  /\ UNCHANGED files
AssignEmbedded(vs, ok) ==
  /\ ok = \A i \in 1..6 : Allowed(EmbNames[i], vs[i])
  /\ cur' = IF ok THEN [n \in Names |-> IF \E i \in 1..6 : EmbNames[i] = n THEN vs[CHOOSE i \in 1..6 : EmbNames[i] = n] ELSE cur[n]] ELSE cur
  /\ UNCHANGED files
Save(k, f) == files' = (<<k, f>> :> cur) @@ files /\ UNCHANGED cur
Readable(k, f) == <<k, f>> \in DOMAIN files /\ DOMAIN files[<<k, f>>] # {"bad"}
Over(c, part) == [n \in Names |-> IF n \in DOMAIN part THEN part[n] ELSE c[n]]
Load(k, f, ok) ==
  /\ ok = Readable(k, f)
  /\ ok => cur' = Over(cur, files[<<k, f>>])
  /\ UNCHANGED files
Consistent(c, many) ==
  /\ ~(c.TimeIntegrator = "OTHER" /\ c.DealIntegrator = "NONE")
  /\ ~(c.Collision = "BGK_MULTIPHASE" /\ c.Forcing = "NO_FORCING")
  /\ ~(many /\ c.UserInteraction = "true")
=============================================================================
