-------------------------------- MODULE Cli ---------------------------------
(* The command line: arguments are documented, then imported, then read or   *)
(* applied to a solver configuration.                                        *)
EXTENDS Config

Def(k, t) == [kind |-> k, t |-> t, d |-> "", has |-> FALSE]
\* the arguments every program knows
Builtin == [n \in {"help", "standard-lbm", "output-on", "verbose"} |-> Def("flag", "none")]
        @@ [n \in {"standard-lbm-with", "order-fe", "integrator-id", "output-sol", "output-chk", "output-tab", "init-niter"} |-> Def("arg", "int")]
        @@ [n \in {"cfl", "scaling", "tmax", "init-res"} |-> Def("arg", "real")]
        @@ [n \in {"streaming", "collision", "integrator", "equilibrium", "regularization", "support-points", "output-dir", "stencil", "init", "mrt-basis", "mrt-relax"} |-> Def("arg", "text")]

\* ---------------------------------------------------------------- words and what they stand for
Words == [
  streaming |-> [sedg |-> "SEDG", sl |-> "SEMI_LAGRANGIAN"],
  collision |-> [bgk |-> "BGK_STANDARD", bgkt |-> "BGK_STANDARD_TRANSFORMED", inc |-> "BGK_INCOMPRESSIBLE", pp |-> "BGK_MULTIPHASE", ss |-> "BGK_STEADY_STATE",
                 mrt |-> "MRT_STANDARD", kbcs |-> "KBC_STANDARD", kbcc |-> "KBC_CENTRAL", reg |-> "BGK_REGULARIZED", am4 |-> "BGK_MULTI_AM4",
                 bdf2 |-> "BGK_MULTI_BDF2", est |-> "ENTROPIC_STABILIZED"],
  equilibrium |-> [bgk |-> "BGK_EQUILIBRIUM", quartic |-> "QUARTIC_EQUILIBRIUM"],
  regularization |-> [no |-> "NO_REGULARIZATION", pem |-> "PSEUDO_ENTROPY_MAXIMIZATION", zero |-> "ZERO_HIGH_ORDER_MOMENTS", em |-> "ENTROPY_MAXIMIZATION", pemwe |-> "PSEUDO_ENTROPY_MAXIMIZATION_WITH_E"],
  init |-> [equi |-> "EQUILIBRIUM", iter |-> "ITERATIVE"],
  stencil |-> [d2q9 |-> "D2Q9", d3q19 |-> "D3Q19", d3q15 |-> "D3Q15", d3q27 |-> "D3Q27", d3q21 |-> "D3Q21", d3q13 |-> "D3Q13", rd3q27 |-> "RD3Q27", d2q19h |-> "D2Q19H",
               d2q19v |-> "D2Q19V", d2q777 |-> "D2Q777", d2q25h |-> "D2Q25H", d3q45 |-> "D3Q45", d3q77 |-> "D3Q77", d3v27 |-> "D3V27"] ]
  @@ ("support-points" :> [gll |-> "GAUSS_LOBATTO_POINTS", glc |-> "GAUSS_LOBATTO_CHEBYSHEV_POINTS", gc |-> "GAUSS_CHEBYSHEV_POINTS", equi |-> "EQUIDISTANT_POINTS"])
  @@ ("mrt-basis" :> ("dellar-d2q9" :> "DELLAR_D2Q9" @@ "lallemand-d2q9" :> "LALLEMAND_D2Q9" @@ "dhumieres-d3q19" :> "DHUMIERES_D3Q19"))
  @@ ("mrt-relax" :> ("full" :> "RELAX_FULL" @@ "dellar-only-N" :> "DELLAR_RELAX_ONLY_N" @@ "dhumieres-paper" :> "RELAX_DHUMIERES_PAPER"))
Names1 == ("streaming" :> "Advection" @@ "collision" :> "Collision" @@ "equilibrium" :> "Equilibrium" @@ "regularization" :> "Regularization" @@ "init" :> "Initialization"
   @@ "stencil" :> "Stencil" @@ "support-points" :> "SupportPoints" @@ "mrt-basis" :> "MRTBasis" @@ "mrt-relax" :> "MRTRelaxation")
Numbers == ("order-fe" :> "Order" @@ "cfl" :> "CFL" @@ "scaling" :> "StencilScaling" @@ "tmax" :> "EndTime" @@ "init-res" :> "InitResidual" @@ "init-niter" :> "InitIterations"
   @@ "output-dir" :> "OutputDir" @@ "output-sol" :> "SolutionInterval" @@ "output-chk" :> "CheckpointInterval" @@ "output-tab" :> "TableInterval")
Integrators == <<"rk4", "theta", "exp", "ee", "rk3", "rk4_2", "ie", "midpoint", "cn", "sdirk", "heun-euler", "bogacki", "dopri", "fehlberg", "cash-karp">>
OwnIntegrator == <<"RUNGE_KUTTA_5STAGE", "THETA_METHOD", "EXPONENTIAL">>
DealIntegrators == <<"FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER", "BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES",
                     "HEUN_EULER", "BOGACKI_SHAMPINE", "DOPRI", "FEHLBERG", "CASH_KARP">>
ById(i) == IF i <= 3 THEN [TimeIntegrator |-> OwnIntegrator[i], DealIntegrator |-> "NONE"]
           ELSE [TimeIntegrator |-> "OTHER", DealIntegrator |-> DealIntegrators[i - 3]]
None == [bad |-> "bad"]
NoChange == [n \in {} |-> n]
\* what one argument changes; None: its value is illegal
Effect(n, v) ==
  CASE n \in DOMAIN Names1 -> IF v \in DOMAIN Words[n] THEN Names1[n] :> Words[n][v] ELSE None
    [] n \in DOMAIN Numbers -> IF Allowed(Numbers[n], v)
                               THEN (Numbers[n] :> v) @@ (IF n \in {"output-dir", "output-sol", "output-chk", "output-tab"} THEN [OutputOff |-> "false"] ELSE NoChange)
                               ELSE None
    [] n = "output-on" -> [OutputOff |-> "false"]
    [] n = "verbose" -> [OutputOff |-> "false", Verbosity |-> "8"]
    [] n = "integrator" -> IF \E i \in 1..15 : Integrators[i] = v THEN ById(CHOOSE i \in 1..15 : Integrators[i] = v) ELSE None
    [] n = "integrator-id" -> IF Le("1", v) /\ Le(v, "15") THEN ById(Floor(v)) ELSE None
    [] n = "standard-lbm" -> [CFL |-> Mul("2", Sqrt("2")), Order |-> "2", Advection |-> "SEMI_LAGRANGIAN"]
    [] n = "standard-lbm-with" -> [CFL |-> Mul(v, Sqrt("2")), Order |-> v, Advection |-> "SEMI_LAGRANGIAN", SupportPoints |-> "EQUIDISTANT_POINTS"]
    [] OTHER -> NoChange

\* ---------------------------------------------------------------- the parser
VARIABLES phase,   \* "defining", "imported", "stopped" (an error or the help message)
          defs,    \* name -> what was documented
          order,   \* names of the positional arguments
          args,    \* what stands on the command line: [n (name; "": positional), v, t (how the value reads: int, real, text, none)]
          values   \* name -> value, after the import
pvars == <<phase, defs, order, args, values>>
PInit(a) == phase = "defining" /\ defs = Builtin /\ order = <<>> /\ args = a /\ values = NoChange
Define(kind, n, t, d, ok) ==
  /\ ok = (phase = "defining")
  /\ IF ~ok THEN UNCHANGED <<defs, order>>
     ELSE /\ defs' = IF kind = "makepos" THEN defs ELSE (n :> [kind |-> kind, t |-> IF kind = "flag" THEN "none" ELSE t, d |-> d, has |-> kind = "default"]) @@ defs
          /\ order' = IF kind \in {"pos", "makepos"} THEN Append(order, n) ELSE order
  /\ UNCHANGED <<phase, args, values>>
\* positional arguments stand for their names, in order
Positional == SelectSeq(args, LAMBDA a : a.n = "")
Named == SelectSeq(args, LAMBDA a : a.n # "")
Full == Named \o [i \in 1..Len(Positional) |-> IF i <= Len(order) THEN [Positional[i] EXCEPT !.n = order[i]] ELSE [Positional[i] EXCEPT !.n = "!more"]]
Fits(a) == LET d == defs[a.n] IN
  CASE d.t = "none" -> a.t = "none"
    [] d.t = "int"  -> a.t = "int"
    [] d.t = "real" -> a.t \in {"int", "real"}
    [] OTHER -> a.t # "none"
Sound == /\ \A i \in 1..Len(Full) : Full[i].n \in DOMAIN defs /\ Fits(Full[i])
         /\ \A i, j \in 1..Len(Full) : i # j => Full[i].n # Full[j].n
Given == {Full[i].n : i \in 1..Len(Full)}
ValueOf(n) == (CHOOSE i \in 1..Len(Full) : Full[i].n = n)
Import(how) ==
  /\ how = IF ~Sound THEN "no" ELSE IF "help" \in Given THEN "help" ELSE "yes"
  /\ phase' = IF how = "yes" THEN "imported" ELSE "stopped"
  /\ values' = IF how = "yes" THEN [n \in Given \cup {m \in DOMAIN defs : defs[m].has} |-> IF n \in Given THEN Full[ValueOf(n)].v ELSE defs[n].d] ELSE values
  /\ UNCHANGED <<defs, order, args>>
HasIt(n, ok, got) == ok = (phase = "imported") /\ (ok => got = (IF n \in DOMAIN values THEN "true" ELSE "false")) /\ UNCHANGED pvars
GetIt(n, t, ok, got) ==
  /\ ok = (phase = "imported" /\ n \in DOMAIN values /\ defs[n].t = t)
  /\ ok => (IF t = "text" THEN got = values[n] ELSE SameReal(values[n], got))
  /\ UNCHANGED pvars
Contradict ==
  LET lbm == {"standard-lbm", "standard-lbm-with"} \cap DOMAIN values IN
  \/ Cardinality(lbm) = 2
  \/ lbm # {} /\ "cfl" \in DOMAIN values
  \/ lbm # {} /\ "streaming" \in DOMAIN values /\ values["streaming"] # "sl"
  \/ "standard-lbm" \in lbm /\ "order-fe" \in DOMAIN values /\ ~SameReal(values["order-fe"], "2")
  \/ "standard-lbm-with" \in lbm /\ "order-fe" \in DOMAIN values /\ ~SameReal(values["order-fe"], values["standard-lbm-with"])
  \/ {"integrator", "integrator-id"} \subseteq DOMAIN values
Early == DOMAIN values \cap {"standard-lbm", "standard-lbm-with"}
Later == (DOMAIN values \cap DOMAIN Builtin) \ Early
Legal == \A n \in Early \cup Later : Effect(n, values[n]) # None
Changes(S) == {<<n, s>> \in S \X Names : s \in DOMAIN Effect(n, values[n])}
\* an argument that names a setting wins over the bundle standard-lbm
Applied(c) == [s \in Names |->
  LET l == {n \in Later : s \in DOMAIN Effect(n, values[n])}
      e == {n \in Early : s \in DOMAIN Effect(n, values[n])} IN
  IF l # {} THEN Effect(CHOOSE n \in l : TRUE, values[CHOOSE n \in l : TRUE])[s]
  ELSE IF e # {} THEN Effect(CHOOSE n \in e : TRUE, values[CHOOSE n \in e : TRUE])[s] ELSE c[s]]
Apply(ok) ==
  /\ ok = (phase = "imported" /\ ~Contradict /\ Legal)
  /\ ok => cur' = Applied(cur)
  /\ UNCHANGED pvars
=============================================================================
