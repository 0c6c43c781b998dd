------------------------------ MODULE CliModel ------------------------------
(* Command lines and orders of documenting, importing, reading, applying.    *)
(* The own arguments of the program: mine (int), ratio (real, default 0.5),  *)
(* title (text), quick (flag), first (positional text), second (positional). *)
EXTENDS Cli, Json
CONSTANTS MaxArgs, MaxOps, Pool
VARIABLES log, n0
mvars == <<cvars, pvars, log, n0>>
A(n, v, t) == [n |-> n, v |-> v, t |-> t]
Lines == UNION {[1..k -> Pool] : k \in 0..MaxArgs}
\* pools of arguments
SmallPool == {A("cfl", "2.5", "real"), A("standard-lbm", "", "none"), A("mine", "7", "int"), A("mine", "x", "text"), A("", "here", "text"), A("help", "", "none"), A("ratio", "0.25", "real")}
LargePool == {A("cfl", "2.5", "real"), A("cfl", "3", "int"), A("cfl", "abc", "text"), A("cfl", "-1", "int"), A("order-fe", "2", "int"), A("order-fe", "3", "int"), A("order-fe", "1.5", "real"), A("order-fe", "0", "int"),
  A("standard-lbm", "", "none"), A("standard-lbm-with", "2", "int"), A("standard-lbm-with", "3", "int"), A("output-on", "", "none"), A("verbose", "", "none"),
  A("tmax", "0.75", "real"), A("tmax", "-2", "int"), A("scaling", "2.25", "real"), A("output-dir", "/tmp/q", "text"), A("output-sol", "5", "int"), A("output-chk", "6", "int"), A("output-tab", "0", "int"),
  A("output-tab", "9", "int"), A("init-niter", "12", "int"), A("init-res", "1e-5", "real"), A("init-res", "0", "int"), A("nonsense", "1", "int"),
  A("mine", "7", "int"), A("mine", "x", "text"), A("title", "hello", "text"), A("title", "5", "int"), A("quick", "", "none"), A("ratio", "0.25", "real"), A("ratio", "4", "int"),
  A("", "here", "text"), A("", "3.5", "real"), A("", "8", "int"), A("help", "", "none")}
  \cup UNION {{A(n, w, "text") : w \in DOMAIN Words[n] \cup {"other"}} : n \in DOMAIN Names1}
  \cup {A("integrator", Integrators[i], "text") : i \in 1..15} \cup {A("integrator-id", ToString(i), "int") : i \in 0..16} \cup {A("integrator", "rk5", "text")}
Own == {[kind |-> "arg", n |-> "mine", t |-> "int", d |-> ""], [kind |-> "default", n |-> "ratio", t |-> "real", d |-> "0.5"], [kind |-> "arg", n |-> "title", t |-> "text", d |-> ""],
        [kind |-> "default", n |-> "label", t |-> "text", d |-> "none"], [kind |-> "default", n |-> "count", t |-> "int", d |-> "3"],
        [kind |-> "flag", n |-> "quick", t |-> "none", d |-> ""], [kind |-> "pos", n |-> "first", t |-> "text", d |-> ""], [kind |-> "pos", n |-> "second", t |-> "real", d |-> ""],
        [kind |-> "makepos", n |-> "order-fe", t |-> "none", d |-> ""]}
Known == {o.n : o \in Own} \cup {"cfl", "standard-lbm", "order-fe", "nothing"}
MInit == cur = [n \in Names |-> Table[n].dflt] /\ files = <<>> /\ PInit(<<>>) /\ log = <<>> /\ n0 = 0
Note(r) == Len(log) < MaxOps /\ log' = Append(log, r)
MLine == n0 = 0 /\ n0' = 1 /\ args' \in Lines /\ UNCHANGED <<cvars, phase, defs, order, values, log>>
MDefine == n0 = 1 /\ \E o \in Own : (o.n \notin DOMAIN defs \/ (o.kind = "makepos" /\ ~\E i \in 1..Len(order) : order[i] = o.n))
           /\ Define(o.kind, o.n, o.t, o.d, phase = "defining") /\ Note([op |-> "define", kind |-> o.kind, n |-> o.n, t |-> o.t, d |-> o.d]) /\ UNCHANGED <<cvars, n0>>
MImport == n0 = 1 /\ phase = "defining" /\ (\E how \in {"yes", "no", "help"} : Import(how)) /\ Note([op |-> "import"]) /\ UNCHANGED <<cvars, n0>>
MHas == n0 = 1 /\ phase # "stopped" /\ \E n \in Known : HasIt(n, phase = "imported", IF n \in DOMAIN values THEN "true" ELSE "false") /\ Note([op |-> "has", n |-> n]) /\ UNCHANGED <<cvars, n0>>
MGet == n0 = 1 /\ phase # "stopped" /\ (\E n \in Known, t \in {"int", "real", "text"} : (n \in DOMAIN values \/ t = "int") /\ Note([op |-> "get", n |-> n, t |-> t])) /\ UNCHANGED <<cvars, pvars, n0>>
MApply == n0 = 1 /\ phase # "stopped" /\ (\E ok \in BOOLEAN : Apply(ok) /\ (~ok => cur' = cur)) /\ UNCHANGED files /\ Note([op |-> "apply"]) /\ UNCHANGED n0
MNext == MLine \/ MDefine \/ MImport \/ MHas \/ MGet \/ MApply
MSpec == MInit /\ [][MNext]_mvars
\* nothing is changed but what is named; what is changed is legal
OnlyNamed == \A s \in Names : cur[s] = Table[s].dflt \/ (phase = "imported" /\ \E n \in DOMAIN values \cap DOMAIN Builtin : s \in DOMAIN Effect(n, values[n]))
StaysAllowed == \A s \in Names : Allowed(s, cur[s])
NotEarly == phase = "defining" => values = NoChange
Emit == Len(log) = MaxOps => PrintT("@@" \o ToJson([args |-> args, ops |-> log]))
PoolOut == n0 = 0 => PrintT("##" \o ToJson(LargePool))
View == <<cvars, pvars, n0>>
=============================================================================
