------------------------------ MODULE CliTrace ------------------------------
EXTENDS Cli, TraceLib
VARIABLE l
tvars == <<cvars, pvars, l>>
ev == Trace[l]
Yes == ev.ok = "yes"
Agree == DOMAIN ev.all = Names /\ \A n \in Names : Same(n, cur'[n], ev.all[n])
TraceInit == l = 1 /\ cur = <<>> /\ files = <<>> /\ PInit(<<>>)
Begin == ev.e = "Begin" /\ Defaults(ev.all) /\ cur' = ev.all /\ UNCHANGED files
         /\ phase' = "defining" /\ defs' = Builtin /\ order' = <<>> /\ args' = ev.args /\ values' = NoChange
\* after a command line that was refused (or a request for help) nothing of the parser is used any more
Op == /\ ev.e = "Op"
      /\ \/ ev.op = "define" /\ Define(ev.kind, ev.n, ev.t, ev.d, Yes) /\ UNCHANGED cvars
         \/ ev.op = "import" /\ phase # "stopped" /\ Import(ev.ok) /\ UNCHANGED cvars
         \/ ev.op = "has" /\ phase # "stopped" /\ HasIt(ev.n, Yes, ev.got) /\ UNCHANGED cvars
         \/ ev.op = "get" /\ phase # "stopped" /\ GetIt(ev.n, ev.t, Yes, ev.got) /\ UNCHANGED cvars
         \/ ev.op = "set" /\ Assign(ev.n, ev.v, Yes) /\ Agree /\ UNCHANGED pvars
         \/ ev.op = "apply" /\ phase # "stopped" /\ Apply(Yes) /\ UNCHANGED files /\ (IF Yes THEN Agree ELSE cur' = cur)
         \/ ev.op \in {"import", "has", "get", "apply"} /\ phase = "stopped" /\ UNCHANGED <<cvars, pvars>>
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Op)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
