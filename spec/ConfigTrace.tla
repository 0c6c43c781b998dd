---------------------------- MODULE ConfigTrace -----------------------------
EXTENDS Config, TraceLib
VARIABLES l, ready
tvars == <<cvars, l, ready>>
ev == Trace[l]
Shown == ev.all
Agree == DOMAIN ev.all = Names /\ \A n \in Names : Same(n, cur'[n], Shown[n])
Many == "NP" \in DOMAIN IOEnv /\ IOEnv.NP # "1"
TraceInit == l = 1 /\ cur = <<>> /\ files = <<>> /\ ready = FALSE
Begin == ev.e = "Begin" /\ Defaults(Shown) /\ cur' = Shown /\ files' = <<>> /\ ready' = TRUE
Op == /\ ev.e = "Op" /\ ready
      /\ \/ ev.op = "set" /\ Assign(ev.n, ev.v, ev.ok) /\ Agree /\ ready' = TRUE
         \/ ev.op = "embedded" /\ AssignEmbedded(ev.v, ev.ok) /\ Agree /\ ready' = TRUE
         \/ ev.op = "save" /\ ev.ok /\ Save(ev.k, ev.f) /\ Agree /\ ready' = TRUE
         \* n: the setting a hand-written file assigns ("" : the file is not one), v: its value
         \/ ev.op = "write" /\ files' = (<<ev.k, ev.f>> :> (IF ev.n # "" /\ Allowed(ev.n, ev.v) THEN (ev.n :> ev.v) ELSE [bad |-> "bad"])) @@ files
            /\ UNCHANGED cur /\ Agree /\ ready' = TRUE
         \/ ev.op = "load" /\ ev.ok /\ Load(ev.k, ev.f, TRUE) /\ Agree /\ ready' = TRUE
         \/ ev.op = "load" /\ ~ev.ok /\ ~Readable(ev.k, ev.f) /\ UNCHANGED files /\ cur' = Shown /\ ready' = FALSE
         \/ ev.op = "ctor" /\ ev.ok /\ Readable(ev.k, "xml") /\ UNCHANGED files /\ cur' = Shown
            /\ (\A n \in Names : IF n \in DOMAIN files[<<ev.k, "xml">>] THEN Same(n, files[<<ev.k, "xml">>][n], Shown[n])
                                ELSE n \in NoDefault \/ Same(n, Table[n].dflt, Shown[n]))
            /\ ready' = TRUE
         \/ ev.op = "ctor" /\ ~ev.ok /\ ~Readable(ev.k, "xml") /\ UNCHANGED cvars /\ ready' = FALSE
         \/ ev.op = "consistent" /\ ev.ok = Consistent(cur, Many) /\ UNCHANGED cvars /\ Agree /\ ready' = TRUE
\* after a file that could not be read only a fresh configuration means anything
Renew == ev.e = "Op" /\ ev.op = "fresh" /\ ev.ok /\ Fresh(Shown) /\ ready' = TRUE
TraceNext == l <= Len(Trace) /\ l' = l + 1 /\ (Begin \/ Op \/ Renew)
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
