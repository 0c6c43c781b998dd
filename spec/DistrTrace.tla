------------------------------ MODULE DistrTrace ------------------------------
EXTENDS Distr, TraceLib
VARIABLE l
tvars == <<dvars, l>>
ev == Trace[l]
Ok == ev.r = "ok"
Do == CASE ev.op \in {"make", "remake"} -> Ok /\ Make(ev.o, ev.q, FALSE)
        [] ev.op \in {"makedg", "remakedg"} -> Ok /\ Make(ev.o, ev.q, TRUE)
        [] ev.op = "copy" -> Ok /\ Copy(ev.o, ev.p)
        [] ev.op = "assign" -> Assign(ev.o, ev.p, ev.r)
        [] ev.op \in {"write", "writestream"} -> Write(ev.o, ev.q, ev.i + 1, ev.v, ev.r)
        [] ev.op \in {"update", "compress"} -> Ok /\ Update(ev.o)
        [] ev.op = "setf0" -> Ok /\ SetF0(ev.o, ev.x)
        [] ev.op = "setstream" -> SetStream(ev.o, ev.p, ev.r)
        [] ev.op = "fromvec" -> Ok /\ FromVectors(ev.o, ev.q, ev.x)
        [] ev.op = "scale" -> Ok /\ Scale(ev.o, ev.v)
        [] ev.op = "equals" -> Ok /\ Equals(ev.o, ev.p, ev.eq)
        [] ev.op \in {"beyond", "beyondghost"} -> Beyond(ev.o, ev.q, ev.r)
Is(m, f) == Len(m) = Cardinality(DOMAIN f) /\ \A k \in DOMAIN f : m[k + 1] = f[k]
Agree == LET s == set[ev.who] IN
    /\ ev.Q = s.Q /\ ev.n = s.Q /\ ev.dg = s.dg /\ ev.same
    /\ Is(ev.at, s.v) /\ Is(ev.cat, s.v) /\ Is(ev.blk, s.v) /\ Is(ev.flat, s.v)
    /\ Is(ev.gh, s.gh) /\ Is(ev.cgh, s.gh)
    /\ Len(ev.sizes) = s.Q /\ \A k \in 1..Len(ev.sizes) : ev.sizes[k] = N
TraceInit == l = 1 /\ set = <<>>
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Begin" /\ set' = <<>>
       \/ ev.e = "Op" /\ Do
       \/ ev.e = "Look" /\ ev.who \in Live /\ Agree /\ UNCHANGED set
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
