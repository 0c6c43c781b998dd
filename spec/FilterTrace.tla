---------------------------- MODULE FilterTrace ----------------------------
EXTENDS Filter, TraceLib, FiniteSets
VARIABLES l, cells, seen, mass, after
tvars == <<l, par, to, from, cells, seen, mass, after>>
ev == Trace[l]
Volume(e) == Mul(Mul(Sub(e.hi[1], e.lo[1]), Sub(e.hi[2], e.lo[2])), IF par.D = 3 THEN Sub(e.hi[3], e.lo[3]) ELSE 1)
MassOf(e) == [q \in DOMAIN e.v |-> Mul(Volume(e), Mean(e.v[q]))]
Plus(s, e) == IF s = <<>> THEN MassOf(e) ELSE VAdd(s, MassOf(e))
TraceInit == l = 1 /\ par = <<>> /\ to = <<>> /\ from = <<>> /\ cells = <<>> /\ seen = {} /\ mass = <<>> /\ after = <<>>
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Filter" /\ par' = ev /\ from' = From(ev) /\ to' = Invert(From(ev)) /\ cells' = <<>> /\ seen' = {} /\ mass' = <<>> /\ after' = <<>>
       \/ ev.e = "Before" /\ cells' = Append(cells, ev) /\ mass' = Plus(mass, ev) /\ UNCHANGED <<par, to, from, seen, after>>
       \/ ev.e = "After" /\ LET k == CHOOSE i \in DOMAIN cells : cells[i].lo = ev.lo /\ cells[i].hi = ev.hi IN
                            /\ k \notin seen /\ seen' = seen \cup {k} /\ ev.i = cells[k].i
                            /\ CellOk(ev.i, cells[k].v, ev.v) = TRUE
                         /\ after' = Plus(after, ev) /\ UNCHANGED <<par, to, from, cells, mass>>
       \* every cell was filtered; nothing is lost altogether
       \/ ev.e = "Done" /\ seen = DOMAIN cells /\ seen # {}
                        /\ (KeepsMean => NearSeq(after, mass, "1e-9")) = TRUE
                        /\ cells' = <<>> /\ seen' = {} /\ mass' = <<>> /\ after' = <<>> /\ UNCHANGED <<par, to, from>>
       \/ ev.e = "Run" /\ ev.steps = 3 /\ Near(ev.diff, "0", "1e-13") = TRUE /\ Finite(ev.size) = TRUE /\ UNCHANGED <<par, to, from, cells, seen, mass, after>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
