----------------------------- MODULE SedgTrace -----------------------------
EXTENDS Sedg, TraceLib
VARIABLES l, mass, seen
tvars == <<l, box, set, nodes, cells, poly, mass, seen>>
ev == Trace[l]
Closed == \A s \in 1..2 * D : box.kind[s] = "P"
TraceInit == l = 1 /\ box = <<>> /\ set = <<>> /\ nodes = <<>> /\ cells = <<>> /\ poly = <<>> /\ mass = <<>> /\ seen = {}
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Set" /\ set' = ev /\ UNCHANGED <<box, nodes, cells, poly, mass, seen>>
       \/ ev.e = "Box" /\ box' = ev /\ cells' = <<>> /\ poly' = <<>> /\ seen' = {} /\ mass' = [q \in 1..Q |-> "0"] /\ UNCHANGED <<set, nodes>>
       \/ ev.e = "Nodes" /\ nodes' = [x |-> ev.x, d |-> LagrangeD(ev.x), w |-> LagrangeW(ev.x)] /\ UNCHANGED <<box, set, cells, poly, mass, seen>>
       \/ ev.e = "Poly" /\ poly' = ev /\ UNCHANGED <<box, set, nodes, cells, mass, seen>>
       \/ ev.e = "Cell" /\ cells' = Append(cells, ev) /\ UNCHANGED <<box, set, nodes, poly, mass, seen>>
       \/ ev.e = "Change" /\ LET k == CHOOSE i \in DOMAIN cells : cells[i].lo = ev.lo /\ cells[i].hi = ev.hi IN
                             /\ k \notin seen /\ seen' = seen \cup {k}
                             /\ ChangeOk(cells[k], ev.r) = TRUE
                             /\ (box.still => \A q \in 2..Q : \A j \in DOMAIN ev.r[q] : Near(ev.r[q][j], 0, box.tol)) = TRUE
                             /\ mass' = VAdd(mass, Mass(cells[k], ev.r))
                          /\ UNCHANGED <<box, set, nodes, cells, poly>>
       \/ ev.e = "Slope" /\ Gradient(ev.x, ev.r) = TRUE /\ UNCHANGED <<box, set, nodes, cells, poly, mass, seen>>
       \* upwind fluxes lose nothing; everything was looked at
       \/ ev.e = "Total" /\ seen = DOMAIN cells
                         /\ (Closed => \A q \in 1..Q : Near(mass[q], 0, box.tol)) = TRUE
                         /\ UNCHANGED <<box, set, nodes, cells, poly, mass, seen>>
       \/ ev.e = "Refused" /\ ev.refined = TRUE /\ UNCHANGED <<box, set, nodes, cells, poly, mass, seen>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
