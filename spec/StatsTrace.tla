----------------------------- MODULE StatsTrace -----------------------------
EXTENDS Stats, TraceLib
VARIABLES l, at, past \* past: number of states and sums of their velocities, cell by cell
tvars == <<l, at, past, box, set, nodes, flow, tot, vals, old, resid, plane, rows, turb, plan, hot>>
ev == Trace[l]
TraceInit == l = 1 /\ at = <<>> /\ past = <<0, <<>>>> /\ box = <<>> /\ set = <<>> /\ nodes = <<>> /\ flow = <<>> /\ tot = Nothing /\ vals = <<>> /\ old = <<>> /\ resid = <<"1", "1">>
             /\ plane = <<>> /\ rows = <<>> /\ turb = <<>> /\ plan = <<>> /\ hot = <<>>
(* averages in time *)
At == Len(vals) + 1
Added(e) == IF past[1] = 1 THEN Append(past[2], e.u) ELSE [past[2] EXCEPT ![At] = [d \in 1..D |-> VAdd(@[d], e.u[d])]]
Averaged(e) == IF box.means THEN LET s == Added(e)[At] IN \A d \in 1..D : NearSeq(e.m[d], VScale(Div(1, past[1]), s[d]), box.tol) ELSE TRUE
fixed == <<box, set, nodes, flow>>
state == <<tot, vals, old, resid, plane>>
tables == <<rows, turb, plan, hot>>
(* the change is looked at every 100 iterations, as long as the run goes on *)
Look == at.i % 100 = 0 /\ ~at.last
Resid == IF Look /\ old # <<>> THEN Change(vals, old) ELSE resid
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Set" /\ set' = ev /\ UNCHANGED <<at, past, box, nodes, flow>> /\ UNCHANGED state /\ UNCHANGED tables
       \/ ev.e = "Fields" /\ flow' = ev /\ UNCHANGED <<at, past, box, set, nodes>> /\ UNCHANGED state /\ UNCHANGED tables
       \/ ev.e = "Box" /\ box' = ev /\ nodes' = Element(ev.nodes, ev.D) /\ past' = <<0, <<>>>> /\ UNCHANGED <<at, set, flow>>
          /\ tot' = Nothing /\ vals' = <<>> /\ old' = <<>> /\ resid' = <<"1", "1">> /\ plane' = <<>> /\ rows' = <<>> /\ turb' = <<>> /\ plan' = <<>> /\ hot' = <<>>
       \* a state begins
       \/ ev.e = "State" /\ at' = ev /\ past' = <<past[1] + 1, past[2]>> /\ tot' = Nothing /\ vals' = <<>> /\ plane' = [k \in 1..Len(box.planes) |-> <<>>] /\ UNCHANGED <<old, resid>> /\ UNCHANGED fixed /\ UNCHANGED tables
       \/ ev.e = "Cell" /\ Averaged(ev) = TRUE /\ past' = (IF box.means THEN <<past[1], Added(ev)>> ELSE past) /\ tot' = AddCell(tot, ev) /\ vals' = Append(vals, [rho |-> ev.rho, u |-> ev.u]) /\ UNCHANGED <<at, old, resid, plane>> /\ UNCHANGED fixed /\ UNCHANGED tables
       \/ ev.e = "Node" /\ UNCHANGED past /\ plane' = [k \in DOMAIN plane |-> IF Near(ev.x[box.axis], box.planes[k], box.thick) THEN Append(plane[k], ev.u) ELSE plane[k]]
          /\ UNCHANGED <<at, tot, vals, old, resid>> /\ UNCHANGED fixed /\ UNCHANGED tables
       \* the state is complete
       \/ ev.e = "Known" /\ UNCHANGED past /\ resid' = Resid /\ old' = (IF Look THEN vals ELSE old) /\ UNCHANGED <<tot, vals, plane>>
          /\ rows' = (IF at.i % box.table = 0 /\ tot.n > 0 THEN Append(rows, <<at.i, at.t>> \o <<Report(tot), resid'>>) ELSE rows)
          /\ turb' = (IF box.turb /\ at.i % box.table = 0 /\ at.i > 0 THEN Append(turb, <<at.i, at.t, tot.turb>>) ELSE turb)
          /\ plan' = (IF at.i % box.table = 0 /\ Len(plane) > 0 THEN Append(plan, <<at.i, at.t, PlaneRow(plane)>>) ELSE plan)
          /\ hot' = (IF box.gas /\ at.i % box.table = 0 /\ at.i > 0 THEN Append(hot, <<at.i, at.t, GasRow(tot)>>) ELSE hot)
          /\ UNCHANGED at /\ UNCHANGED fixed
       \* what is reported for the present state
       \/ ev.e = "Report" /\ UNCHANGED past /\ ev.i = at.i
          /\ (IF box.exact THEN ExactOk(ev.r, box.tol) ELSE Close(ev.r, Report(tot), box.tol)) = TRUE
          /\ (box.poly => ExactOk(ev.r, box.tol)) = TRUE
          /\ UNCHANGED at /\ UNCHANGED fixed /\ UNCHANGED state /\ UNCHANGED tables
       \* the tables after the run, row by row
       \/ ev.e = "Row" /\ UNCHANGED past /\ Len(rows) > 0 /\ rows' = Tail(rows)
          /\ LET r == Head(rows) v == ev.v IN
             (/\ ev.i = r[1] /\ Printed(v[2], r[2], "1e-12")
              /\ \A k \in 1..7 : Printed(v[2 + k], r[3][k], box.small)
              /\ Printed(v[10], r[4][2], "1e-12") /\ Printed(v[11], r[4][1], "1e-12")
              /\ Printed(v[12], r[3][8], box.small) /\ Printed(v[13], r[3][9], box.small)) = TRUE
          /\ UNCHANGED <<at, turb, plan, hot>> /\ UNCHANGED fixed /\ UNCHANGED state
       \/ ev.e = "Turb" /\ UNCHANGED past /\ Len(turb) > 0 /\ turb' = Tail(turb)
          /\ LET r == Head(turb) IN (ev.i = r[1] /\ Printed(ev.v[2], r[2], "1e-12") /\ Len(ev.v) = 2 + Len(r[3]) /\ \A k \in DOMAIN r[3] : Printed(ev.v[2 + k], r[3][k], box.small)) = TRUE
          /\ UNCHANGED <<at, rows, plan, hot>> /\ UNCHANGED fixed /\ UNCHANGED state
       \/ ev.e = "Plane" /\ UNCHANGED past /\ Len(plan) > 0 /\ plan' = Tail(plan)
          /\ LET r == Head(plan) IN (ev.i = r[1] /\ Printed(ev.v[2], r[2], "1e-12") /\ Len(ev.v) = 2 + Len(r[3]) /\ \A k \in DOMAIN r[3] : Printed(ev.v[2 + k], r[3][k], box.small)) = TRUE
          /\ UNCHANGED <<at, rows, turb, hot>> /\ UNCHANGED fixed /\ UNCHANGED state
       \/ ev.e = "Gas" /\ UNCHANGED past /\ Len(hot) > 0 /\ hot' = Tail(hot)
          /\ LET r == Head(hot) IN (ev.i = r[1] /\ Printed(ev.v[2], r[2], "1e-12") /\ Len(ev.v) = 2 + Len(r[3]) /\ \A k \in DOMAIN r[3] : Printed(ev.v[2 + k], r[3][k], box.small)) = TRUE
          /\ UNCHANGED <<at, rows, turb, plan>> /\ UNCHANGED fixed /\ UNCHANGED state
       \/ ev.e = "End" /\ UNCHANGED past /\ rows = <<>> /\ turb = <<>> /\ plan = <<>> /\ hot = <<>> /\ UNCHANGED at /\ UNCHANGED fixed /\ UNCHANGED state /\ UNCHANGED tables
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
