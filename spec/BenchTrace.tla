----------------------------- MODULE BenchTrace -----------------------------
EXTENDS Bench, FiniteSets, TraceLib
VARIABLES l, open \* open: cells the files of the present iteration still have to hold
tvars == <<l, open, bench, comp, state, sums, high, rows, kept>>
ev == Trace[l]
Nowhere == [i |-> -1, t |-> "0", cells |-> <<>>]
(* solutions are written every bench.sol iterations and at the end *)
Following(i) == IF i < 0 THEN 0 ELSE IF i + bench.sol > bench.steps THEN bench.steps ELSE i + bench.sol
Kept(i) == kept[CHOOSE k \in DOMAIN kept : kept[k].i = i]
TraceInit == l = 1 /\ open = {} /\ bench = <<>> /\ comp = <<>> /\ state = Nowhere /\ sums = <<"0", "0">> /\ high = None /\ rows = <<>> /\ kept = <<>>
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Bench" /\ bench' = ev /\ comp' = <<>> /\ state' = Nowhere /\ rows' = <<>> /\ kept' = <<>> /\ UNCHANGED <<open, sums, high>>
       \/ ev.e = "Component" /\ comp' = Append(comp, [u |-> ev.u, du |-> ev.du]) /\ UNCHANGED <<open, bench, state, sums, high, rows, kept>>
       \* a state is seen, cell by cell
       \/ ev.e = "State" /\ ev.i = Following(state.i) /\ state' = [i |-> ev.i, t |-> ev.t, cells |-> <<>>] /\ sums' = <<"0", "0">> /\ high' = None /\ UNCHANGED <<open, bench, comp, rows, kept>>
       \/ ev.e = "Cell" /\ (LET a == Analytic(ev, state.t) m == Largest(ev, a) IN
             /\ sums' = VAdd(sums, Errors(ev, a)) /\ high' = [k \in 1..3 |-> Max(high[k], m[k])])
          /\ state' = [state EXCEPT !.cells = IF bench.files THEN Append(@, ev) ELSE @] /\ UNCHANGED <<open, bench, comp, rows, kept>>
       \/ ev.e = "Known" /\ rows' = (IF Due(state.i) THEN Append(rows, Row) ELSE rows) /\ kept' = Append(kept, state) /\ UNCHANGED <<open, bench, comp, state, sums, high>>
       \* the table after the run; when the last iteration is due, it is written on its own at the end
       \/ ev.e = "Row" /\ Len(rows) > 0 /\ rows' = Tail(rows)
          /\ (LET r == Head(rows) IN ev.i = r[1] /\ Len(ev.v) = 7 /\ \A k \in 2..7 : Printed(ev.v[k], r[k])) = TRUE
          /\ UNCHANGED <<open, bench, comp, state, sums, high, kept>>
       \/ ev.e = "Rows" /\ rows = <<>> /\ state.i = bench.steps /\ UNCHANGED <<open, bench, comp, state, sums, high, rows, kept>>
       \* the solution files of an iteration
       \/ ev.e = "Files" /\ (\E k \in DOMAIN kept : kept[k].i = ev.i) = TRUE /\ open' = DOMAIN Kept(ev.i).cells /\ UNCHANGED <<bench, comp, state, sums, high, rows, kept>>
       \/ ev.e = "File" /\ ev.readable /\ ev.whole /\ UNCHANGED <<open, bench, comp, state, sums, high, rows, kept>>
       \/ ev.e = "Patch" /\ (LET st == Kept(ev.i) IN
             /\ (Cardinality(Owners(st, ev)) = 1) = TRUE
             /\ LET k == CHOOSE k \in Owners(st, ev) : TRUE IN
                (k \in open /\ PatchOk(st.cells[k], ev, st.t)) = TRUE /\ open' = open \ {k})
          /\ UNCHANGED <<bench, comp, state, sums, high, rows, kept>>
       \/ ev.e = "Filed" /\ open = {} /\ UNCHANGED <<open, bench, comp, state, sums, high, rows, kept>>
       \/ ev.e = "End" /\ UNCHANGED <<open, bench, comp, state, sums, high, rows, kept>>
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == Accepted
=============================================================================
