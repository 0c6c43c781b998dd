---------------------------- MODULE SteadyTrace ----------------------------
EXTENDS Steady, TraceLib
VARIABLE l
VARIABLES rows, files, at \* rows of the tables and files of the original, rows of the image so far
vars == <<rows, files, at, set, run, qmap, imap, ref, seen, first, tot, tot0, clock>>
ev == Trace[l]
Pred(b) == b
None == [c \in {} |-> 0]
Out == <<rows, files, at>>
(* numbers as they are printed *)
Printed(a, b) == Le(Abs(Sub(a, b)), Add(Mul("2e-5", Max(Abs(a), Abs(b))), run.tol))
Alike(v, w) == Len(v) = Len(w) /\ \A k \in DOMAIN v : v[k] = w[k] \/ Printed(v[k], w[k]) \* the entropy is not a number where a population is negative
(* every process writes its part of each solution *)
Parts(f, np) == {<<r, p[2]>> : r \in 0..np - 1, p \in ToSet(f.parts)}
Written(f) == ToSet(f.parts) = Parts(f, f.np) /\ Len(f.parts) = Cardinality(Parts(f, f.np))
SameFiles(f, g) == ToSet(f.plain) = ToSet(g.plain) /\ {p[2] : p \in ToSet(f.parts)} = {p[2] : p \in ToSet(g.parts)}
TraceInit == l = 1 /\ rows = <<>> /\ files = <<>> /\ at = 0 /\ set = <<>> /\ run = <<>> /\ qmap = <<>> /\ imap = <<>> /\ ref = None /\ seen = {} /\ first = <<>> /\ tot = <<>> /\ tot0 = <<>> /\ clock = [i |-> 0, t |-> "0", ok |-> FALSE, end |-> <<0, "0">>]
TraceNext ==
    /\ l <= Len(Trace) /\ l' = l + 1
    /\ \/ ev.e = "Set" /\ set' = ev /\ UNCHANGED Out /\ UNCHANGED <<run, qmap, imap, ref, seen, first, tot, tot0, clock>>
       \/ ev.e = "Run" /\ at' = 0 /\ rows' = (IF ev.mode = "image" THEN rows ELSE <<>>) /\ files' = (IF ev.mode = "image" THEN files ELSE <<>>) /\ UNCHANGED set /\ run' = ev /\ first' = <<>> /\ tot' = <<>> /\ tot0' = <<>> /\ seen' = {} /\ clock' = [i |-> 0, t |-> "0", ok |-> FALSE, end |-> IF run = <<>> \/ ev.mode \notin {"image", "finer"} THEN <<>> ELSE IF run.mode = "image" THEN clock.end ELSE <<clock.i, clock.t>>]
          /\ ref' = (IF ev.mode \in {"image", "finer"} THEN ref ELSE None)
          /\ Pred(ev.mode = "image" => Symmetric') = TRUE /\ qmap' = (IF ev.mode = "image" THEN QMap' ELSE <<>>) /\ imap' = (IF ev.mode = "image" THEN IMap' ELSE <<>>)
       \/ ev.e = "Look" /\ UNCHANGED Out /\ seen' = {} /\ tot' = <<>> /\ Pred(run.mode \in {"image", "finer"} => ev.i = clock.end[1] /\ Near(ev.t, clock.end[2], "1e-12")) = TRUE /\ clock' = [clock EXCEPT !.i = ev.i, !.t = ev.t, !.ok = FALSE]
          /\ first' = (IF run.keeps THEN first ELSE <<>>) /\ UNCHANGED <<set, run, qmap, imap, ref, tot0>>
       \/ ev.e = "Cell" /\ UNCHANGED Out /\ ev.k \notin seen /\ seen' = seen \cup {ev.k} /\ UNCHANGED <<set, run, qmap, imap, tot0>>
          /\ CASE run.mode = "steady" ->
                  LET f0 == IF first = <<>> THEN [q \in 1..Q |-> ev.f[q][1]] ELSE first IN
                  first' = f0 /\ Resting(ev, f0) = TRUE /\ UNCHANGED <<ref, tot, clock>>
             [] run.mode = "image" -> Image(ev) = TRUE /\ UNCHANGED <<clock, first, ref, tot>>
             [] run.mode = "finer" -> FromCoarse(ev) = TRUE /\ UNCHANGED <<clock, first, ref, tot>>
             [] OTHER -> /\ tot' = (IF tot = <<>> THEN Content(ev) ELSE VAdd(tot, Content(ev)))
                         /\ ref' = (ev.k :> ev) @@ ref /\ UNCHANGED <<clock, first>>
       \/ ev.e = "Done" /\ UNCHANGED Out /\ (run.mode = "image" => {OldCell(k) : k \in seen} = DOMAIN ref) /\ (run.mode = "finer" => seen = {[d \in 1..D |-> Times * k[d] + a[d]] : a \in [1..D -> 0..Times - 1], k \in DOMAIN ref}) /\ seen # {}
          /\ tot0' = (IF tot0 = <<>> THEN tot ELSE tot0)
          /\ (run.mode = "keeps" /\ tot0 # <<>> => Conserved(clock.i)) = TRUE
          /\ clock' = [clock EXCEPT !.ok = TRUE] /\ UNCHANGED <<set, run, qmap, imap, ref, seen, first, tot>>
       \* tables and files
       \/ ev.e = "Row" /\ clock.ok /\ at' = at + 1 /\ UNCHANGED <<files, set, run, qmap, imap, ref, seen, first, tot, tot0, clock>>
          /\ IF run.mode = "image" THEN at < Len(rows) /\ Alike(ev.v, rows[at + 1]) = TRUE /\ UNCHANGED rows ELSE rows' = Append(rows, ev.v)
       \/ ev.e = "Files" /\ at = Len(rows) /\ Written(ev) = TRUE /\ UNCHANGED <<at, rows, set, run, qmap, imap, ref, seen, first, tot, tot0, clock>>
          /\ IF run.mode = "image" THEN SameFiles(ev, files) = TRUE /\ UNCHANGED files ELSE files' = ev
       \/ ev.e = "Quiet" /\ UNCHANGED vars  \* a run that only leaves its checkpoint
       \/ ev.e = "Exited" /\ ev.how = "done" /\ UNCHANGED vars
       \/ ev.e = "End" /\ clock.ok /\ UNCHANGED vars
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l>>
TraceAccepted == Accepted
=============================================================================
