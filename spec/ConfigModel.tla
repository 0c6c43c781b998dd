---------------------------- MODULE ConfigModel -----------------------------
(* Histories of assignments and files over all settings.  Values come from   *)
(* the edges of what is allowed and from outside of it.                      *)
EXTENDS Config, Json
CONSTANTS Chosen, MaxOps
VARIABLES log, last
mvars == <<cvars, log, last>>
Vals(n) == LET t == Table[n] IN
  CASE t.kind = "pick" -> IF n \in {"Sutherland"} THEN {"true"} ELSE t.of \cup (IF t.of = {"true", "false"} THEN {} ELSE {"99"})
    [] t.kind = "text" -> {"/tmp/a b", "relative/dir.x"}
    [] t.kind = "list" -> {<<"0.25">>, <<"0.1234567890123", "-3">>, <<>>, <<"2e10">>}
    [] t.kind = "int"  -> {t.lo, "2", IF t.hi = MaxInt THEN "3000000000" ELSE t.hi, "-1"}
    [] OTHER -> {IF Lt("0", t.lo) THEN t.lo ELSE "0.25", "0.123456789012345", Min(t.hi, "12345.678901234567"), "-1e12"}
Settable == {n \in Names : n # "PrandtlSet" /\ \A i \in 1..6 : EmbNames[i] # n}
Dflt(n) == Table[n].dflt
MInit == cur = [n \in Names |-> Dflt(n)] /\ files = <<>> /\ log = <<>> /\ last = "fresh"
Note(r) == Len(log) < MaxOps /\ log' = Append(log, r) /\ last' = r.op
MSet == \E n \in Chosen : \E v \in Vals(n) : Assign(n, v, Allowed(n, v)) /\ Note([op |-> "set", n |-> n, v |-> v])
MSave == \E k \in 1..2, f \in {"xml", "text"} : Save(k, f) /\ Note([op |-> "save", k |-> k, f |-> f])
MLoad == \E k \in 1..2, f \in {"xml", "text"} : Readable(k, f) /\ Load(k, f, TRUE) /\ Note([op |-> "load", k |-> k, f |-> f])
MCtor == \E k \in 1..2 : Readable(k, "xml") /\ cur' = Over([n \in Names |-> Dflt(n)], files[<<k, "xml">>]) /\ UNCHANGED files /\ Note([op |-> "ctor", k |-> k, f |-> "xml"])
MNext == MSet \/ MSave \/ MLoad \/ MCtor
MSpec == MInit /\ [][MNext]_mvars
AlwaysAllowed == \A n \in Names : Allowed(n, cur[n])
FilesAllowed == \A k \in DOMAIN files : \A n \in Names : Allowed(n, files[k][n])
RoundTrip == last = "load" => \E k \in DOMAIN files : files[k] = cur
Emit == Len(log) = MaxOps => PrintT("@@" \o ToJson(log))
TableOut == log = <<>> => PrintT("##" \o ToJson([n \in Names |-> [kind |-> Table[n].kind, lo |-> Table[n].lo, hi |-> Table[n].hi, vals |-> Vals(n), settable |-> n \in Settable]]))
View == <<cvars, last>>
=============================================================================
