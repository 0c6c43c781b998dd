------------------------------ MODULE TraceLib ------------------------------
(* Reading a trace recorded from the implementation: one JSON record per     *)
(* line, in the file named by the environment variable TRACE.  Field e is    *)
(* the name of the action, the other fields are its arguments and results.   *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

ToSet(s) == {s[k] : k \in 1..Len(s)}
Has(ev, f) == f \in DOMAIN ev

(* Accepted iff some behaviour of the specification consumes the whole file. *)
Accepted == LET d == TLCGet("stats").diameter IN d - 1 = Len(Trace)
=============================================================================
