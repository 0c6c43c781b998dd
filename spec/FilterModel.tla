---------------------------- MODULE FilterModel ----------------------------
(* Filters of every kind, applied again and again to the values of a cell.    *)
EXTENDS Filter, FiniteSets, TLC
CONSTANTS Orders, Dims, MaxApplied
VARIABLES v, v0, n
mvars == <<par, to, from, v, v0, n>>
Nodes == << <<"0","1">>, <<"0","0.5","1">>, <<"0", Mul("0.5", Sub(1, Sqrt("0.2"))), Mul("0.5", Add(1, Sqrt("0.2"))), "1">>,
            <<"0", Mul("0.5", Sub(1, Sqrt(Div(3, 7)))), "0.5", Mul("0.5", Add(1, Sqrt(Div(3, 7)))), "1">> >>
Pars == {[D |-> d, nodes |-> Nodes[p], kind |-> k, alpha |-> a, s |-> s, Nc |-> c, bysum |-> b, interval |-> 1, apart |-> TRUE] :
            d \in Dims, p \in Orders, k \in {"exp", "new"}, a \in {"10", "36"}, s \in {1, 4}, c \in 0..3, b \in BOOLEAN}
Sense(p) == (p.kind = "new" => p.Nc = 0 /\ ~p.bysum) /\ p.Nc <= Len(p.nodes) - 1
Unit(k) == [i \in 1..Modes |-> IF i = k THEN "1" ELSE "0"]
Constants == [i \in 1..Modes |-> "0.7"]
MInit == /\ par \in {p \in Pars : Sense(p)}
         /\ from = From(par) /\ to = Invert(from)
         /\ v0 \in {Unit(1), Unit(Modes), Unit((Modes + 1) \div 2), Constants} /\ v = v0 /\ n = 0
Apply == n < MaxApplied /\ v' = Filtered(v) /\ n' = n + 1 /\ UNCHANGED <<par, to, from, v0>>
MSpec == MInit /\ [][Apply]_mvars
-----------------------------------------------------------------------------
F == Factors
Degree(m) == IF par.kind = "new" \/ par.bysum THEN Total(Along(m - 1)) ELSE Largest(Along(m - 1))
Range01 == \A m \in 1..Modes : Le(0, F[m]) /\ Le(F[m], 1)
Falling == \A a, b \in 1..Modes : Degree(a) <= Degree(b) => Le(F[b], Mul(F[a], "1.000000001"))
LowKept == par.kind = "exp" => \A m \in 1..Modes : Degree(m) < par.Nc => F[m] = "1"
TopDamped == Near(F[Modes], Exp(Opp(par.alpha)), "1e-9")
RoundTrip == \A k \in {1, Modes} : NearSeq(MatVec(to, MatVec(from, Unit(k))), Unit(k), "1e-9")
MeanKept == KeepsMean => Near(Mean(v), Mean(v0), "1e-9")
ConstantKept == (KeepsMean /\ Constant(v0)) => NearSeq(v, v0, "1e-9")
(* every mode has been multiplied by its factor, once per application *)
Modal == NearSeq(MatVec(to, v), VMul(VPow(F, n), MatVec(to, v0)), "1e-9")
(* what the trace specification accepts is this, and nothing else *)
Told == /\ CellOk(0, <<v>>, <<Filtered(v)>>)
        /\ ~NearSeq(Filtered(v), v, "1e-6") => ~CellOk(0, <<v>>, <<v>>)
=============================================================================
