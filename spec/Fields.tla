------------------------------- MODULE Fields -------------------------------
(* Fields given as sums of monomials or waves: their values and slopes.      *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE Real
Axes(p) == 1..Len(p)
Phase(t, p) == Add(Dot(SubSeq(t.e, 1, Len(p)), p), t.e[Len(p) + 1])
TermAt(t, trig, p) == IF trig THEN Mul(t.c, Cos(Phase(t, p))) ELSE Mul(t.c, Mono(<<t.e>>, p)[1])
Value(f, trig, p) == Sum([k \in DOMAIN f |-> TermAt(f[k], trig, p)])
Lower(e, d) == [e EXCEPT ![d] = IF Lt(@, "0.5") THEN 0 ELSE Sub(@, 1)]
TermSlope(t, trig, p, d) ==
    IF trig THEN Opp(Mul(Mul(t.c, t.e[d]), Sin(Phase(t, p))))
    ELSE Mul(Mul(t.c, t.e[d]), Mono(<<Lower(t.e, d)>>, p)[1])
Slope(f, trig, p, d) == Sum([k \in DOMAIN f |-> TermSlope(f[k], trig, p, d)])
=============================================================================
