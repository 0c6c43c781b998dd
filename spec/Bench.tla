-------------------------------- MODULE Bench --------------------------------
(* Benchmarks: the distance of a state to the analytic solution, and the     *)
(* solution files.  The analytic solution is a field that grows in time.     *)
EXTENDS Integers, Sequences, Real, Fields
VARIABLES bench, comp, \* comp: velocity components of the analytic solution
          state,       \* present state: iteration, time, cells
          sums, high,  \* integrals of the squared errors, largest values
          rows,        \* rows of the error table that are due
          kept         \* all states, for the solution files
D == bench.D
w == LagrangeW(bench.nodes)
N == Len(bench.nodes)
Weights == IF D = 2 THEN Outer(w, w) ELSE Outer(Outer(w, w), w)
Count == IF D = 2 THEN N * N ELSE N * N * N
Ix(k, d) == 1 + (CASE d = 1 -> (k - 1) % N [] d = 2 -> ((k - 1) \div N) % N [] d = 3 -> (k - 1) \div (N * N))
Point(cl, k) == [d \in 1..D |-> Add(cl.lo[d], Mul(bench.nodes[Ix(k, d)], Sub(cl.hi[d], cl.lo[d])))]
AnalyticRho(p, t) == Add(Value(bench.rho, bench.trig, p), Mul(t, Value(bench.drho, bench.trig, p)))
AnalyticU(d, p, t) == Add(Value(comp[d].u, bench.trig, p), Mul(t, Value(comp[d].du, bench.trig, p)))
Analytic(cl, t) == LET p == [k \in 1..Count |-> Point(cl, k)] IN
    [rho |-> [k \in 1..Count |-> AnalyticRho(p[k], t)], u |-> [d \in 1..D |-> [k \in 1..Count |-> AnalyticU(d, p[k], t)]]]
Volume(cl) == IF D = 2 THEN Mul(Sub(cl.hi[1], cl.lo[1]), Sub(cl.hi[2], cl.lo[2])) ELSE Mul(Mul(Sub(cl.hi[1], cl.lo[1]), Sub(cl.hi[2], cl.lo[2])), Sub(cl.hi[3], cl.lo[3]))
RECURSIVE Total(_)
Total(s) == IF Len(s) = 1 THEN s[1] ELSE VAdd(s[1], Total(Tail(s)))
Square(u) == Total([d \in DOMAIN u |-> VMul(u[d], u[d])])
Apart(cl, a) == Square([d \in 1..D |-> VSub(cl.u[d], a.u[d])])
(* squared errors of the velocity and the density in a cell *)
Errors(cl, a) == LET v == VScale(Volume(cl), Weights) r == VSub(cl.rho, a.rho) IN <<Dot(v, Apart(cl, a)), Dot(v, VMul(r, r))>>
(* largest velocity, error of the velocity, error of the density (the first two squared) *)
Largest(cl, a) == <<MaxOf(Square(a.u)), MaxOf(Apart(cl, a)), MaxOf(VAbs(VSub(cl.rho, a.rho)))>>
None == <<"0", "0", "0">>
Row == <<state.i, state.t, Sqrt(high[1]), Sqrt(high[2]), high[3], Sqrt(sums[1]), Sqrt(sums[2])>>
Due(i) == i % bench.every = 0
(* numbers as printed: six digits *)
Printed(a, b) == Le(Abs(Sub(a, b)), Add(Mul("6e-6", Abs(b)), "2e-15"))
------------------------------------------------------------------------------
(* solution files: every cell is a patch of bench.patch intervals per axis *)
M == bench.patch + 1
Axis(k, d) == (CASE d = 1 -> (k - 1) % M [] d = 2 -> ((k - 1) \div M) % M [] d = 3 -> (k - 1) \div (M * M))
Spots == IF D = 2 THEN M * M ELSE M * M * M
B(j) == Lagrange(bench.nodes, Div(j, bench.patch))
ShapeAt(k) == IF D = 2 THEN Outer(B(Axis(k, 1)), B(Axis(k, 2))) ELSE Outer(Outer(B(Axis(k, 1)), B(Axis(k, 2))), B(Axis(k, 3)))
Corner(cl) == [d \in 1..D |-> cl.lo[d]]
SpotAt(cl, k, d) == Add(cl.lo[d], Mul(Div(Axis(k, d), bench.patch), Sub(cl.hi[d], cl.lo[d])))
Same(a, b) == Len(a) = Len(b) /\ NearSeq(a, b, bench.tol)
OfCell(cl, e) == \A d \in 1..D : Near(e.x[d][1], cl.lo[d], bench.tol) /\ Near(e.x[d][Spots], cl.hi[d], bench.tol)
Owners(st, e) == {k \in DOMAIN st.cells : OfCell(st.cells[k], e)}
PatchOk(cl, e, t) ==
    LET a == Analytic(cl, t) s == [k \in 1..Spots |-> ShapeAt(k)] v(x) == MatVec(s, x) IN
    /\ \A d \in 1..D : Same(e.x[d], [k \in 1..Spots |-> SpotAt(cl, k, d)])
    /\ Same(e.rho, v(cl.rho))
    /\ (\A d \in 1..D : Same(e.u[d], v(cl.u[d])) /\ Same(e.au[d], v(a.u[d])))
    /\ Same(e.arho, v(a.rho))
    /\ (cl.T = <<>> \/ Same(e.T, v(cl.T)))
    /\ e.r = cl.r
=============================================================================
