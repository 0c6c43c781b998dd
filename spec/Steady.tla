------------------------------- MODULE Steady -------------------------------
(* Whole runs.  A uniform flow in a periodic box stays uniform and, without  *)
(* a force, as it is (a force accelerates it uniformly); mass, momentum and  *)
(* energy of periodic flows stay; the image of a flow under a symmetry of    *)
(* the box and of the velocities is the flow of the image.                   *)
EXTENDS Integers, Sequences, FiniteSets, Real, TLC
VARIABLES set, run,
          qmap, imap,  \* indices of populations and nodes in the original, for each index in the image
          ref,         \* cells of the original, by number along the axes
          seen,        \* cells of the present look
          first, tot, tot0, \* populations of the first node (of the run if the flow keeps them, otherwise of the look); sums over the cells now and at the first look
          clock
D == run.D
Q == Len(set.c)
P1 == Len(run.nodes)
NodesPerCell == IF D = 2 THEN P1 * P1 ELSE P1 * P1 * P1
Flat(s, x, size) == \A k \in DOMAIN s : Le(Abs(Sub(s[k], x)), Mul(run.tol, size))
Forced == \E d \in 1..D : ~Near(run.F[d], 0, "1e-300")
(* velocity reported after i steps: the start has a collision of its own, and half of a kick is included *)
Speed(i) == [d \in 1..D |-> IF Forced THEN Add(run.u[d], Div(Mul(Mul(run.F[d], run.dt), Add(i, "0.5")), run.rho)) ELSE run.u[d]]
Resting(cl, f0) ==
    /\ Flat(cl.rho, run.rho, run.rho)
    /\ Flat(cl.T, run.T, 1)
    /\ \A d \in 1..D : Flat(cl.u[d], Speed(clock.i)[d], run.size)
    /\ \A q \in 1..Q : Flat(cl.f[q], f0[q], run.rho)
(* ---- sums over the cells: mass, momentum, energy *)
Weights == LET w == LagrangeW(run.nodes) IN IF D = 2 THEN Outer(w, w) ELSE Outer(Outer(w, w), w)
Volume(cl) == LET v(d) == Sub(cl.hi[d], cl.lo[d]) IN IF D = 2 THEN Mul(v(1), v(2)) ELSE Mul(Mul(v(1), v(2)), v(3))
Columns == [d \in 1..D |-> [q \in 1..Q |-> Div(set.c[q][d], run.size)]]
C2 == [q \in 1..Q |-> Div(Dot(set.c[q], set.c[q]), set.cs2)]
Content(cl) ==
    LET w == VScale(Volume(cl), Weights) m == [q \in 1..Q |-> Dot(w, cl.f[q])] IN
    <<Dot(w, [k \in DOMAIN w |-> "1"]), Sum(m)>> \o [d \in 1..D |-> Dot(m, Columns[d])]
    \o (IF run.thermal THEN <<Add(Dot(m, C2), Sum([q \in 1..Q |-> Dot(w, cl.g[q])]))>> ELSE <<>>)
Gain(i) == IF Forced THEN <<0, 0>> \o [d \in 1..D |-> Div(Mul(Mul(Mul(run.F[d], run.dt), i), tot0[1]), run.size)] ELSE [k \in DOMAIN tot0 |-> 0]
Conserved(i) == \A k \in DOMAIN tot0 : Le(Abs(Sub(tot[k], Add(tot0[k], Gain(i)[k]))), Mul(run.drift, tot0[2])) \/ (PrintT(<<"sums", tot, tot0>>) /\ FALSE)
(* ---- images: axis d of the image is axis perm[d], reversed and moved *)
Mirrored(d) == run.sign[d] < 0
Symmetric == \A q \in 1..Q : \E p \in 1..Q : Near(set.w[p], set.w[q], "1e-12") /\ \A d \in 1..D : Near(set.c[q][d], Mul(run.sign[d], set.c[p][run.perm[d] + 1]), "1e-9")
QMap == [q \in 1..Q |-> CHOOSE p \in 1..Q : \A d \in 1..D : Near(set.c[q][d], Mul(run.sign[d], set.c[p][run.perm[d] + 1]), "1e-9")]
Digit(i, d) == IF d = 1 THEN (i - 1) % P1 ELSE IF d = 2 THEN ((i - 1) \div P1) % P1 ELSE (i - 1) \div (P1 * P1)
Axis(a) == CHOOSE d \in 1..D : run.perm[d] = a - 1
Old(i, a) == LET d == Axis(a) IN IF Mirrored(d) THEN P1 - 1 - Digit(i, d) ELSE Digit(i, d)
IMap == [i \in 1..NodesPerCell |-> 1 + Old(i, 1) + P1 * Old(i, 2) + (IF D = 3 THEN P1 * P1 * Old(i, 3) ELSE 0)]
OldCell(k) == [a \in 1..D |-> LET d == Axis(a) n == run.cells[d] b == (k[d] - run.shift[d] + n * 1000) % n IN IF Mirrored(d) THEN n - 1 - b ELSE b]
Original(s) == [i \in 1..NodesPerCell |-> s[imap[i]]]
Like(a, b, size) == \A k \in DOMAIN a : Le(Abs(Sub(a[k], b[k])), Mul(run.tol, size))
Image(cl) ==
    LET o == ref[OldCell(cl.k)] IN
    /\ OldCell(cl.k) \in DOMAIN ref
    /\ Like(cl.rho, Original(o.rho), 1)
    /\ Like(cl.T, Original(o.T), 1)
    /\ \A d \in 1..D : Like(cl.u[d], VScale(run.sign[d], Original(o.u[run.perm[d] + 1])), run.size)
    /\ \A q \in 1..Q : Like(cl.f[q], Original(o.f[qmap[q]]), 1)
    /\ run.thermal => \A q \in 1..Q : Like(cl.g[q], Original(o.g[qmap[q]]), 1)
(* ---- the start of a run that is resumed on a mesh refined run.finer times: *)
(* the populations are those of the coarse cells, density and velocity theirs *)
Times == IF run.finer = 0 THEN 1 ELSE IF run.finer = 1 THEN 2 ELSE IF run.finer = 2 THEN 4 ELSE 8
Coarse(k) == [d \in 1..D |-> k[d] \div Times]
Place(k, d, x) == Div(Add(k[d] % Times, x), Times)
Basis(k) == LET b(d) == [m \in 1..P1 |-> Lagrange(run.nodes, Place(k, d, run.nodes[m]))] IN
            IF D = 2 THEN Kron(b(1), b(2)) ELSE Kron(Kron(b(1), b(2)), b(3))
(* temperature: energy of the motion relative to the flow, and of the second populations *)
Heat(cl, i) ==
    LET far(q) == Sum([d \in 1..D |-> Pow(Sub(set.c[q][d], cl.u[d][i]), 2)])
        e == Add(Div(Sum([q \in 1..Q |-> Mul(far(q), cl.f[q][i])]), set.cs2), Sum([q \in 1..Q |-> cl.g[q][i]]))
    IN Div(Mul(e, Sub(run.gamma, 1)), Mul(2, cl.rho[i]))
FromCoarse(cl) ==
    /\ Coarse(cl.k) \in DOMAIN ref
    /\ LET o == ref[Coarse(cl.k)] b == Basis(cl.k)
           sum(i) == Sum([q \in 1..Q |-> cl.f[q][i]])
           mom(d, i) == Dot([q \in 1..Q |-> set.c[q][d]], [q \in 1..Q |-> cl.f[q][i]]) IN
       /\ \A q \in 1..Q : Like(cl.f[q], MatVec(b, o.f[q]), 1)
       /\ run.thermal /\ ~run.reheat => \A q \in 1..Q : Like(cl.g[q], MatVec(b, o.g[q]), 1)
       /\ run.thermal => \A i \in 1..NodesPerCell : Le(Abs(Sub(cl.T[i], Heat(cl, i))), run.tol)
       /\ run.finer = 0 => /\ Like(cl.rho, o.rho, 1)
                           /\ Forced \/ \A d \in 1..D : Like(cl.u[d], o.u[d], run.size)
       /\ \A i \in 1..NodesPerCell : /\ Le(Abs(Sub(cl.rho[i], sum(i))), run.tol)
                                     /\ \A d \in 1..D : Le(Abs(Sub(cl.u[d][i], Div(mom(d, i), sum(i)))), Mul(run.tol, run.size))
=============================================================================
