-------------------------------- MODULE Real --------------------------------
(* Real numbers as decimal strings ("0.25", "-1e-3", "NaN").  TLC has no     *)
(* reals; the operators below are evaluated by java/Real.java in double      *)
(* precision.  Their meaning is the usual one; the bodies only give them a   *)
(* type.  Ints may be given wherever a real is expected.                     *)
LOCAL INSTANCE Naturals
LOCAL INSTANCE Sequences
Add(a, b) == CHOOSE x \in STRING : TRUE
Sub(a, b) == CHOOSE x \in STRING : TRUE
Mul(a, b) == CHOOSE x \in STRING : TRUE
Div(a, b) == CHOOSE x \in STRING : TRUE
Opp(a)    == CHOOSE x \in STRING : TRUE
Abs(a)    == CHOOSE x \in STRING : TRUE
Sqrt(a)   == CHOOSE x \in STRING : TRUE
Exp(a)    == CHOOSE x \in STRING : TRUE
Cos(a)    == CHOOSE x \in STRING : TRUE
Pow(a, n) == CHOOSE x \in STRING : TRUE
Max(a, b) == CHOOSE x \in STRING : TRUE
Min(a, b) == CHOOSE x \in STRING : TRUE
Lt(a, b)  == CHOOSE x \in BOOLEAN : TRUE
Le(a, b)  == CHOOSE x \in BOOLEAN : TRUE
Finite(a) == CHOOSE x \in BOOLEAN : TRUE
Floor(a)  == CHOOSE x \in Nat : TRUE
(* |a - b| <= eps * max(1, |a|, |b|) *)
Near(a, b, eps) == CHOOSE x \in BOOLEAN : TRUE
(* sum of a sequence; scalar product of two sequences; largest element *)
Sum(s)     == CHOOSE x \in STRING : TRUE
Dot(s, t)  == CHOOSE x \in STRING : TRUE
MaxOf(s)   == CHOOSE x \in STRING : TRUE
MinOf(s)   == CHOOSE x \in STRING : TRUE
(* element by element: sum, difference, product, power; multiple *)
VAdd(s, t)   == CHOOSE x \in Seq(STRING) : TRUE
VSub(s, t)   == CHOOSE x \in Seq(STRING) : TRUE
VMul(s, t)   == CHOOSE x \in Seq(STRING) : TRUE
VPow(s, n)   == CHOOSE x \in Seq(STRING) : TRUE
VScale(a, s) == CHOOSE x \in Seq(STRING) : TRUE
(* sum of all values (sequences) of a function *)
VTotal(f) == CHOOSE x \in Seq(STRING) : TRUE
(* matrix (sequence of rows) times vector *)
MatVec(m, s) == CHOOSE x \in Seq(STRING) : TRUE
Sin(a) == CHOOSE x \in STRING : TRUE
Log(a) == CHOOSE x \in STRING : TRUE
VAbs(s) == CHOOSE x \in Seq(STRING) : TRUE
(* |s[i] - t[i]| <= tol[i] for all i *)
NearBy(s, t, tol) == CHOOSE x \in BOOLEAN : TRUE
(* all elements Near *)
NearSeq(s, t, eps) == CHOOSE x \in BOOLEAN : TRUE
(* monomials prod p[d]^e[d], one per sequence e of exponents; Lagrange basis *)
(* of the nodes at x; all products s[i]*t[j], i running faster               *)
Mono(exps, p) == CHOOSE x \in Seq(STRING) : TRUE
Lagrange(nodes, a) == CHOOSE x \in Seq(STRING) : TRUE
Outer(s, t) == CHOOSE x \in Seq(STRING) : TRUE
(* matrix from values at the nodes to derivatives there; weights on [0,1] of *)
(* the quadrature that integrates the interpolation                          *)
LagrangeD(nodes) == CHOOSE x \in Seq(Seq(STRING)) : TRUE
LagrangeW(nodes) == CHOOSE x \in Seq(STRING) : TRUE
(* Legendre polynomials of degrees 0..n on [0,1] at a; inverse matrix;       *)
(* Kronecker product, the indices of the first matrix running faster         *)
Legendre(n, a) == CHOOSE x \in Seq(STRING) : TRUE
Invert(m) == CHOOSE x \in Seq(Seq(STRING)) : TRUE
Kron(a, b) == CHOOSE x \in Seq(Seq(STRING)) : TRUE
=============================================================================
