import tlc2.value.impl.*;
import util.UniqueString;

/** Evaluates the operators of module Real in double precision. */
public class Real {
	static double d(Value v) {
		if (v instanceof IntValue) return ((IntValue) v).val;
		if (v instanceof StringValue) {
			String s = ((StringValue) v).val.toString();
			if (s.endsWith("nan") || s.equals("NaN")) return Double.NaN;
			if (s.equals("inf")) return Double.POSITIVE_INFINITY;
			if (s.equals("-inf")) return Double.NEGATIVE_INFINITY;
			return Double.parseDouble(s);
		}
		throw new RuntimeException("not a number: " + v);
	}
	static Value r(double x) { return new StringValue(Double.toString(x == 0 ? 0.0 : x)); }
	static Value b(boolean x) { return x ? BoolValue.ValTrue : BoolValue.ValFalse; }
	static double[] seq(Value v) {
		TupleValue t = (TupleValue) v.toTuple();
		if (t == null) throw new RuntimeException("not a sequence: " + v);
		double[] a = new double[t.elems.length];
		for (int i = 0; i < a.length; i++) a[i] = d(t.elems[i]);
		return a;
	}
	static boolean near(double a, double b, double eps) {
		if (Double.isNaN(a) || Double.isNaN(b)) return false;
		if (a == b) return true;
		return Math.abs(a - b) <= eps * Math.max(1, Math.max(Math.abs(a), Math.abs(b)));
	}
	public static Value Add(Value x, Value y) { return r(d(x) + d(y)); }
	public static Value Sub(Value x, Value y) { return r(d(x) - d(y)); }
	public static Value Mul(Value x, Value y) { return r(d(x) * d(y)); }
	public static Value Div(Value x, Value y) { return r(d(x) / d(y)); }
	public static Value Opp(Value x) { return r(-d(x)); }
	public static Value Abs(Value x) { return r(Math.abs(d(x))); }
	public static Value Sqrt(Value x) { return r(Math.sqrt(d(x))); }
	public static Value Exp(Value x) { return r(Math.exp(d(x))); }
	public static Value Cos(Value x) { return r(Math.cos(d(x))); }
	public static Value Pow(Value x, Value n) { return r(Math.pow(d(x), d(n))); }
	public static Value Max(Value x, Value y) { return r(Math.max(d(x), d(y))); }
	public static Value Min(Value x, Value y) { return r(Math.min(d(x), d(y))); }
	public static Value Lt(Value x, Value y) { return b(d(x) < d(y)); }
	public static Value Le(Value x, Value y) { return b(d(x) <= d(y)); }
	public static Value Finite(Value x) { return b(!Double.isNaN(d(x)) && !Double.isInfinite(d(x))); }
	public static Value Floor(Value x) { return IntValue.gen((int) Math.floor(d(x))); }
	public static Value Near(Value x, Value y, Value eps) { return b(near(d(x), d(y), d(eps))); }
	public static Value Sum(Value s) { double t = 0; for (double x : seq(s)) t += x; return r(t); }
	public static Value Dot(Value s, Value t) {
		double[] a = seq(s), c = seq(t); double x = 0;
		if (a.length != c.length) throw new RuntimeException("Dot: lengths differ");
		for (int i = 0; i < a.length; i++) x += a[i] * c[i];
		return r(x);
	}
	static Value v(double[] x) { Value[] a = new Value[x.length]; for (int i = 0; i < x.length; i++) a[i] = r(x[i]); return new TupleValue(a); }
	static double[][] two(Value s, Value t) {
		double[] a = seq(s), c = seq(t);
		if (a.length != c.length) throw new RuntimeException("lengths differ");
		return new double[][] { a, c };
	}
	public static Value VAdd(Value s, Value t) { double[][] p = two(s, t); for (int i = 0; i < p[0].length; i++) p[0][i] += p[1][i]; return v(p[0]); }
	public static Value VSub(Value s, Value t) { double[][] p = two(s, t); for (int i = 0; i < p[0].length; i++) p[0][i] -= p[1][i]; return v(p[0]); }
	public static Value VMul(Value s, Value t) { double[][] p = two(s, t); for (int i = 0; i < p[0].length; i++) p[0][i] *= p[1][i]; return v(p[0]); }
	public static Value VPow(Value s, Value n) { double[] a = seq(s); double k = d(n); for (int i = 0; i < a.length; i++) a[i] = Math.pow(a[i], k); return v(a); }
	public static Value VScale(Value x, Value s) { double[] a = seq(s); double k = d(x); for (int i = 0; i < a.length; i++) a[i] *= k; return v(a); }
	public static Value VAbs(Value s) { double[] a = seq(s); for (int i = 0; i < a.length; i++) a[i] = Math.abs(a[i]); return v(a); }
	public static Value NearBy(Value s, Value t, Value tol) {
		double[][] p = two(s, t); double[] e = seq(tol);
		for (int i = 0; i < p[0].length; i++) if (!(Math.abs(p[0][i] - p[1][i]) <= e[i])) return b(false);
		return b(true);
	}
	/** sum of all values (vectors) of a function */
	public static Value VTotal(Value f) {
		Value[] e; Value t = f.toTuple();
		if (t != null) e = ((TupleValue) t).elems; else e = ((FcnRcdValue) f.toFcnRcd()).values;
		double[] x = null;
		for (Value q : e) { double[] a = seq(q); if (x == null) x = a.clone(); else { if (x.length != a.length) throw new RuntimeException("lengths differ"); for (int i = 0; i < x.length; i++) x[i] += a[i]; } }
		return v(x);
	}
	public static Value MatVec(Value m, Value s) {
		TupleValue t = (TupleValue) m.toTuple(); double[] c = seq(s), x = new double[t.elems.length];
		for (int i = 0; i < x.length; i++) {
			double[] a = seq(t.elems[i]);
			if (a.length != c.length) throw new RuntimeException("lengths differ");
			for (int j = 0; j < c.length; j++) x[i] += a[j] * c[j];
		}
		return v(x);
	}
	public static Value Sin(Value x) { return r(Math.sin(d(x))); }
	public static Value Log(Value x) { return r(Math.log(d(x))); }
	public static Value MaxOf(Value s) { double t = Double.NEGATIVE_INFINITY; for (double x : seq(s)) t = Math.max(t, x); return r(t); }
	public static Value MinOf(Value s) { double t = Double.POSITIVE_INFINITY; for (double x : seq(s)) t = Math.min(t, x); return r(t); }
	public static Value NearSeq(Value s, Value t, Value eps) {
		double[] a = seq(s), c = seq(t); double e = d(eps);
		if (a.length != c.length) return b(false);
		for (int i = 0; i < a.length; i++) if (!near(a[i], c[i], e)) return b(false);
		return b(true);
	}
	/** the monomials prod_d p[d]^e[d], one for each sequence e of exponents */
	public static Value Mono(Value exps, Value p) {
		TupleValue t = (TupleValue) exps.toTuple(); double[] c = seq(p), x = new double[t.elems.length];
		for (int i = 0; i < x.length; i++) { double[] e = seq(t.elems[i]); x[i] = 1; for (int k = 0; k < e.length; k++) x[i] *= Math.pow(c[k], e[k]); }
		return v(x);
	}
	/** the Lagrange basis of the nodes at x */
	public static Value Lagrange(Value nodes, Value x) {
		double[] n = seq(nodes), y = new double[n.length]; double z = d(x);
		for (int i = 0; i < n.length; i++) { y[i] = 1; for (int k = 0; k < n.length; k++) if (k != i) y[i] *= (z - n[k]) / (n[i] - n[k]); }
		return v(y);
	}
	/** all products s[i] * t[j], i running faster */
	public static Value Outer(Value s, Value t) {
		double[] a = seq(s), c = seq(t), x = new double[a.length * c.length];
		for (int j = 0; j < c.length; j++) for (int i = 0; i < a.length; i++) x[j * a.length + i] = a[i] * c[j];
		return v(x);
	}
	/** rows of the matrix that takes values at the nodes to derivatives at the nodes */
	public static Value LagrangeD(Value nodes) {
		double[] n = seq(nodes); int N = n.length; Value[] rows = new Value[N];
		for (int i = 0; i < N; i++) { double[] r = new double[N];
			for (int j = 0; j < N; j++) { double t = 0; for (int m = 0; m < N; m++) if (m != j) { double y = 1 / (n[j] - n[m]); for (int k = 0; k < N; k++) if (k != j && k != m) y *= (n[i] - n[k]) / (n[j] - n[k]); t += y; } r[j] = t; }
			rows[i] = v(r); }
		return new TupleValue(rows);
	}
	/** weights of the quadrature on [0,1] that integrates the interpolation at the nodes */
	public static Value LagrangeW(Value nodes) {
		double[] n = seq(nodes); int N = n.length; double[] w = new double[N];
		for (int j = 0; j < N; j++) { double[] c = {1}; double den = 1;
			for (int k = 0; k < N; k++) if (k != j) { double[] e = new double[c.length + 1]; for (int i = 0; i < c.length; i++) { e[i + 1] += c[i]; e[i] -= n[k] * c[i]; } c = e; den *= n[j] - n[k]; }
			for (int i = 0; i < c.length; i++) w[j] += c[i] / (i + 1) / den; }
		return v(w);
	}
	static double[][] mat(Value m) {
		TupleValue t = (TupleValue) m.toTuple(); double[][] a = new double[t.elems.length][];
		for (int i = 0; i < a.length; i++) a[i] = seq(t.elems[i]);
		return a;
	}
	static Value rows(double[][] a) { Value[] r = new Value[a.length]; for (int i = 0; i < r.length; i++) r[i] = v(a[i]); return new TupleValue(r); }
	/** values of the Legendre polynomials of degrees 0..n on [0,1] */
	public static Value Legendre(Value n, Value x) {
		int N = (int) d(n); double z = 2 * d(x) - 1; double[] p = new double[N + 1]; p[0] = 1; if (N > 0) p[1] = z;
		for (int k = 1; k < N; k++) p[k + 1] = ((2 * k + 1) * z * p[k] - k * p[k - 1]) / (k + 1);
		return v(p);
	}
	public static Value Invert(Value m) {
		double[][] a = mat(m); int n = a.length; double[][] b = new double[n][n];
		for (int i = 0; i < n; i++) b[i][i] = 1;
		for (int c = 0; c < n; c++) {
			int p = c; for (int i = c; i < n; i++) if (Math.abs(a[i][c]) > Math.abs(a[p][c])) p = i;
			if (a[p][c] == 0) throw new RuntimeException("singular matrix");
			double[] t = a[c]; a[c] = a[p]; a[p] = t; t = b[c]; b[c] = b[p]; b[p] = t;
			double f = 1 / a[c][c]; for (int k = 0; k < n; k++) { a[c][k] *= f; b[c][k] *= f; }
			for (int i = 0; i < n; i++) if (i != c && a[i][c] != 0) { double g = a[i][c]; for (int k = 0; k < n; k++) { a[i][k] -= g * a[c][k]; b[i][k] -= g * b[c][k]; } }
		}
		return rows(b);
	}
	/** Kronecker product; the indices of the first matrix run faster */
	public static Value Kron(Value x, Value y) {
		double[][] a = mat(x), b = mat(y); int n = a.length, m = b.length, p = a[0].length, q = b[0].length; double[][] r = new double[n * m][p * q];
		for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < p; k++) for (int l = 0; l < q; l++) r[j * n + i][l * p + k] = a[i][k] * b[j][l];
		return rows(r);
	}
}
