// Time integrators on small linear systems.   h_time SCENARIOS TRACE SCRATCH
#include "trace.h"
#include <random>
#include <deal.II/lac/dynamic_sparsity_pattern.h>
#include <deal.II/lac/block_sparsity_pattern.h>
#include <deal.II/lac/trilinos_sparsity_pattern.h>
#include "natrium/timeintegration/ThetaMethod.h"
#include "natrium/timeintegration/RungeKutta5LowStorage.h"
#include "natrium/timeintegration/ExponentialTimeIntegrator.h"
#include "natrium/timeintegration/DealIIWrapper.h"
#include "natrium/utilities/MPIGuard.h"
#include "box.h"
typedef std::vector<V> M;
static int rank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
static int procs() { int n; MPI_Comm_size(MPI_COMM_WORLD, &n); return n; }
/// full sparsity, nb blocks of n rows
template<class MAT, class VEC> struct Sys;
template<> struct Sys<sparse_matrix, numeric_vector> {
	dealii::SparsityPattern sp; sparse_matrix A; numeric_vector f, b; bool own(size_t) { return true; }
	Sys(int, int n) { dealii::DynamicSparsityPattern d(n, n); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) d.add(i, j); sp.copy_from(d); A.reinit(sp); f.reinit(n); b.reinit(n); }
	void set(int i, int j, double v) { A.set(i, j, v); } void done() {}
};
template<> struct Sys<sparse_block_matrix, block_vector> {
	dealii::BlockSparsityPattern sp; sparse_block_matrix A; block_vector f, b; bool own(size_t) { return true; }
	Sys(int nb, int n) : sp(nb, nb) { dealii::BlockDynamicSparsityPattern d(nb, nb); for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) d.block(i, j).reinit(n, n); d.collect_sizes();
		for (int i = 0; i < nb * n; i++) for (int j = 0; j < nb * n; j++) d.add(i, j); sp.copy_from(d); A.reinit(sp); f.reinit(nb, n); b.reinit(nb, n); }
	void set(int i, int j, double v) { A.set(i, j, v); } void done() {}
};
static dealii::IndexSet part(int n) { dealii::IndexSet s(n); int p = procs(), r = rank(); s.add_range(n * r / p, n * (r + 1) / p); return s; }
template<> struct Sys<distributed_sparse_matrix, distributed_vector> {
	distributed_sparse_matrix A; distributed_vector f, b; dealii::IndexSet o;
	bool own(size_t i) { return o.is_element(i); }
	Sys(int, int n) : o(part(n)) { dealii::TrilinosWrappers::SparsityPattern d(o, o, MPI_COMM_WORLD); for (auto i : o) for (int j = 0; j < n; j++) d.add(i, j); d.compress(); A.reinit(d); f.reinit(o, MPI_COMM_WORLD); b.reinit(o, MPI_COMM_WORLD); }
	void set(int i, int j, double v) { if (own(i)) A.set(i, j, v); } void done() { A.compress(dealii::VectorOperation::insert); f.compress(dealii::VectorOperation::insert); b.compress(dealii::VectorOperation::insert); }
};
template<> struct Sys<distributed_sparse_block_matrix, distributed_block_vector> {
	distributed_sparse_block_matrix A; distributed_block_vector f, b; dealii::IndexSet o; int n;
	bool own(size_t i) { return o.is_element(i % n); }
	Sys(int nb, int n) : o(part(n)), n(n) { dealii::TrilinosWrappers::SparsityPattern d(o, o, MPI_COMM_WORLD); for (auto i : o) for (int j = 0; j < n; j++) d.add(i, j); d.compress();
		A.reinit(nb, nb); for (int i = 0; i < nb; i++) for (int j = 0; j < nb; j++) A.block(i, j).reinit(d); A.collect_sizes();
		f.reinit(nb); b.reinit(nb); for (int i = 0; i < nb; i++) { f.block(i).reinit(o, MPI_COMM_WORLD); b.block(i).reinit(o, MPI_COMM_WORLD); } f.collect_sizes(); b.collect_sizes(); }
	void set(int i, int j, double v) { if (own(i)) A.block(i / n, j / n).set(i % n, j % n, v); } void done() { A.compress(dealii::VectorOperation::insert); f.compress(dealii::VectorOperation::insert); b.compress(dealii::VectorOperation::insert); }
};
template<class MAT, class VEC> struct MakeExp { static boost::shared_ptr<TimeIntegrator<MAT, VEC> > make(double dt, int nb) { return boost::make_shared<ExponentialTimeIntegrator<MAT, VEC> >(dt, nb); } };
template<> struct MakeExp<sparse_matrix, numeric_vector> { static boost::shared_ptr<TimeIntegrator<sparse_matrix, numeric_vector> > make(double dt, int) { return boost::make_shared<ExponentialTimeIntegrator<sparse_matrix, numeric_vector> >(dt); } };
template<> struct MakeExp<distributed_sparse_matrix, distributed_vector> { static boost::shared_ptr<TimeIntegrator<distributed_sparse_matrix, distributed_vector> > make(double dt, int) { return boost::make_shared<ExponentialTimeIntegrator<distributed_sparse_matrix, distributed_vector> >(dt); } };
static const char* DEAL[] = { "FORWARD_EULER", "RK_THIRD_ORDER", "RK_CLASSIC_FOURTH_ORDER", "BACKWARD_EULER", "IMPLICIT_MIDPOINT", "CRANK_NICOLSON", "SDIRK_TWO_STAGES", "HEUN_EULER", "BOGACKI_SHAMPINE", "DOPRI", "FEHLBERG", "CASH_KARP" };
static std::string rows(const M& m) { std::string s = "["; for (auto& r : m) s += (s.size() > 1 ? "," : "") + Ev::arr(nums(r)); return s + "]"; }
template<class MAT, class VEC> static void go(const Json& j) {
	int nb = geti(j, "blocks", 1), n = geti(j, "n", 3), N = nb * n; Sys<MAT, VEC> s(nb, n);
	std::mt19937 rng(geti(j, "seed", 1)); std::uniform_real_distribution<double> U(-1, 1);
	std::string kind = gets(j, "matrix", "random"), name = gets(j, "scheme"); double scale = getd(j, "scale", 1), dt = getd(j, "dt", .1);
	M A(N, V(N)); V f(N), b(N);
	auto matrix = [&] { // entries of size scale / N at most
		for (int i = 0; i < N; i++) for (int k = 0; k < N; k++) A[i][k] = scale * U(rng) / N;
		if (kind == "upper") for (int i = 0; i < N; i++) for (int k = 0; k <= i; k++) A[i][k] = 0; // nilpotent
		if (kind == "zero") for (auto& r : A) for (double& x : r) x = 0;
		if (kind == "balance") for (int i = 0; i < N; i++) { A[i][i] = 0; double t = 0; for (double x : A[i]) t += x; A[i][i] = -t; } // constants are steady
		if (kind == "negative") { for (int i = 0; i < N; i++) for (int k = 0; k < i; k++) A[i][k] = A[k][i]; for (int i = 0; i < N; i++) A[i][i] -= scale; }
		if (kind == "skew") for (int i = 0; i < N; i++) for (int k = 0; k <= i; k++) A[i][k] = i == k ? 0 : -A[k][i];
	};
	auto state = [&] { std::string w = gets(j, "state", "random"); double c = U(rng); for (double& x : f) x = w == "zero" ? 0 : w == "const" ? c : U(rng); };
	auto source = [&] { for (double& x : b) x = getb(j, "source") ? scale * U(rng) : 0; };
	auto put = [&] { for (int i = 0; i < N; i++) { for (int k = 0; k < N; k++) s.set(i, k, A[i][k]); if (s.own(i)) { s.f(i) = f[i]; s.b(i) = b[i]; } } s.done(); };
	auto get = [&] { V x(N); for (int i = 0; i < N; i++) if (s.own(i)) x[i] = s.f(i); if (procs() > 1) { V y(N); MPI_Allreduce(x.data(), y.data(), N, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD); x = y; } return x; };
	matrix(); state(); source(); put();
	boost::shared_ptr<TimeIntegrator<MAT, VEC> > ti; boost::shared_ptr<DealIIWrapper<MAT, VEC> > de; double theta = getd(j, "theta", .5);
	double co = 1.2, re = .8, mi = 1e-14, ma = 1e100, rt = 1e-8, ct = 1e-12;
	if (name == "RK5") ti = boost::make_shared<RungeKutta5LowStorage<MAT, VEC> >(dt, s.f);
	else if (name == "THETA") ti = boost::make_shared<ThetaMethod<MAT, VEC> >(dt, s.f, theta);
	else if (name == "EXPONENTIAL") ti = MakeExp<MAT, VEC>::make(dt, nb);
	else { int k = 0; while (name != DEAL[k]) k++;
		if (getb(j, "tuned")) { co = 1.5; re = .5; mi = dt * getd(j, "min", .01); ma = dt * 1.2; rt = getd(j, "refinetol", 1e-5); ct = rt * getd(j, "ratio", .1);
			de = boost::make_shared<DealIIWrapper<MAT, VEC> >(dt, (DealIntegratorName) k, (DealSolverName) geti(j, "solver"), co, re, mi, ma, rt, ct); }
		else de = boost::make_shared<DealIIWrapper<MAT, VEC> >(dt, (DealIntegratorName) k, (DealSolverName) geti(j, "solver"));
		ti = de; }
	std::ostringstream sc; sc << "{\"name\":\"" << name << "\",\"theta\":\"" << num(theta) << "\",\"tol\":\"" << gets(j, "tol", "1e-10") << "\",\"coarsen\":\"" << num(co) << "\",\"refine\":\"" << num(re) << "\",\"min\":\"" << num(mi) << "\",\"max\":\"" << num(ma) << "\",\"refinetol\":\"" << num(rt) << "\",\"coarsentol\":\"" << num(ct) << "\"}";
	Ev("System").raw("A", rows(A)).k("b", nums(b)).raw("scheme", sc.str()).k("f", nums(f)).k("h", num(ti->getTimeStepSize()));
	double t = getd(j, "t");
	for (int k = 0; k < geti(j, "steps", 4); k++) {
		int what = geti(j, "alter") ? rng() % 5 : 9;
		if (what < 3) { if (what == 0) matrix(); if (what == 1) source(); f = get(); if (what == 2) state(); put(); Ev("Alter").raw("A", rows(A)).k("b", nums(b)).k("f", nums(f)); }
		if (what == 3) { ti->setTimeStepSize(dt * (1 + .5 * U(rng))); Ev("SetStep").k("h", num(ti->getTimeStepSize())); }
		double d = rng() % 2 ? 0 : rng() % 2 ? dt : dt * (1 + .5 * U(rng));
		double ret = ti->step(s.f, s.A, s.b, t, d);
		{ Ev e("Step"); e.k("t", num(t)).k("dt", num(d)).k("ret", num(ret)).k("h", num(ti->getTimeStepSize())).k("f", nums(get())); 
		if (de && de->getDealIIEmbedded()) e.k("guess", num(de->getDealIIEmbedded()->get_status().delta_t_guess)); }
		t = ret;
	}
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++; std::string t = gets(j, "type", "sparse");
		if (t == "sparse") go<sparse_matrix, numeric_vector>(j); else if (t == "block") go<sparse_block_matrix, block_vector>(j);
		else if (t == "dist") go<distributed_sparse_matrix, distributed_vector>(j); else go<distributed_sparse_block_matrix, distributed_block_vector>(j); }
	done();
}
