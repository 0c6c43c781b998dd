// The semi-Lagrangian streaming step on boxes.   h_stream SCENARIOS TRACE SCRATCH
#include "box.h"
#include "natrium/advection/SemiLagrangian.h"
#include "natrium/utilities/MPIGuard.h"
template<size_t dim> static void go(const Json& j) {
	auto stencil = makeStencil(gets(j, "stencil"), getd(j, "scaling", 1)); size_t Q = stencil->getQ();
	auto prob = boost::make_shared<Box<dim> >(j);
	emitSet<dim>(*stencil);
	size_t order = geti(j, "order", 2);
	SemiLagrangian<dim> sl(*prob, order, stencil, 0.0);
	prob->refineAndTransform();
	sl.setupDoFs();
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > pts; sl.mapDoFsToSupportPoints(pts);
	std::mt19937 rng(geti(j, "seed", 1)); std::uniform_real_distribution<double> U(-1, 1);
	double time = getd(j, "time");
	for (double dt : getv(j, "dt")) {
		sl.setDeltaT(dt); sl.reassemble(); if (getb(j, "again")) sl.reassemble();
		{ Ev("Box").k("D", dim).k("lo", nums(prob->lo)).k("hi", nums(prob->hi)).k("kind", letters(gets(j, "kind"))).k("dt", num(dt)).k("time", num(time)).k("temp", num(getd(j, "temp", 1))).k("still", !getv(j, "uniform").empty()).raw("wall", wallJson(prob->wall)).k("tol", gets(j, "tol", "1e-8")); }
		DistributionFunctions f, g; f.reinit(Q, sl.getLocallyOwnedDofs(), sl.getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
		g.reinit(Q, sl.getLocallyOwnedDofs(), sl.getLocallyRelevantDofs(), MPI_COMM_WORLD, false);
		std::string what = gets(j, "field", "poly");
		if (what == "poly") {
			std::vector<std::vector<int> > exps; bool total = getd(j, "distort") != 0; // up to the order in every axis; in total on distorted cells
			std::vector<int> e(dim, 0); for (;;) { int s = 0; for (int x : e) s += x; if (!total || s <= (int) order) exps.push_back(e); size_t d = 0; while (d < dim && ++e[d] > (int) order) e[d++] = 0; if (d == dim) break; }
			if (getb(j, "const")) exps.resize(1);
			std::vector<V> co(Q); for (auto& c : co) for (size_t k = 0; k < exps.size(); k++) c.push_back(U(rng));
			auto cu = getv(j, "uniform"); // equilibrium of density one and this velocity
			if (!cu.empty()) { exps.assign(1, std::vector<int>(dim, 0)); for (size_t q = 0; q < Q; q++) { double c2 = stencil->getSpeedOfSoundSquare(), eu = 0, uu = 0; for (size_t d = 0; d < dim; d++) { eu += cu[d] * stencil->getDirection(q)(d); uu += cu[d] * cu[d]; }
				co[q] = V(1, stencil->getWeight(q) * (1 + eu / c2 + eu * eu / (2 * c2 * c2) - uu / (2 * c2))); } }
			std::vector<S> cs; for (auto& c : co) cs.push_back(nums(c));
			Ev("Poly").k("exps", exps).k("coef", cs);
			for (auto i : sl.getLocallyOwnedDofs()) for (size_t q = 0; q < Q; q++) { double x = 0; for (size_t k = 0; k < exps.size(); k++) { double m = co[q][k]; for (size_t d = 0; d < dim; d++) m *= std::pow(pts[i][d], exps[k][d]); x += m; } f.at(q)(i) = x; }
		} else { // any values at the support points (one process only)
			for (size_t i = 0; i < sl.getDoFHandler()->n_dofs(); i++) for (size_t q = 0; q < Q; q++) f.at(q)(i) = U(rng);
			auto& up = sl.getFe()->get_unit_support_points(); std::vector<unsigned> lex(up.size()); for (unsigned i = 0; i < lex.size(); i++) lex[i] = i;
			std::sort(lex.begin(), lex.end(), [&](unsigned a, unsigned b) { for (int d = dim - 1; d >= 0; d--) if (std::fabs(up[a][d] - up[b][d]) > 1e-9) return up[a][d] < up[b][d]; return false; });
			V nodes; for (size_t i = 0; i <= order; i++) nodes.push_back(up[lex[i]][0]);
			Ev("Nodal").k("nodes", nums(nodes));
			std::vector<dealii::types::global_dof_index> ix(up.size());
			for (auto c = sl.getDoFHandler()->begin_active(); c != sl.getDoFHandler()->end(); ++c) { c->get_dof_indices(ix); std::vector<S> v; for (size_t q = 0; q < Q; q++) { V x; for (auto k : lex) x.push_back(f.at(q)(ix[k])); v.push_back(nums(x)); }
				Ev("Cell").k("lo", nums<dim>(c->vertex(0))).k("hi", nums<dim>(c->vertex((1 << dim) - 1))).k("v", v); }
		}
		for (size_t q = 0; q < Q; q++) f.at(q).compress(dealii::VectorOperation::insert);
		dealii::Vector<double> rest(sl.getDoFHandler()->n_dofs()); for (auto i : sl.getLocallyOwnedDofs()) rest(i) = f.at(0)(i);
		double ret = sl.stream(g, f, time);
		std::vector<size_t> ids; for (auto i : sl.getLocallyOwnedDofs()) ids.push_back(i);
		std::mt19937 pick(geti(j, "seed", 1) + 9); std::shuffle(ids.begin(), ids.end(), pick);
		size_t np = dealii::Utilities::MPI::n_mpi_processes(MPI_COMM_WORLD), most = geti(j, "points", 40); if (ids.size() > most / np) ids.resize(most / np);
		trace().hold();
		for (auto i : ids) { V v; for (size_t q = 0; q < Q; q++) v.push_back(f.at(q)(i));
			int cor = 0; for (size_t d = 0; d < dim; d++) cor += gets(j, "kind")[2 * d] != 'P' && (std::fabs(pts[i][d] - prob->lo[d]) < 1e-9 || std::fabs(pts[i][d] - prob->hi[d]) < 1e-9);
			Ev(cor > 1 ? "Corner" : "At").k("x", nums<dim>(pts[i])).k("v", nums(v)).k("rest", num(rest(i))); }
		trace().merge();
		Ev("Step").k("n", (long) dealii::Utilities::MPI::sum((int) ids.size(), MPI_COMM_WORLD)).k("dt", num(ret));
	}
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++; if (geti(j, "D", 2) == 3) go<3>(j); else go<2>(j); }
	done();
}
