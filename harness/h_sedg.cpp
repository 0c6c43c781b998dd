// The SEDG advection operator on boxes.   h_sedg SCENARIOS TRACE SCRATCH
#include "box.h"
#include "natrium/advection/SEDGMinLee.h"
#include "natrium/utilities/MPIGuard.h"
template<size_t dim> static void go(const Json& j) {
	auto stencil = makeStencil(gets(j, "stencil"), getd(j, "scaling", 1)); size_t Q = stencil->getQ();
	auto prob = boost::make_shared<Box<dim> >(j);
	emitSet<dim>(*stencil);
	size_t order = geti(j, "order", 2);
	SEDGMinLee<dim> dg(*prob, order, QGAUSS_LOBATTO, GAUSS_LOBATTO_POINTS, stencil, getb(j, "central"), 0.0);
	prob->refineAndTransform();
	bool refined = false;
	for (auto c = prob->getMesh()->begin_active(); c != prob->getMesh()->end(); ++c) if (c->level() != prob->getMesh()->begin_active()->level()) refined = true;
	try { dg.setupDoFs(); dg.reassemble(); if (getb(j, "again")) dg.reassemble(); }
	catch (std::exception& e) { std::cerr << "refused: " << e.what() << std::endl; Ev("Refused").k("refined", refined); return; }
	auto& up = dg.getFe()->get_unit_support_points(); std::vector<unsigned> lex(up.size()); for (unsigned i = 0; i < lex.size(); i++) lex[i] = i;
	std::sort(lex.begin(), lex.end(), [&](unsigned a, unsigned b) { for (int d = dim - 1; d >= 0; d--) if (std::fabs(up[a][d] - up[b][d]) > 1e-9) return up[a][d] < up[b][d]; return false; });
	V nodes; for (size_t i = 0; i <= order; i++) nodes.push_back(up[lex[i]][0]);
	Ev("Nodes").k("x", nums(nodes));
	std::map<dealii::types::global_dof_index, dealii::Point<dim> > pts; dg.mapDoFsToSupportPoints(pts);
	DistributionFunctions f; f.reinit(Q, dg.getLocallyOwnedDofs(), dg.getLocallyRelevantDofs(), MPI_COMM_WORLD, true);
	bool distorted = getd(j, "distort") != 0; auto cu = getv(j, "uniform");
	Ev("Box").k("D", dim).k("lo", nums(prob->lo)).k("hi", nums(prob->hi)).k("kind", letters(gets(j, "kind"))).k("central", getb(j, "central")).k("still", !cu.empty()).raw("wall", wallJson(prob->wall)).k("tol", gets(j, "tol", "1e-8"));
	std::vector<std::vector<int> > exps; std::vector<V> co(Q);
	if (distorted) { std::mt19937 rng(geti(j, "seed", 1)); std::uniform_real_distribution<double> U(-1, 1);
		std::vector<int> e(dim, 0); for (;;) { int s = 0; for (int x : e) s += x; if (s <= (int) order) exps.push_back(e); size_t d = 0; while (d < dim && ++e[d] > (int) order) e[d++] = 0; if (d == dim) break; }
		std::vector<S> cs; for (auto& c : co) { for (size_t k = 0; k < exps.size(); k++) c.push_back(U(rng)); cs.push_back(nums(c)); }
		Ev("Poly").k("exps", exps).k("coef", cs); }
	std::vector<dealii::types::global_dof_index> ix(up.size());
	trace().hold();
	for (auto c = dg.getDoFHandler()->begin_active(); c != dg.getDoFHandler()->end(); ++c) if (c->is_locally_owned()) {
		c->get_dof_indices(ix);
		double key = 0; for (unsigned d = 0; d < dim; d++) key += (c->vertex(0)[d] - prob->lo[d]) / (prob->hi[d] - prob->lo[d]) * (d == 0 ? 7919 : d == 1 ? 104729 : 1299709);
		std::mt19937 rng((unsigned long) std::llround(key * 16) + geti(j, "seed", 1)); std::uniform_real_distribution<double> U(-1, 1);
		std::vector<S> v;
		for (size_t q = 0; q < Q; q++) { V x; for (auto k : lex) { double y = 0;
				if (distorted) { for (size_t m = 0; m < exps.size(); m++) { double t = co[q][m]; for (size_t d = 0; d < dim; d++) t *= std::pow(pts[ix[k]][d], exps[m][d]); y += t; } }
				else if (!cu.empty()) { double c2 = stencil->getSpeedOfSoundSquare(), eu = 0, uu = 0; for (size_t d = 0; d < dim; d++) { eu += cu[d] * stencil->getDirection(q)(d); uu += cu[d] * cu[d]; }
					y = stencil->getWeight(q) * (1 + eu / c2 + eu * eu / (2 * c2 * c2) - uu / (2 * c2)); }
				else y = U(rng);
				x.push_back(y); f.at(q)(ix[k]) = y; }
			v.push_back(nums(x)); }
		if (!distorted) Ev("Cell").k("lo", nums<dim>(c->vertex(0))).k("hi", nums<dim>(c->vertex((1 << dim) - 1))).k("v", v);
	}
	trace().merge();
	for (size_t q = 0; q < Q; q++) f.at(q).compress(dealii::VectorOperation::insert);
	distributed_block_vector r(f.getFStream());
	dg.getSystemMatrix().vmult(r, f.getFStream()); r.add(1.0, dg.getSystemVector());
	trace().hold(); int per = 0;
	for (auto c = dg.getDoFHandler()->begin_active(); c != dg.getDoFHandler()->end(); ++c) if (c->is_locally_owned()) {
		c->get_dof_indices(ix);
		if (!distorted) { std::vector<S> v; for (size_t q = 0; q < Q; q++) { V x; for (auto k : lex) { double y = 0; if (q) y = r.block(q - 1)(ix[k]); x.push_back(y); } v.push_back(nums(x)); }
			Ev("Change").k("lo", nums<dim>(c->vertex(0))).k("hi", nums<dim>(c->vertex((1 << dim) - 1))).k("r", v); }
		else for (auto k : lex) { auto p = pts[ix[k]]; bool side = false; for (unsigned d = 0; d < dim; d++) side |= std::fabs(p[d] - prob->lo[d]) < 1e-9 || std::fabs(p[d] - prob->hi[d]) < 1e-9;
			if (side || per++ % 5) continue; V v; for (size_t q = 0; q < Q; q++) { double y = 0; if (q) y = r.block(q - 1)(ix[k]); v.push_back(y); } Ev("Slope").k("x", nums<dim>(p)).k("r", nums(v)); }
	}
	trace().merge();
	Ev("Total");
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++; if (geti(j, "D", 2) == 3) go<3>(j); else go<2>(j); }
	done();
}
