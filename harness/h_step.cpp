// Time step and relaxation time.   h_step SCENARIOS TRACE SCRATCH
#include "flow.h"
#include "natrium/collision/BGKStandard.h"
#include "natrium/collision_advanced/AuxiliaryCollisionFunctions.h"
#include <deal.II/fe/fe_q.h>
template<size_t dim> static void mesh(const Json& j, const Mesh<dim>& m) {
	size_t p = geti(j, "order", 2); dealii::FE_Q<dim> fe(p); auto lex = lexicographic<dim>(fe); V x; for (size_t i = 0; i <= p; i++) x.push_back(fe.get_unit_support_points()[lex[i]][0]);
	Ev("Mesh").k("D", dim).k("p", (long) p).k("cfl", num(getd(j, "cfl", 0.4))).k("nu", num(getd(j, "nu", .1) * getd(j, "scaling", 1))).k("x", nums(x));
	trace().hold();
	for (auto c = m.begin_active(); c != m.end(); ++c) if (c->is_locally_owned()) { std::vector<S> v; for (unsigned i = 0; i < 1 << dim; i++) v.push_back(nums<dim>(c->vertex(i))); Ev("Cell").k("v", v); }
	trace().merge();
}
template<size_t dim> static void step(const Json& j, const Mesh<dim>& m, const Stencil& st, bool refined, bool halved) {
	size_t p = geti(j, "order", 2);
	Ev("Step").k("fastest", num(st.getMaxParticleVelocityMagnitude())).k("h", num(CFDSolverUtilities::getMinimumVertexDistance<dim>(m))).k("gll", num(CFDSolverUtilities::getMinimumDoFDistanceGLL<dim>(m, p)))
		.k("fe", num(CFDSolverUtilities::getMinimumDoFDistanceGLL<dim>(m, p))).k("dt", num(CFDSolverUtilities::calculateTimestep<dim>(m, p, st, getd(j, "cfl", 0.4)))).k("refined", refined).k("halved", halved);
}
template<size_t dim> static void go(const Json& j, const std::string& base) {
	auto prob = boost::make_shared<FlowBox<dim> >(j);
	double sc = getd(j, "scaling", 1);
	if (gets(j, "mode") == "mesh") {
		auto st = makeStencil(gets(j, "stencil"), sc); emitSet<dim>(*st);
		auto& m = *prob->getMesh(); prob->refineAndTransform();
		mesh<dim>(j, m); step<dim>(j, m, *st, false, false);
		double dt = CFDSolverUtilities::calculateTimestep<dim>(m, geti(j, "order", 2), *st, getd(j, "cfl", 0.4)), nu = getd(j, "nu", .1) * sc;
		Ev("Tau").k("tau", num(BGKStandard::calculateRelaxationParameter(nu, dt, *st)));
		Ev("Tau").k("tau", num(calculateTauFromNu(nu, st->getSpeedOfSoundSquare(), dt) - 0.5));
		for (double by : { 0.25, 3.0, 17.5 }) { auto s2 = makeStencil(gets(j, "stencil"), sc * by); Ev("Scaled").k("by", num(by)).k("dt", num(CFDSolverUtilities::calculateTimestep<dim>(m, geti(j, "order", 2), *s2, getd(j, "cfl", 0.4)))).k("cs", num(s2->getSpeedOfSound())); }
		S names; for (size_t id = 1; id <= 15; id++) { TimeIntegratorName t; DealIntegratorName d; std::string n; CFDSolverUtilities::get_integrator_by_id(id, t, d, n); names.push_back(n); }
		Ev("Names").k("v", names);
		for (int k = 0; k < geti(j, "refinements", 1); k++) {
			bool local = geti(j, "local") > 0; 
			if (local) { int n = 0; for (auto c = m.begin_active(); c != m.end(); ++c, n++) if (n % 3 == 0 && c->is_locally_owned()) c->set_refine_flag(); m.execute_coarsening_and_refinement(); }
			else m.refine_global(1);
			mesh<dim>(j, m); step<dim>(j, m, *st, true, !local && getd(j, "distort") == 0);
		}
		return;
	}
	auto conf = flowConfig(j, base + "/out"); bool free = geti(j, "embedded") > 0;
	if (free) conf->setEmbeddedDealIntegratorParameters(1.5, .5, getd(j, "mincfl", .02), getd(j, "maxcfl", 1.0), getd(j, "reftol", 1e-6), getd(j, "coarsetol", 1e-8));
	Flow<dim> s(conf, prob); auto& st = *s.getStencil(); size_t Q = st.getQ();
	emitSet<dim>(st); mesh<dim>(j, *prob->getMesh());
	Ev("Begin").k("dt", num(s.getTimeStepSize())).k("advected", num(s.adv().getDeltaT())).k("t", num(s.getTime()));
	auto populations = [&]() { std::vector<V> r; size_t n = 0, all = s.points().size(), some = geti(j, "points", 20); std::mt19937 rng(geti(j, "seed", 1));
		for (auto& p : s.points()) if (s.adv().getLocallyOwnedDofs().is_element(p.first)) { if (n++ > 0 && rng() % all >= some) continue; V f; for (size_t q = 0; q < Q; q++) f.push_back(s.f().at(q)(p.first)); r.push_back(f); } return r; };
	for (int i = 0; i < geti(j, "steps", 3); i++) {
		s.at()++; s.stream(); s.filter(); auto a = populations(); double dt = s.getTimeStepSize();
		s.collide(); auto b = populations();
		Ev("Next").k("i", i + 1).k("dt", num(dt)).k("t", num(s.getTime())).k("free", free).k("tau", num(s.getTau()));
		trace().hold(); if (getb(j, "relax_")) for (size_t k = 0; k < a.size(); k++) Ev("Relax").k("a", nums(a[k])).k("b", nums(b[k])); trace().merge();
	}
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++; if (geti(j, "D", 2) == 3) go<3>(j, argv[3]); else go<2>(j, argv[3]); }
	done();
}
