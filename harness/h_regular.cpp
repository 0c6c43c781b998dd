// Regularization of populations in runs.   h_regular SCENARIOS TRACE SCRATCH
#include "flow.h"
#include "natrium/dataprocessors/DataProcessor.h"
template<size_t dim> struct Reg: public Flow<dim> {
	using Flow<dim>::Flow;
	void regularize() { for (auto& p : this->m_dataProcessors) p->apply(); }
	void step() { this->m_i++; this->stream(); this->filter(); this->collide(); regularize(); }
	void begin() { this->collide(); }
};
template<size_t dim> static void go(const Json& j, const std::string& base) {
	std::string scheme = gets(j, "scheme");
	Ev("Ask").k("D", dim).k("scheme", scheme).k("set", gets(j, "stencil")).k("name", scheme == "PSEUDO_ENTROPY_MAXIMIZATION_WITH_E" ? "deviatoric" : "full");
	auto conf = flowConfig(j, base + "/out");
	conf->setRegularizationScheme(pick<RegularizationSchemeName>(scheme, { NATRIUM_P(NO_REGULARIZATION), NATRIUM_P(PSEUDO_ENTROPY_MAXIMIZATION), NATRIUM_P(ZERO_HIGH_ORDER_MOMENTS), NATRIUM_P(ENTROPY_MAXIMIZATION), NATRIUM_P(PSEUDO_ENTROPY_MAXIMIZATION_WITH_E) }));
	auto make = [&]() { return boost::make_shared<FlowBox<dim> >(j); };
	Reg<dim> s(conf, make());
	emitSet<dim>(*s.getStencil());
	size_t Q = s.getStencil()->getQ(); bool ghosts = not s.f().isDg();
	auto own = s.adv().getLocallyOwnedDofs(); auto rel = s.adv().getLocallyRelevantDofs();
	auto value = [&](size_t q, size_t i) { std::mt19937 r(i * 131 + q * 17 + geti(j, "seed", 1)); std::uniform_real_distribution<double> U(0, 1); r(); return getb(j, "signs") ? 2 * U(r) - 1 : U(r) / Q; };
	for (size_t q = 0; q < Q; q++) { for (auto i : own) s.f().at(q)(i) = value(q, i); s.f().at(q).compress(dealii::VectorOperation::insert); }
	s.f().updateGhosted();
	s.regularize();
	size_t n = 0, every = std::max<size_t>(1, own.n_elements() / 40);
	trace().hold();
	for (auto i : own) if (n++ % every == 0) { V a, b; for (size_t q = 0; q < Q; q++) { a.push_back(value(q, i)); double y = s.f().at(q)(i); b.push_back(y); } Ev("Node").k("before", nums(a)).k("after", nums(b)); }
	trace().merge();
	if (ghosts) { // copies of nodes of other processes
		double diff = 0; for (size_t q = 0; q < Q; q++) { distributed_vector x(own, rel, MPI_COMM_WORLD); x = s.f().at(q); x.update_ghost_values(); for (auto i : rel) diff = std::max(diff, std::fabs(s.f().atGhosted(q)(i) - x(i))); }
		Ev("Copies").k("diff", num(dealii::Utilities::MPI::max(diff, MPI_COMM_WORLD)));
	}
	Reg<dim> a(conf, make()), b(conf, make());
	a.run(); b.begin(); for (int i = 0; i < geti(j, "steps"); i++) b.step();
	double diff = 0, size = 0;
	for (size_t q = 0; q < Q; q++) for (auto i : own) { double v = a.f().at(q)(i); diff = std::max(diff, std::fabs(v - b.f().at(q)(i))); size = std::max(size, std::fabs(v)); }
	Ev("Run").k("diff", num(dealii::Utilities::MPI::max(diff, MPI_COMM_WORLD))).k("size", num(dealii::Utilities::MPI::max(size, MPI_COMM_WORLD)));
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++; if (geti(j, "D", 2) == 3) go<3>(j, argv[3]); else go<2>(j, argv[3]); }
	done();
}
