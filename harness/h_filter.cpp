// Filters, applied by the solver to its populations.   h_filter SCENARIOS TRACE SCRATCH
#include "flow.h"
#include "natrium/solver/CompressibleCFDSolver.h"
template<size_t dim> struct Cold: public Flow<dim> {
	using Flow<dim>::Flow;
	size_t sets() const { return 1; }
	DistributionFunctions& set(size_t) { return this->m_f; }
	void clean() { this->filter(); }
	void start() { this->collide(); }
	void step() { this->m_i++; this->stream(); this->filter(); this->collide(); }
};
/// with energy transport: both sets of populations
template<size_t dim> struct Hot: public CompressibleCFDSolver<dim> {
	using CompressibleCFDSolver<dim>::CompressibleCFDSolver;
	size_t& at() { return this->m_i; }
	AdvectionOperator<dim>& adv() { return *this->m_advectionOperator; }
	std::map<dealii::types::global_dof_index, dealii::Point<dim> >& points() { return this->m_supportPoints; }
	size_t sets() const { return 2; }
	DistributionFunctions& set(size_t k) { return k ? const_cast<DistributionFunctions&>(this->getG()) : this->m_f; }
	void clean() { this->compressibleFilter(); }
	void start() { this->initializeDistributions(); this->collide(); }
	void step() { this->m_i++; this->stream(); this->gStream(); this->compressibleFilter(); this->collide(); }
};
template<size_t dim, class SOLVER> static void go(const Json& j, const std::string& base) {
	auto prob = boost::make_shared<FlowBox<dim> >(j);
	auto conf = flowConfig(j, base + "/out");
	SOLVER s(conf, prob);
	size_t Q = s.getStencil()->getQ(), all = Q * s.sets(); auto& dh = *s.adv().getDoFHandler();
	auto lex = lexicographic<dim>(*s.adv().getFe()); auto& up = s.adv().getFe()->get_unit_support_points();
	size_t order = geti(j, "order", 2); V nodes; for (size_t i = 0; i <= order; i++) nodes.push_back(up[lex[i]][0]);
	bool dg = gets(j, "advection", "SL") != "SL", flat = gets(j, "values") == "flat";
	Ev("Filter").k("D", dim).k("nodes", nums(nodes)).k("kind", gets(j, "filter")).k("alpha", num(getd(j, "alpha", 10))).k("s", num(getd(j, "s", 20))).k("Nc", geti(j, "Nc", 1)).k("bysum", getb(j, "bysum")).k("interval", geti(j, "interval", 1)).k("apart", dg);
	std::vector<dealii::types::global_dof_index> ix(lex.size());
	auto cells = [&](const char* name, int at) {
		trace().hold();
		for (auto c = dh.begin_active(); c != dh.end(); ++c) if (c->is_locally_owned()) {
			c->get_dof_indices(ix); std::vector<S> v; for (size_t q = 0; q < all; q++) { V x; for (auto k : lex) { double y = s.set(q / Q).at(q % Q)(ix[k]); x.push_back(y); } v.push_back(nums(x)); }
			Ev(name).k("i", at).k("lo", nums<dim>(c->vertex(0))).k("hi", nums<dim>(c->vertex((1 << dim) - 1))).k("v", v);
		}
		trace().merge();
	};
	std::mt19937 rng(geti(j, "seed", 1)); std::uniform_real_distribution<double> U(-1, 1); double flatv[400]; for (double& x : flatv) x = U(rng);
	std::map<std::string, double> val;
	for (int at : getv(j, "at")) {
		s.at() = at;
		auto pts = s.points();
		for (size_t q = 0; q < all; q++) { auto& y = s.set(q / Q).at(q % Q); // the same values whatever the number of processes
			for (auto& p : pts) { double key = q; for (size_t d = 0; d < dim; d++) key = key * 1.37 + p.second[d] * (d + 1.1); if (!s.adv().getLocallyOwnedDofs().is_element(p.first)) continue; y(p.first) = flat ? flatv[q] : std::sin(37 * key + at + p.first % 7 * (dg ? 1 : 0)); }
			y.compress(dealii::VectorOperation::insert);
		}
		for (size_t k = 0; k < s.sets(); k++) s.set(k).updateGhosted();
		cells("Before", at);
		s.clean();
		cells("After", at);
		Ev("Done");
	}
	if (getb(j, "run")) { // the run of the solver filters between streaming and collision
		SOLVER a(conf, boost::make_shared<FlowBox<dim> >(j)), b(conf, boost::make_shared<FlowBox<dim> >(j));
		a.run(); b.start(); for (int i = 0; i < 3; i++) b.step();
		double diff = 0, size = 0;
		for (size_t q = 0; q < all; q++) for (auto x : a.adv().getLocallyOwnedDofs()) { double v = a.set(q / Q).at(q % Q)(x); diff = std::max(diff, std::fabs(v - b.set(q / Q).at(q % Q)(x))); size = std::max(size, std::fabs(v)); }
		Ev("Run").k("steps", a.at()).k("diff", num(diff)).k("size", num(size));
	}
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++; bool hot = getb(j, "gas"); if (geti(j, "D", 2) == 3) hot ? go<3, Hot<3> >(j, argv[3]) : go<3, Cold<3> >(j, argv[3]); else hot ? go<2, Hot<2> >(j, argv[3]) : go<2, Cold<2> >(j, argv[3]); }
	done();
}
