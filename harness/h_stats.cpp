// Statistics of flows: reported numbers and tables.   h_stats SCENARIOS TRACE SCRATCH
#include "flow.h"
#include "natrium/solver/SolverStats.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include "natrium/dataprocessors/DataProcessor.h"
#include <boost/filesystem.hpp>
/// the averages in time are private
template<class Tag, typename Tag::type M> struct Rob { friend typename Tag::type get(Tag) { return M; } };
template<size_t dim> struct Means { typedef vector<distributed_vector> TurbulenceStats<dim>::*type; friend type get(Means); };
template struct Rob<Means<2>, &TurbulenceStats<2>::m_uAverage>;
template struct Rob<Means<3>, &TurbulenceStats<3>::m_uAverage>;
/// looks at the state whenever output is written
template<size_t dim> struct Seen: public Flow<dim> {
	using Flow<dim>::Flow;
	const TurbulenceStats<dim>* means() { return this->m_turbulenceStats.get(); }
	std::function<void(size_t)> look;
	void addAnalyticSolutionToOutput(dealii::DataOut<dim>&) override { if (look) look(this->getIteration()); }
	V heat(const std::vector<dealii::types::global_dof_index>&, const std::vector<unsigned>&) { return {}; }
};
/// with energy transport
template<size_t dim> struct SeenGas: public CompressibleCFDSolver<dim> {
	using CompressibleCFDSolver<dim>::CompressibleCFDSolver;
	const TurbulenceStats<dim>* means() { return this->m_turbulenceStats.get(); }
	std::function<void(size_t)> look;
	void addAnalyticSolutionToOutput(dealii::DataOut<dim>&) override { if (look) look(this->getIteration()); }
	DistributionFunctions& f() { return this->m_f; }
	AdvectionOperator<dim>& adv() { return *this->m_advectionOperator; }
	std::map<dealii::types::global_dof_index, dealii::Point<dim> >& points() { return this->m_supportPoints; }
	V heat(const std::vector<dealii::types::global_dof_index>& ix, const std::vector<unsigned>& lex) { V x; for (auto k : lex) x.push_back(this->getTemperature()(ix[k])); return x; }
};
template<size_t dim, class SOLVER> struct Watch {
	const Json& j; SOLVER& s; std::vector<unsigned> lex;
	Watch(const Json& j, SOLVER& s) : j(j), s(s), lex(lexicographic<dim>(*s.adv().getFe())) {}
	void state(bool report) {
		size_t Q = s.getStencil()->getQ(), at = s.getIteration(); bool exact = getb(j, "exact");
		Ev("State").k("i", at).k("t", num(s.getTime())).k("last", (long) at >= geti(j, "steps", 0));
		trace().hold();
		std::vector<dealii::types::global_dof_index> ix(lex.size());
		if (!exact) for (auto c = s.adv().getDoFHandler()->begin_active(); c != s.adv().getDoFHandler()->end(); ++c) if (c->is_locally_owned()) {
			c->get_dof_indices(ix); V rho; std::vector<S> u, f, m;
			for (auto k : lex) rho.push_back(s.getDensity()(ix[k]));
			for (size_t d = 0; d < dim; d++) { V x; for (auto k : lex) x.push_back(s.getVelocity()[d](ix[k])); u.push_back(nums(x)); }
			if (getb(j, "populations")) for (size_t q = 0; q < Q; q++) { V x; for (auto k : lex) x.push_back(s.adv().getLocallyOwnedDofs().is_element(ix[k]) ? s.f().at(q)(ix[k]) : s.f().atGhosted(q)(ix[k])); f.push_back(nums(x)); }
			if (getb(j, "means")) for (size_t d = 0; d < dim; d++) { V x; for (auto k : lex) x.push_back((s.means()->*get(Means<dim>()))[d](ix[k])); m.push_back(nums(x)); }
			Ev("Cell").k("m", m).k("lo", nums<dim>(c->vertex(0))).k("hi", nums<dim>(c->vertex((1 << dim) - 1))).k("rho", nums(rho)).k("u", u).k("f", f).k("T", nums(s.heat(ix, lex)));
		}
		if (!getv(j, "planes").empty()) for (auto& p : s.points()) if (s.adv().getLocallyOwnedDofs().is_element(p.first)) { V u; for (size_t d = 0; d < dim; d++) u.push_back(s.getVelocity()[d](p.first)); Ev("Node").k("x", nums<dim>(p.second)).k("u", nums(u)); }
		trace().merge();
		Ev("Known");
		if (report) {
			SolverStats<dim> st(&s); st.update(); double sq = 0; PhysicalProperties<dim>::enstrophy(s.getVelocity(), s.getAdvectionOperator(), &sq);
			Ev("Report").k("i", st.getIterationNumber()).k("r", nums({ st.getMaxU(), st.getMass(), st.getKinE(), st.getEnstrophy(), getb(j, "populations") ? st.getEntropy() : st.getMass(), st.getMaxP(), st.getMinP(), st.getMeanVelocityX(), sq }));
		}
	}
};
static void table(const std::string& file, const char* e, bool entropy) {
	int r = 0; MPI_Comm_rank(MPI_COMM_WORLD, &r); if (r) return;
	std::ifstream in(file); std::string line;
	while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; std::stringstream s(line); S v; std::string x; while (s >> x) v.push_back(x);
		if (!entropy && v.size() > 6 && std::string(e) == "Row") v[6] = v[3]; // populations are not in the trace
		Ev(e).k("i", std::stol(v.at(0))).k("v", v); }
}
template<size_t dim, class SOLVER> static void go(const Json& j, const std::string& base) {
	std::string dir = base + "/out"; if (getb(j, "files")) boost::filesystem::create_directories(dir);
	auto prob = boost::make_shared<FlowBox<dim> >(j);
	auto conf = flowConfig(j, dir);
	auto planes = getv(j, "planes"); size_t table_ = geti(j, "table", 10);
	conf->setOutputTableInterval(table_); conf->setOutputSolutionInterval(1); conf->setOutputCheckpointInterval(1000000000);
	if (!planes.empty()) { conf->setOutputTurbulenceStatistics(true); conf->setWallNormalDirection(geti(j, "axis", 1)); conf->setWallNormalCoordinates(planes); }
	if (getb(j, "turb")) conf->setOutputGlobalTurbulenceStatistics(true);
	if (getb(j, "gas")) { conf->setOutputCompressibleTurbulenceStatistics(true); conf->setHeatCapacityRatioGamma(getd(j, "gamma", 1.4)); }
	SOLVER s(conf, prob);
	emitSet<dim>(*s.getStencil()); prob->fields.emit();
	Watch<dim, SOLVER> w(j, s);
	auto& up = s.adv().getFe()->get_unit_support_points(); V nodes; for (int i = 0; i <= geti(j, "order", 2); i++) nodes.push_back(up[w.lex[i]][0]);
	Ev("Box").k("D", dim).k("lo", nums(prob->lo)).k("hi", nums(prob->hi)).k("nodes", nums(nodes)).k("exact", getb(j, "exact")).k("poly", getb(j, "poly")).k("energy", getb(j, "energy")).k("turb", getb(j, "turb")).k("gas", getb(j, "gas")).k("gamma", num(getd(j, "gamma", 1.4))).k("means", getb(j, "means"))
		.k("planes", nums(planes)).k("axis", geti(j, "axis", 1) + 1).k("thick", "1e-8").k("table", (long) table_).k("tol", gets(j, "tol", "1e-9")).k("small", gets(j, "small", "1e-13"));
	if (geti(j, "steps", 0) == 0) w.state(true);
	else if (geti(j, "steps", 0) > 0) {
		s.look = [&](size_t i) { if (getb(j, "means") || i % table_ == 0 || i % 100 == 0) w.state(false); };
		s.run();
		table(dir + "/results_table.txt", "Row", getb(j, "populations")); if (!planes.empty()) table(dir + "/turbulence_table.txt", "Plane", true); if (getb(j, "turb")) table(dir + "/global_turbulence_table.txt", "Turb", true); if (getb(j, "gas")) table(dir + "/compressible_turbulence_table.txt", "Gas", true);
		Ev("End");
	}
	MPI_Barrier(MPI_COMM_WORLD);
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++; bool gas = getb(j, "gas"); if (geti(j, "D", 2) == 3) gas ? go<3, SeenGas<3> >(j, argv[3]) : go<3, Seen<3> >(j, argv[3]); else gas ? go<2, SeenGas<2> >(j, argv[3]) : go<2, Seen<2> >(j, argv[3]); }
	done();
}
