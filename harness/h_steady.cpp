// Whole runs, cell by cell: uniform flows, conservation, images of flows.   h_steady SCENARIOS TRACE SCRATCH
#include "flow.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include <boost/filesystem.hpp>
template<size_t dim> struct Plain: public CFDSolver<dim> {
	using CFDSolver<dim>::CFDSolver;
	void start() { this->collide(); }
	void step() { this->m_i++; this->stream(); this->filter(); this->collide(); }
	bool thermal() const { return false; }
	double T(size_t) { return 1; }
	double g(size_t, size_t) { return 0; }
	AdvectionOperator<dim>& adv() { return *this->m_advectionOperator; }
};
template<size_t dim> struct Thermal: public CompressibleCFDSolver<dim> {
	using CompressibleCFDSolver<dim>::CompressibleCFDSolver;
	void start() { this->initializeDistributions(); this->collide(); }
	void step() { this->m_i++; this->stream(); this->gStream(); this->compressibleFilter(); this->collide(); }
	bool thermal() const { return true; }
	double T(size_t i) { return this->getTemperature()(i); }
	double g(size_t q, size_t i) { return this->getG().at(q)(i); }
	AdvectionOperator<dim>& adv() { return *this->m_advectionOperator; }
};
template<size_t dim, class SOLVER> static void go(const Json& j, const std::string& base) {
	auto prob = boost::make_shared<FlowBox<dim> >(j); double T0 = getd(j, "T", 1);
	std::string dir = base + "/" + gets(j, "dir", "out"); bool whole = getb(j, "whole"); int me = 0, np = 1; MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np);
	if (whole) { if (me == 0) boost::filesystem::create_directories(dir); MPI_Barrier(MPI_COMM_WORLD); }
	auto conf = flowConfig(j, dir);
	if (whole) { // a complete run with output
		conf->setOutputTableInterval(geti(j, "table", 2)); conf->setOutputSolutionInterval(geti(j, "solution", 3)); conf->setOutputCheckpointInterval(geti(j, "checkpoint", 1000000000)); conf->setRestartAtIteration(geti(j, "restart", 0));
		if (j.count("threshold")) conf->setConvergenceThreshold(getd(j, "threshold"));
		if (getb(j, "turb")) conf->setOutputGlobalTurbulenceStatistics(true);
		if (!getv(j, "planes").empty()) { conf->setOutputTurbulenceStatistics(true); conf->setWallNormalDirection(geti(j, "axis", 1)); conf->setWallNormalCoordinates(getv(j, "planes")); }
	}
	if (gets(j, "mode") == "finer") conf->setRestartAtIteration(geti(j, "restart"));
	if (j.count("gamma")) { conf->setHeatCapacityRatioGamma(getd(j, "gamma")); if (getd(j, "prandtl") > 0) conf->setPrandtlNumber(getd(j, "prandtl")); if (getb(j, "sutherland")) conf->setSutherlandLaw(); }
	SOLVER s(conf, prob);
	auto& st = *s.getStencil(); size_t Q = st.getQ();
	if (getb(j, "quiet")) { s.run(); MPI_Barrier(MPI_COMM_WORLD); Ev("Quiet"); return; }
	emitSet<dim>(st);
	auto lex = lexicographic<dim>(*s.adv().getFe()); auto& up = s.adv().getFe()->get_unit_support_points(); V nodes; for (int i = 0; i <= geti(j, "order", 2); i++) nodes.push_back(up[lex[i]][0]);
	// cells along the axes
	std::vector<V> mid(dim);
	for (auto c = s.adv().getDoFHandler()->begin_active(); c != s.adv().getDoFHandler()->end(); ++c) if (c->is_locally_owned()) for (size_t d = 0; d < dim; d++) mid[d].push_back(c->center()[d]);
	std::vector<long> count;
	for (size_t d = 0; d < dim; d++) { V all; for (auto& v : dealii::Utilities::MPI::all_gather(MPI_COMM_WORLD, mid[d])) all.insert(all.end(), v.begin(), v.end()); std::sort(all.begin(), all.end()); V u;
		for (double x : all) if (u.empty() || x - u.back() > 1e-9 * (prob->hi[d] - prob->lo[d])) u.push_back(x); mid[d] = u; count.push_back(u.size()); }
	auto F = getv(j, "force"); F.resize(dim); auto u0 = getv(j, "u"); u0.resize(dim); for (auto& x : u0) x *= getd(j, "scaling", 1);
	std::string mode = gets(j, "mode", "steady"); auto pr = getv(j, "perm"), sg = getv(j, "sign"), sh = getv(j, "shift"); sh.resize(dim);
	if (pr.empty()) for (size_t d = 0; d < dim; d++) { pr.push_back(d); sg.push_back(1); }
	Ev("Run").k("D", dim).k("mode", mode).k("nodes", nums(nodes)).k("cells", count).k("rho", num(getd(j, "rho", 1))).k("u", nums(u0)).k("T", num(T0)).k("F", nums(F)).k("dt", num(s.getTimeStepSize())).k("thermal", s.thermal())
		.k("keeps", getb(j, "keeps")).k("size", num(getd(j, "scaling", 1))).k("finer", geti(j, "finer", 0)).k("reheat", getb(j, "reheat")).k("gamma", num(getd(j, "gamma", 0))).k("tol", gets(j, "tol", "1e-10")).k("drift", gets(j, "drift", "1e-10"))
		.k("perm", std::vector<long>(pr.begin(), pr.end())).k("sign", std::vector<long>(sg.begin(), sg.end())).k("shift", std::vector<long>(sh.begin(), sh.end()));
	auto look = [&]() {
		Ev("Look").k("i", s.getIteration()).k("t", num(s.getTime()));
		trace().hold(); std::vector<dealii::types::global_dof_index> ix(lex.size()); auto& own = s.adv().getLocallyOwnedDofs(); size_t n = 0, all = s.adv().getDoFHandler()->get_triangulation().n_active_cells(), some = geti(j, "some", 1000000); std::mt19937 rng(geti(j, "seed", 1) + s.getIteration());
		for (auto c = s.adv().getDoFHandler()->begin_active(); c != s.adv().getDoFHandler()->end(); ++c) if (c->is_locally_owned()) {
			if (n++ > 0 && rng() % all >= some) continue;
			std::vector<long> k; for (size_t d = 0; d < dim; d++) { size_t b = 0; while (b + 1 < mid[d].size() && mid[d][b] < c->center()[d] - 1e-9 * (prob->hi[d] - prob->lo[d])) b++; k.push_back(b); }
			c->get_dof_indices(ix); V rho, T; std::vector<S> u, f, g;
			for (auto x : lex) { rho.push_back(s.getDensity()(ix[x])); T.push_back(s.T(ix[x])); }
			for (size_t d = 0; d < dim; d++) { V y; for (auto x : lex) y.push_back(s.getVelocity()[d](ix[x])); u.push_back(nums(y)); }
			for (size_t q = 0; q < Q; q++) { V y, z; for (auto x : lex) { bool mine = own.is_element(ix[x]); y.push_back(mine ? s.getF().at(q)(ix[x]) : s.getF().atGhosted(q)(ix[x])); z.push_back(s.thermal() ? s.g(q, ix[x]) : 0); } f.push_back(nums(y)); if (s.thermal()) g.push_back(nums(z)); }
			Ev("Cell").k("k", k).k("lo", nums<dim>(c->vertex(0))).k("hi", nums<dim>(c->vertex((1 << dim) - 1))).k("rho", nums(rho)).k("u", u).k("T", nums(T)).k("f", f).k("g", g);
		}
		trace().merge();
		Ev("Done");
	};
	if (whole) {
		s.run(); look();
		MPI_Barrier(MPI_COMM_WORLD);
		if (me == 0 && !getb(j, "part")) {
			std::vector<S> rows; // all tables
			for (auto name : { "results_table.txt", "turbulence_table.txt", "global_turbulence_table.txt" }) { std::ifstream in(dir + "/" + name); std::string line;
				while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; std::stringstream x(line); S v; std::string w; while (x >> w) v.push_back(w == "-nan" ? "nan" : w); rows.push_back(v); } }
			for (auto& r : rows) Ev("Row").k("v", r);
			S plain; std::vector<std::vector<long> > parts; // files of all; of one process: [process, iteration]
			for (boost::filesystem::recursive_directory_iterator it(dir), end; it != end; ++it) { if (boost::filesystem::is_directory(*it)) continue; std::string n = it->path().filename().string(); int r, i; char t[8];
				if (std::sscanf(n.c_str(), "t_%d.%d.%3s", &r, &i, t) == 3 && std::string(t) == "vtu") parts.push_back({ r, i }); else plain.push_back(n); }
			Ev("Files").k("np", np).k("parts", parts).k("plain", plain);
		}
		Ev("End"); return;
	}
	if (mode == "finer") { look(); Ev("End"); return; }
	bool start = mode != "image"; s.start(); if (start) look();
	for (int i = 0; i < geti(j, "steps", 3); i++) { s.step(); if (start || i + 1 == geti(j, "steps", 3)) look(); }
	Ev("End");
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++;
		if (j.count("gamma")) { if (geti(j, "D", 2) == 3) go<3, Thermal<3> >(j, argv[3]); else go<2, Thermal<2> >(j, argv[3]); }
		else if (geti(j, "D", 2) == 3) go<3, Plain<3> >(j, argv[3]); else go<2, Plain<2> >(j, argv[3]); }
	done();
}
