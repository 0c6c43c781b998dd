// Runs complete simulations as the scenarios ask and records what a user can observe of them.
//   h_solver SCENARIOS TRACE
#include "trace.h"
#include "problems.h"
#include <boost/filesystem.hpp>
#include "natrium/solver/CFDSolver.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/dataprocessors/DataProcessor.h"
#include "natrium/utilities/MPIGuard.h"
#include "natrium/utilities/Logging.h"

using namespace natrium;
using namespace vt;
namespace fs = boost::filesystem;

static int rank() { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); return r; }
static int ranks() { int r; MPI_Comm_size(MPI_COMM_WORLD, &r); return r; }
static void barrier() { MPI_Barrier(MPI_COMM_WORLD); }

static std::set<std::string> listing(const std::string& dir) {
	std::set<std::string> r;
	if (fs::exists(dir)) for (auto& e : fs::recursive_directory_iterator(dir)) if (!fs::is_directory(e)) r.insert(fs::relative(e.path(), dir).string());
	return r;
}

struct FileWatch {
	std::string dir;
	/// files written since the last call; what has been seen is marked by an old time stamp
	std::set<std::string> fresh() {
		std::set<std::string> add;
		for (auto& n : listing(dir)) { fs::path p = dir + "/" + n; if (fs::last_write_time(p) != 1000) { add.insert(n); fs::last_write_time(p, 1000); } }
		return add;
	}
	/// newly written iterations of solution files, solution master files, checkpoint files
	void put(Ev& ev) {
		barrier();
		std::map<long, int> vtu; std::vector<long> vtus, pvtu, stat, data, other, statG, dataG; bool grid = false;
		if (rank() == 0) for (auto& n : fresh()) {
			long i = -1; int r; char tail[64];
			if (std::sscanf(n.c_str(), "t_%d.%ld.%63s", &r, &i, tail) == 3 && std::string(tail) == "vtu") vtu[i]++;
			else if (std::sscanf(n.c_str(), "t_%d.%ld.%63s", &r, &i, tail) == 3 && std::string(tail) == "pvtu") {
				// the master file names the piece of every process
				std::ifstream f(dir + "/" + n); std::string all((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
				bool ok = true;
				for (int k = 0; k < ranks(); k++) ok = ok && all.find("t_" + std::to_string(k) + "." + std::to_string(i) + ".vtu") != std::string::npos;
				ok = ok && all.find("t_" + std::to_string(ranks()) + ".") == std::string::npos;
				pvtu.push_back(ok ? i : -i - 1);
			}
			else if (std::sscanf(n.c_str(), "checkpoint/checkpoint_%ld.%63s", &i, tail) == 2) {
				if (std::string(tail) == "stat") stat.push_back(i);
				else if (std::string(tail) == "data") data.push_back(i);
				else if (std::string(tail) == "stat.tmp") other.push_back(i);
			}
			else if (std::sscanf(n.c_str(), "checkpoint/checkpointG_%ld.%63s", &i, tail) == 2) {
				if (std::string(tail) == "stat") statG.push_back(i);
				else if (std::string(tail) == "data") dataG.push_back(i);
				else if (std::string(tail) == "stat.tmp") other.push_back(i);
			}
			else if (n == "grid.vtk") grid = true;
		}
		for (auto& v : vtu) vtus.push_back(v.second == ranks() ? v.first : -v.first - 1);
		ev.k("vtu", vtus).k("pvtu", pvtu).k("stat", stat).k("data", data).k("statG", statG).k("dataG", dataG).k("left", other).k("grid", grid);
	}
};

static size_t tableRows(const std::string& dir, std::vector<long>& its) {
	std::ifstream f(dir + "/results_table.txt"); std::string l; size_t n = 0;
	while (std::getline(f, l)) { if (l.empty() || l[0] == '#') continue; its.push_back(std::atol(l.c_str())); n++; }
	return n;
}

template<size_t dim> struct Watch: public DataProcessor<dim> {
	FileWatch& w; double unit; std::string table; size_t rows = 0;
	std::vector<distributed_vector> ref; long refIter = -1; double thr; bool files;
	Watch(CFDSolver<dim>& s, FileWatch& w, double unit, std::string table, double thr, bool files) :
			DataProcessor<dim>(s), w(w), unit(unit), table(table), thr(thr), files(files) {}
	/// largest pointwise change of the velocity since the last multiple of 100
	void change(long i, bool& known, bool& below) {
		known = below = false;
		if (i % 100 != 0) return;
		auto& u = this->m_solver.getVelocity();
		const dealii::IndexSet& own = this->m_solver.getAdvectionOperator()->getLocallyOwnedDofs();
		if (refIter >= 0 && i - refIter == 100) {
			double m = 0;
			for (auto it = own.begin(); it != own.end(); ++it) {
				double s = 0;
				for (size_t d = 0; d < dim; d++) { double x = u[d](*it) - ref[d](*it); s += x * x; }
				m = std::max(m, std::sqrt(s));
			}
			m = dealii::Utilities::MPI::max(m, MPI_COMM_WORLD);
			known = true; below = m < thr;
		}
		ref.clear();
		for (size_t d = 0; d < dim; d++) ref.push_back(distributed_vector(u[d]));
		refIter = i;
	}
	void event(const char* name) {
		bool known, below; long i = this->m_solver.getIteration();
		change(i, known, below);
		Ev ev(name);
		ev.k("i", i).k("t", fix(this->m_solver.getTime() / unit, 1000)).k("known", known).k("below", below);
		if (files) {
			w.put(ev);
			std::vector<long> its; size_t n = tableRows(table, its);
			std::vector<long> add(its.begin() + std::min(rows, n), its.end());
			rows = n;
			ev.k("rows", add);
			barrier();
		}
	}
	void apply() override { event("Step"); }
};

template<size_t dim> static boost::shared_ptr<SolverConfiguration> config(const Json& j, const std::string& dir) {
	auto c = boost::make_shared<SolverConfiguration>();
	c->setUserInteraction(false);
	c->setOutputDirectory(dir);
	c->setCommandLineVerbosity(0);
	std::string st = gets(j, "stencil", dim == 2 ? "D2Q9" : "D3Q19");
	std::map<std::string, StencilType> sm = {{"D2Q9", Stencil_D2Q9}, {"D3Q19", Stencil_D3Q19}, {"D3Q15", Stencil_D3Q15}, {"D3Q27", Stencil_D3Q27}, {"D2Q25H", Stencil_D2Q25H}, {"D2Q19H", Stencil_D2Q19H}, {"D2Q19V", Stencil_D2Q19V}, {"D3Q13", Stencil_D3Q13}, {"D3Q21", Stencil_D3Q21}, {"D3Q45", Stencil_D3Q45}, {"D3Q77", Stencil_D3Q77}};
	c->setStencil(sm.at(st));
	c->setStencilScaling(getd(j, "scaling", 1.0));
	c->setSedgOrderOfFiniteElement(geti(j, "p", 2));
	c->setCFL(getd(j, "cfl", 0.4));
	bool sl = gets(j, "adv", "SL") == "SL";
	c->setAdvectionScheme(sl ? SEMI_LAGRANGIAN : SEDG);
	if (!sl) {
		std::string ti = gets(j, "integrator", "RK5");
		c->setTimeIntegrator(ti == "THETA" ? THETA_METHOD : ti == "EXP" ? EXPONENTIAL : RUNGE_KUTTA_5STAGE);
	}
	c->setNumberOfTimeSteps(geti(j, "N", 10));
	c->setOutputSolutionInterval(geti(j, "sol", 1000000000));
	c->setOutputTableInterval(geti(j, "tab", 1000000000));
	c->setOutputCheckpointInterval(geti(j, "chk", 1000000000));
	c->setSwitchOutputOff(getb(j, "off"));
	c->setConvergenceThreshold(getd(j, "thr", 1e-30));
	c->setRestartAtIteration(geti(j, "restart", 0));
	std::string cs = gets(j, "collision", "BGK");
	c->setCollisionScheme(cs == "MRT" ? MRT_STANDARD : cs == "REG" ? BGK_REGULARIZED : BGK_STANDARD);
	if (gets(j, "eq") == "QUARTIC") c->setEquilibriumScheme(QUARTIC_EQUILIBRIUM);
	std::string fo = gets(j, "forcing");
	if (fo == "SHIFT") c->setForcingScheme(SHIFTING_VELOCITY);
	if (fo == "EXACT") c->setForcingScheme(EXACT_DIFFERENCE);
	if (geti(j, "filter", 0) > 0) { c->setFiltering(true); c->setFilterInterval(geti(j, "filter")); c->setFilteringScheme(EXPONENTIAL_FILTER); }
	std::string ini = gets(j, "init");
	if (ini == "ITER") { c->setInitializationScheme(ITERATIVE); c->setIterativeInitializationNumberOfIterations(geti(j, "initN", 5)); c->setIterativeInitializationResidual(1e-30); }
	return c;
}

static BoxSpec box(const Json& j, unsigned dim) {
	BoxSpec s;
	for (double x : getv(j, "cells")) s.cells.push_back((unsigned) x);
	while (s.cells.size() < dim) s.cells.push_back(2);
	s.size = getv(j, "size"); while (s.size.size() < dim) s.size.push_back(1.0);
	s.bc = gets(j, "bc", dim == 2 ? "PP" : "PPP");
	s.refine = geti(j, "refine", 1);
	s.viscosity = getd(j, "nu", 0.05);
	s.stretch = getd(j, "stretch", 0);
	if (j.get_child_optional("wall")) for (auto& w : j.get_child("wall")) { std::vector<double> v; for (auto& x : w.second) v.push_back(x.second.get_value<double>()); s.wall.push_back(v); }
	return s;
}

template<size_t dim, class Base = ProblemDescription<dim> > static boost::shared_ptr<BoxProblem<dim, Base> > problem(const Json& j) {
	BoxSpec s = box(j, dim);
	double u0 = getd(j, "u0", 0.05); auto L = s.size; std::string flow = gets(j, "flow", "tgv"); unsigned along = geti(j, "along", 0);
	auto rho = [=](const dealii::Point<dim>& p, unsigned, double) { return flow == "rest" || flow == "slide" ? 1.0 : 1.0 + 0.01 * std::cos(2 * M_PI * p[0] / L[0]); };
	auto u = [=](const dealii::Point<dim>& p, unsigned c, double) -> double {
		if (flow == "rest") return 0;
		double x = 2 * M_PI * p[0] / L[0], y = 2 * M_PI * p[1] / L[1];
		if (flow == "slide") { return c == along ? u0 * std::sin(along == 1 ? x : y) : 0; }
		if (flow == "shear") return c == 0 ? u0 * std::sin(y) : 0;
		if (c == 0) return u0 * std::sin(x) * std::cos(y);
		if (c == 1) return -u0 * std::cos(x) * std::sin(y);
		return 0.3 * u0 * std::sin(x + y);
	};
	auto pr = boost::make_shared<BoxProblem<dim, Base> >(s, rho, u);
	if (getb(j, "gas")) pr->setT([](const dealii::Point<dim>& p, unsigned, double) { return 0.9 + 0.05 * std::sin(2 * M_PI * p[0]); });
	auto fv = getv(j, "force");
	if (fv.size() >= dim) { dealii::Tensor<1, dim> t; for (unsigned d = 0; d < dim; d++) t[d] = fv[d]; pr->setExternalForce(boost::make_shared<ConstantExternalForce<dim> >(t)); }
	return pr;
}

/// all of the populations and the macroscopic fields, keyed by position, as one fingerprint each
template<size_t dim> static void fingerprint(CFDSolver<dim>& s, std::string& f, std::string& ru, std::vector<long>& sums, std::vector<std::vector<long> >* sample = nullptr) {
	map<dealii::types::global_dof_index, dealii::Point<dim> > pts;
	s.getAdvectionOperator()->mapDoFsToSupportPoints(pts);
	const dealii::IndexSet& own = s.getAdvectionOperator()->getLocallyOwnedDofs();
	std::vector<std::pair<std::vector<long>, size_t> > ord;
	for (auto it = own.begin(); it != own.end(); ++it) { std::vector<long> k; for (unsigned d = 0; d < dim; d++) k.push_back(std::lround(pts[*it][d] * 1e7)); k.push_back(*it); ord.push_back({k, (size_t) *it}); }
	std::sort(ord.begin(), ord.end());
	Fnv a, b; double m = 0, px = 0, py = 0;
	for (auto& o : ord) {
		for (size_t q = 0; q < s.getStencil()->getQ(); q++) { double v = s.getF().at(q)(o.second); a.add(v); m += v; px += v * s.getStencil()->getDirection(q)(0); py += v * s.getStencil()->getDirection(q)(1); }
		b.add(s.getDensity()(o.second)); for (size_t d = 0; d < dim; d++) b.add(s.getVelocity()[d](o.second));
	}
	f = a.str(); ru = b.str();
	double n = ord.size(); sums = {fix(m / n, 1e9), fix(px / n, 1e9), fix(py / n, 1e9)};
	if (sample) for (size_t k = 0; k < ord.size(); k += std::max<size_t>(1, ord.size() / 12)) {
		size_t i = ord[k].second; std::vector<long> row = {fix(s.getDensity()(i), 1e8)};
		for (size_t d = 0; d < dim; d++) row.push_back(fix(s.getVelocity()[d](i), 1e8));
		for (size_t q = 0; q < s.getStencil()->getQ(); q++) row.push_back(fix(s.getF().at(q)(i), 1e8));
		sample->push_back(row);
	}
}

template<size_t dim> static void one(const Json& j, const std::string& base, const std::string& what) {
	std::string dir = base + "/" + gets(j, "dir", "out");
	barrier();
	if (getb(j, "clean", true) && rank() == 0) fs::remove_all(dir);
	barrier();
	if (j.get_child_optional("junk") && rank() == 0) {
		setenv("VT_OPS_OFF", "1", 1);
		fs::create_directories(dir + "/checkpoint");
		for (auto& n : getsv(j, "junk")) {
			if (n.back() == '/') fs::create_directories(dir + "/checkpoint/" + n);
			else { std::ofstream o(dir + "/checkpoint/" + n); o << "17 0.5 1 2 0\n"; }
		}
		unsetenv("VT_OPS_OFF");
	}
	barrier();
	auto c = config<dim>(j, dir);
	auto p = problem<dim>(j);
	if (what == "state") Ev("Run").k("group", gets(j, "group", "g")).k("mesh", gets(j, "mesh", "m")).k("dir", gets(j, "dir", "out")).k("clean", getb(j, "clean", true))
		.k("restart", geti(j, "restart", 0)).k("N", geti(j, "N", 10)).k("chk", geti(j, "chk", 1000000000)).k("level", geti(j, "refine", 1)).k("order", geti(j, "p", 2)).k("set", gets(j, "stencil", dim == 2 ? "D2Q9" : "D3Q19")).k("forced", !gets(j, "forcing").empty());
	// the step follows from mesh, order, stencil and CFL number; the end time is given in steps
	long endTicks = geti(j, "end", 0);
	FileWatch w; w.dir = dir; if (rank() == 0) w.fresh();
	barrier();
	double dt = 0;
	if (endTicks > 0) { // measured on a solver of its own
		std::string probe = base + "/probe"; Json k = j; auto c2 = config<dim>(k, probe); c2->setSwitchOutputOff(true); c2->setRestartAtIteration(0);
		auto p2 = problem<dim>(j); CFDSolver<dim> s2(c2, p2); dt = s2.getTimeStepSize();
		c->setSimulationEndTime(dt * (endTicks / 1000.0));
	}
	boost::shared_ptr<CFDSolver<dim> > s;
	auto gas = getb(j, "gas") ? boost::make_shared<CompressibleCFDSolver<dim> >(c, p) : nullptr;
	if (gas) s = gas; else if (getb(j, "bench")) s = boost::make_shared<BenchmarkCFDSolver<dim> >(c, problem<dim, Benchmark<dim> >(j)); else s = boost::make_shared<CFDSolver<dim> >(c, p);
	dt = s->getTimeStepSize();
	bool files = what == "output";
	auto wd = boost::make_shared<Watch<dim> >(*s, w, dt, dir, getd(j, "thr", 1e-30), files);
	if (getb(j, "probeStart", true)) {
		barrier();
		if (rank() == 0) wd->w.fresh();
		barrier();
		std::vector<long> old; wd->rows = tableRows(dir, old);
	}
	std::string f, ru; std::vector<long> sums;
	if (what == "loop" || what == "output") {
		// end time in units of the step the clock really advances by
		Ev("Begin").k("N", geti(j, "N", 10)).k("end", endTicks > 0 ? endTicks : 1999999999).k("start", s->getIterationStart()).k("t", fix(s->getTime() / dt, 1000))
			.k("sol", geti(j, "sol", 1000000000)).k("tab", geti(j, "tab", 1000000000)).k("chk", geti(j, "chk", 1000000000))
			.k("restart", geti(j, "restart", 0)).k("off", getb(j, "off")).k("gas", getb(j, "gas")).k("thr0", getd(j, "thr", 1e-30) <= 1e-29);
	}
	if (what != "state") s->appendDataProcessor(wd);
	if (what == "loop" || what == "output") { // reference for the convergence test at the start
		bool a, b; 
		if (s->getIterationStart() % 100 == 0 && s->getIterationStart() > 0) { wd->change(s->getIterationStart(), a, b); }
		else if (s->getIterationStart() == 0) wd->change(0, a, b);
		if (gas) gas->run(); else s->run();
		wd->event("End");
	}
	if (what == "state") {
		auto put = [&](const char* name) {
			std::vector<std::vector<long> > rows;
			fingerprint(*s, f, ru, sums, &rows);
			std::vector<std::vector<long> > few; // density and velocity at a few points
			for (auto& r : rows) few.push_back(std::vector<long>(r.begin(), r.begin() + 1 + dim));
			Ev(name).k("i", s->getIteration()).k("t", bits(s->getTime())).k("f", f).k("ru", ru).k("rows", few).k("sums", sums);
		};
		put("Start");
		struct Each: public DataProcessor<dim> { std::function<void()> g; Each(CFDSolver<dim>& s, std::function<void()> g) : DataProcessor<dim>(s), g(g) {} void apply() override { g(); } };
		s->appendDataProcessor(boost::make_shared<Each>(*s, [&]() { put("State"); }));
		s->run();
		put("Final");
	}
}

int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	std::string base = argv[3];
	if (rank() == 0) trace().open(argv[2]);
	for (auto& j : scenarios(argv[1])) {
		trace().scn++;
		try {
			if (geti(j, "dim", 2) == 3) one<3>(j, base, gets(j, "what")); else one<2>(j, base, gets(j, "what"));
		} catch (std::exception& e) { Ev("Error").k("msg", e.what()); }
	}
	done();
}
