// One collision on given populations, through the solver.   h_collide SCENARIOS TRACE SCRATCH
#include "trace.h"
#include "problems.h"
#include <random>
#include "natrium/solver/CFDSolver.h"
#include "natrium/solver/CompressibleCFDSolver.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/utilities/MPIGuard.h"
using namespace natrium;
using namespace vt;

#define LIST(X) X(D2Q9) X(D2Q19H) X(D2Q19V) X(D2Q25H) X(D2Q777) X(D3Q13) X(D3Q15) X(D3Q19) X(D3Q21) X(D3Q27) X(RD3Q27) X(D3V27) X(D3Q45) X(D3Q77)
static StencilType stencil(const std::string& n) {
#define S(X) if (n == #X) return Stencil_##X;
	LIST(S)
	throw std::runtime_error("no set " + n);
}
static CollisionSchemeName scheme(const std::string& n) {
#define C(X) if (n == #X) return X;
	C(BGK_STANDARD) C(BGK_STANDARD_TRANSFORMED) C(BGK_STEADY_STATE) C(BGK_MULTIPHASE) C(BGK_INCOMPRESSIBLE) C(MRT_STANDARD) C(MRT_ENTROPIC) C(ENTROPIC_STABILIZED) C(KBC_STANDARD) C(KBC_CENTRAL) C(BGK_MULTI_AM4) C(BGK_MULTI_BDF2) C(BGK_REGULARIZED)
	throw std::runtime_error("no scheme " + n);
}
static EquilibriumSchemeName equilibrium(const std::string& n) {
	C(BGK_EQUILIBRIUM) C(QUARTIC_EQUILIBRIUM) C(INCOMPRESSIBLE_EQUILIBRIUM) C(STEADYSTATE_EQUILIBRIUM) C(ENTROPIC_EQUILIBRIUM)
	throw std::runtime_error("no equilibrium " + n);
}
static MomentBasis basis(const std::string& n) { C(DELLAR_D2Q9) C(LALLEMAND_D2Q9) C(DHUMIERES_D3Q19) throw std::runtime_error("no basis " + n); }
static RelaxMode relaxmode(const std::string& n) { C(RELAX_FULL) C(DELLAR_RELAX_ONLY_N) C(RELAX_DHUMIERES_PAPER) throw std::runtime_error("no mode " + n); }
static ForceType force(const std::string& n) { C(NO_FORCING) C(SHIFTING_VELOCITY) C(EXACT_DIFFERENCE) C(GUO) throw std::runtime_error("no forcing " + n); }

template<size_t dim> struct Plain: public CFDSolver<dim> {
	using CFDSolver<dim>::CFDSolver;
	static const bool thermal = false;
};
template<size_t dim> struct Thermal: public CompressibleCFDSolver<dim> {
	using CompressibleCFDSolver<dim>::CompressibleCFDSolver;
	static const bool thermal = true;
};
template<size_t dim> static DistributionFunctions* gOf(Plain<dim>&) { return nullptr; }
template<size_t dim> static DistributionFunctions* gOf(Thermal<dim>& s) { return &s.getG(); }
template<size_t dim> static double tOf(Plain<dim>&, size_t) { return 1; }
template<size_t dim> static double tOf(Thermal<dim>& s, size_t i) { return s.getTemperature()(i); }

template<size_t dim> static void initOf(Plain<dim>&) {}
template<size_t dim> static void initOf(Thermal<dim>& s) { s.initializeDistributions(); } // the start of its run

template<size_t dim, class SOLVER> static void one(const Json& j, const std::string& base) {
	std::string set = gets(j, "set"), sch = gets(j, "scheme", "BGK_STANDARD"), eq = gets(j, "eq", "BGK_EQUILIBRIUM");
	std::string bas = gets(j, "basis", dim == 2 ? "DELLAR_D2Q9" : "DHUMIERES_D3Q19"), mode = gets(j, "mode", "RELAX_FULL"), forcing = gets(j, "forcing", "NO_FORCING");
	double sc = getd(j, "scaling", 1), nu = getd(j, "nu", 0.05), gamma = getd(j, "gamma", 1.4), pr = getd(j, "prandtl", 0);
	auto F = getv(j, "force"), u0 = getv(j, "u"); double rho0 = getd(j, "rho", 1), amp = getd(j, "amp", 0.1), T0 = getd(j, "T", 1);
	bool suth = getb(j, "sutherland"), equil = getb(j, "equil");
	u0.resize(dim);
	Ev("Ask").k("set", set).k("D", dim).k("scheme", sch).k("eq", eq).k("basis", bas).k("mode", mode).k("forcing", forcing).k("forced", !F.empty()).k("thermal", SOLVER::thermal);
	auto c = boost::make_shared<SolverConfiguration>();
	c->setUserInteraction(false); c->setOutputDirectory(base + "/out"); c->setCommandLineVerbosity(0); c->setSwitchOutputOff(true);
	c->setStencil(stencil(set)); c->setStencilScaling(sc); c->setSedgOrderOfFiniteElement(1); c->setCFL(getd(j, "cfl", 0.4));
	c->setAdvectionScheme(SEMI_LAGRANGIAN);
	c->setCollisionScheme(scheme(sch)); c->setEquilibriumScheme(equilibrium(eq));
	c->setMRTBasis(basis(bas)); c->setMRTRelaxationTimes(relaxmode(mode)); c->setForcingScheme(force(forcing));
	if (SOLVER::thermal) { c->setHeatCapacityRatioGamma(gamma); if (pr > 0) c->setPrandtlNumber(pr); if (suth) c->setSutherlandLaw(); }
	BoxSpec b; b.cells.assign(dim, 2); b.size.assign(dim, 1.0); b.size[1] = 1.5; b.bc = std::string(dim, 'P'); b.viscosity = nu;
	auto p = boost::make_shared<BoxProblem<dim> >(b, [=](const dealii::Point<dim>&, unsigned, double) { return rho0; },
			[=](const dealii::Point<dim>&, unsigned k, double) { return u0[k]; });
	if (SOLVER::thermal) p->setT([=](const dealii::Point<dim>&, unsigned, double) { return T0; });
	if (!F.empty()) { dealii::Tensor<1, dim> t; for (unsigned d = 0; d < dim; d++) t[d] = F[d]; p->setExternalForce(boost::make_shared<ConstantExternalForce<dim> >(t)); }
	SOLVER s(c, p);
	initOf(s);
	auto st = s.getStencil(); size_t Q = st->getQ();
	std::vector<std::string> w; std::vector<std::vector<std::string> > e; std::vector<std::string> Fs, u0s;
	for (size_t i = 0; i < Q; i++) { w.push_back(num(st->getWeight(i))); std::vector<std::string> r; for (size_t d = 0; d < dim; d++) r.push_back(num(st->getDirection(i)(d))); e.push_back(r); }
	for (size_t d = 0; d < dim; d++) { Fs.push_back(num(F.empty() ? 0 : F[d])); u0s.push_back(num(u0[d])); }
	Ev("Model").k("Q", Q).k("w", w).k("vel", e).k("sc", num(st->getScaling())).k("cs2", num(st->getSpeedOfSoundSquare())).k("nu", num(nu)).k("dt", num(s.getTimeStepSize()))
		.k("F", Fs).k("gamma", num(gamma)).k("pr", num(pr)).k("suth", suth).k("rho0", num(rho0)).k("u0", u0s).k("T0", num(T0));
	// the populations before: the start itself, or weights times random numbers
	std::mt19937 rng(geti(j, "seed", 1)); std::uniform_real_distribution<double> U(-1, 1);
	std::vector<size_t> own; for (auto x : s.getAdvectionOperator()->getLocallyOwnedDofs()) own.push_back(x);
	DistributionFunctions* g = gOf(s);
	auto row = [&](DistributionFunctions& f, size_t i) { std::vector<std::string> r; for (size_t q = 0; q < Q; q++) r.push_back(num(f.at(q)(i))); return r; };
	size_t passes = geti(j, "passes", 1);
	for (size_t pass = 0; pass < passes; pass++) {
		if (!equil && pass == 0) for (size_t i : own) {
			double rh = rho0 * (1 + 0.3 * U(rng)), th = T0 * (1 + 0.2 * U(rng)); std::vector<double> du; for (size_t d = 0; d < dim; d++) du.push_back(u0[d] * (1 + 0.5 * U(rng)));
			for (size_t q = 0; q < Q; q++) {
				double x = 0; for (size_t d = 0; d < dim; d++) x += du[d] * st->getDirection(q)(d) / st->getSpeedOfSoundSquare();
				s.getF().at(q)(i) = st->getWeight(q) * rh * (1 + x) * (1 + amp * U(rng));
				if (g) g->at(q)(i) = st->getWeight(q) * rh * (1 + x) * th * (2 / (gamma - 1) - dim) * (1 + amp * U(rng));
			}
		}
		bool last = pass > 0 && pass + 1 == passes;
		std::vector<std::vector<std::string> > f0, g0;
		if (pass == 0 || last) for (size_t i : own) { f0.push_back(row(s.getF(), i)); g0.push_back(g ? row(*g, i) : std::vector<std::string>()); }
		s.collide();
		if (pass == 0 || last) for (size_t k = 0; k < own.size(); k++) {
			if (k % std::max<size_t>(1, own.size() / geti(j, "nodes", 3)) != 0 && k + 1 != own.size()) continue;
			size_t i = own[k];
			std::vector<std::string> u; for (size_t d = 0; d < dim; d++) u.push_back(num(s.getVelocity()[d](i)));
			Ev("Collide").k("start", equil && pass == 0).k("settled", last).k("f", f0[k]).k("g", g0[k]).k("f1", row(s.getF(), i)).k("g1", g ? row(*g, i) : std::vector<std::string>())
				.k("rho", num(s.getDensity()(i))).k("u", u).k("T", num(tOf(s, i)));
		}
	}
}

int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2]);
	std::string base = argv[3];
	for (auto& j : scenarios(argv[1])) {
		trace().scn++;
		try {
			bool three = gets(j, "set").find("D3") != std::string::npos;
			if (getb(j, "thermal")) { if (three) one<3, Thermal<3> >(j, base); else one<2, Thermal<2> >(j, base); }
			else { if (three) one<3, Plain<3> >(j, base); else one<2, Plain<2> >(j, base); }
		} catch (std::exception& e) { Ev("Refused").k("msg", e.what()); if (std::getenv("VT_APPEND")) done(1); }
	}
	done();
}
