// Solvers for flows in boxes, with initial fields and settings that the scenario chooses.
#pragma once
#include "box.h"
#include "natrium/solver/CFDSolver.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/problemdescription/ConstantExternalForce.h"
#include "natrium/utilities/MPIGuard.h"

/// a sum of terms; a term is c times a product of powers of the coordinates, or c times the cosine of k.x + phase
struct Term { double c; V e; };
struct Field {
	bool trig = false; std::vector<Term> t;
	double operator()(const double* x, size_t dim) const {
		double y = 0;
		for (auto& m : t) { double p = m.c; if (trig) { double a = m.e[dim]; for (size_t d = 0; d < dim; d++) a += m.e[d] * x[d]; p *= std::cos(a); }
			else for (size_t d = 0; d < dim; d++) p *= std::pow(x[d], m.e[d]); y += p; }
		return y;
	}
	std::string json() const { std::string s = "["; for (auto& m : t) s += (s.size() > 1 ? "," : "") + std::string("{\"c\":\"") + num(m.c) + "\",\"e\":" + Ev::arr(nums(m.e)) + "}"; return s + "]"; }
};
/// fields of density and velocity: "field" is const, poly (total degree "degree") or trig ("waves" per side at most)
template<size_t dim> struct Fields {
	Field rho; Field u[dim];
	Fields(const Json& j, const V& lo, const V& hi) {
		std::mt19937 rng(geti(j, "seed", 1) + 991); std::uniform_real_distribution<double> U(-1, 1);
		std::string kind = gets(j, "field", "const"); auto u0 = getv(j, "u"); u0.resize(dim);
		double amp = getd(j, "famp", 0.02), sc = getd(j, "scaling", 1);
		for (size_t k = 0; k <= dim; k++) {
			Field& f = k == 0 ? rho : u[k - 1];
			double base = k == 0 ? getd(j, "rho", 1) : u0[k - 1] * sc, a = k == 0 ? amp : amp * sc;
			f.trig = kind == "trig";
			f.t.push_back({ base, V(dim + (f.trig ? 1 : 0), 0.0) });
			if (kind == "poly") { int deg = geti(j, "degree", 1); double size = 0; for (size_t d = 0; d < dim; d++) size = std::max(size, std::max(std::fabs(lo[d]), std::fabs(hi[d])));
				std::vector<int> e(dim, 0);
				for (;;) { int s = 0; for (int x : e) s += x; if (s > 0 && s <= deg) f.t.push_back({ a * U(rng) / std::pow(std::max(1.0, size), s), V(e.begin(), e.end()) });
					size_t d = 0; while (d < dim && ++e[d] > deg) e[d++] = 0; if (d == dim) break; } }
			else if (kind == "trig") for (int n = 0; n < 2; n++) { V e; for (size_t d = 0; d < dim; d++) e.push_back(2 * M_PI / (hi[d] - lo[d]) * ((int) (rng() % (2 * geti(j, "waves", 1) + 1)) - geti(j, "waves", 1))); e.push_back(3 * U(rng)); f.t.push_back({ a * U(rng), e }); }
		}
	}
	/// the field seen in the image of the box: axis d of the image is axis perm[d], reversed if sign[d] < 0 and moved by shift[d]; lo, hi: box of the original, lo2: of the image
	void image(const std::vector<int>& perm, const std::vector<int>& sign, const V& shift, const V& lo, const V& hi, const V& lo2) {
		auto move = [&](Field& f) { for (auto& m : f.t) { V e(m.e); if (f.trig && m.e.size() == dim + 1) for (size_t d = 0; d < dim; d++) {
			size_t p = perm[d]; double k = m.e[p], L = hi[p] - lo[p]; e[d] = sign[d] * k;
			e[dim] += sign[d] > 0 ? k * (lo[p] - lo2[d] - shift[d]) : k * (hi[p] + lo2[d] + shift[d]); (void) L; } m.e = e; } };
		Field v[dim]; move(rho); for (size_t d = 0; d < dim; d++) { v[d] = u[perm[d]]; for (auto& m : v[d].t) m.c *= sign[d]; move(v[d]); }
		for (size_t d = 0; d < dim; d++) u[d] = v[d];
	}
	void emit() const { std::string s = "["; for (size_t d = 0; d < dim; d++) s += (d ? "," : "") + u[d].json(); Ev("Fields").k("trig", rho.trig).raw("rho", rho.json()).raw("u", s + "]"); }
};
template<size_t dim> struct FlowBox: public Box<dim> {
	Fields<dim> fields;
	static Fields<dim> fieldsOf(const Json& j, const V& lo, const V& hi) {
		auto pr = getv(j, "perm"), sg = getv(j, "sign"), sh = getv(j, "shift"), n = getv(j, "cells"); if (pr.empty()) return Fields<dim>(j, lo, hi);
		std::vector<int> perm(pr.begin(), pr.end()), sign(sg.begin(), sg.end()); V a(dim), b(dim), s;
		for (size_t d = 0; d < dim; d++) { a[perm[d]] = lo[d]; b[perm[d]] = hi[d]; s.push_back(sh.empty() ? 0 : sh[d] * (hi[d] - lo[d]) / n[d] / (1 << geti(j, "refine"))); }
		Fields<dim> f(j, a, b); f.image(perm, sign, s, a, b, lo); return f;
	}
	FlowBox(const Json& j) : Box<dim>(j), fields(fieldsOf(j, this->lo, this->hi)) {
		auto f = fields;
		this->setInitialRho(boost::make_shared<FieldFn<dim> >([f](const dealii::Point<dim>& p, unsigned, double) { return f.rho(&p[0], dim); }, 1));
		this->setInitialU(boost::make_shared<FieldFn<dim> >([f](const dealii::Point<dim>& p, unsigned c, double) { return f.u[c](&p[0], dim); }, dim));
		double T = getd(j, "T", 1), ta = getd(j, "tamp"), r0 = getd(j, "rho", 1); this->setInitialT(boost::make_shared<FieldFn<dim> >([=](const dealii::Point<dim>& p, unsigned, double) { return ta == 0 ? T : T + ta * (f.rho(&p[0], dim) - r0); }, 1));
		this->setViscosity(getd(j, "nu", 0.1) * getd(j, "scaling", 1));
		auto F = getv(j, "force"); if (!F.empty()) { dealii::Tensor<1, dim> t; for (size_t d = 0; d < dim; d++) t[d] = F[d]; this->setExternalForce(boost::make_shared<ConstantExternalForce<dim> >(t)); }
	}
};
inline StencilType stencilType(const std::string& n) {
#define NATRIUM_S(X) if (n == #X) return Stencil_##X;
	NATRIUM_S(D2Q9) NATRIUM_S(D2Q19H) NATRIUM_S(D2Q19V) NATRIUM_S(D2Q25H) NATRIUM_S(D2Q777) NATRIUM_S(D3Q13) NATRIUM_S(D3Q15) NATRIUM_S(D3Q19) NATRIUM_S(D3Q21) NATRIUM_S(D3Q27) NATRIUM_S(RD3Q27) NATRIUM_S(D3V27) NATRIUM_S(D3Q45) NATRIUM_S(D3Q77)
	throw std::runtime_error("no set " + n);
}
template<class E> inline E pick(const std::string& n, const std::vector<std::pair<std::string, E> >& all) { for (auto& x : all) if (x.first == n) return x.second; throw std::runtime_error("unknown " + n); }
#define NATRIUM_P(X) { #X, X }
inline boost::shared_ptr<SolverConfiguration> flowConfig(const Json& j, const std::string& dir) {
	auto c = boost::make_shared<SolverConfiguration>();
	c->setUserInteraction(false); c->setOutputDirectory(dir); c->setCommandLineVerbosity(0); c->setSwitchOutputOff(!getb(j, "files"));
	c->setStencil(stencilType(gets(j, "stencil"))); c->setStencilScaling(getd(j, "scaling", 1)); c->setSedgOrderOfFiniteElement(geti(j, "order", 2)); c->setCFL(getd(j, "cfl", 0.4));
	bool dg = gets(j, "advection", "SL") != "SL";
	c->setAdvectionScheme(dg ? SEDG : SEMI_LAGRANGIAN);
	if (geti(j, "steps", -1) >= 0) c->setNumberOfTimeSteps(geti(j, "steps"));
	if (dg) { c->setSedgFluxType(gets(j, "advection") == "central" ? CENTRAL : LAX_FRIEDRICHS); c->setSupportPoints(GAUSS_LOBATTO_POINTS); c->setQuadrature(QGAUSS_LOBATTO); }
	c->setTimeIntegrator(pick<TimeIntegratorName>(gets(j, "integrator", "RUNGE_KUTTA_5STAGE"), { NATRIUM_P(RUNGE_KUTTA_5STAGE), NATRIUM_P(THETA_METHOD), NATRIUM_P(EXPONENTIAL), NATRIUM_P(OTHER) }));
	c->setDealIntegrator(pick<DealIntegratorName>(gets(j, "deal", "NONE"), { NATRIUM_P(FORWARD_EULER), NATRIUM_P(RK_THIRD_ORDER), NATRIUM_P(RK_CLASSIC_FOURTH_ORDER), NATRIUM_P(BACKWARD_EULER), NATRIUM_P(IMPLICIT_MIDPOINT), NATRIUM_P(CRANK_NICOLSON),
		NATRIUM_P(SDIRK_TWO_STAGES), NATRIUM_P(HEUN_EULER), NATRIUM_P(BOGACKI_SHAMPINE), NATRIUM_P(DOPRI), NATRIUM_P(FEHLBERG), NATRIUM_P(CASH_KARP), NATRIUM_P(NONE) }));
	c->setCollisionScheme(pick<CollisionSchemeName>(gets(j, "collision", "BGK_STANDARD"), { NATRIUM_P(BGK_STANDARD), NATRIUM_P(BGK_STANDARD_TRANSFORMED), NATRIUM_P(BGK_STEADY_STATE), NATRIUM_P(BGK_INCOMPRESSIBLE), NATRIUM_P(MRT_STANDARD), NATRIUM_P(MRT_ENTROPIC), NATRIUM_P(ENTROPIC_STABILIZED),
		NATRIUM_P(KBC_STANDARD), NATRIUM_P(KBC_CENTRAL), NATRIUM_P(BGK_MULTI_AM4), NATRIUM_P(BGK_MULTI_BDF2), NATRIUM_P(BGK_REGULARIZED) }));
	c->setEquilibriumScheme(pick<EquilibriumSchemeName>(gets(j, "equilibrium", "BGK_EQUILIBRIUM"), { NATRIUM_P(BGK_EQUILIBRIUM), NATRIUM_P(QUARTIC_EQUILIBRIUM), NATRIUM_P(INCOMPRESSIBLE_EQUILIBRIUM), NATRIUM_P(STEADYSTATE_EQUILIBRIUM), NATRIUM_P(ENTROPIC_EQUILIBRIUM) }));
	c->setMRTBasis(pick<MomentBasis>(gets(j, "basis", geti(j, "D", 2) == 2 ? "DELLAR_D2Q9" : "DHUMIERES_D3Q19"), { NATRIUM_P(DELLAR_D2Q9), NATRIUM_P(LALLEMAND_D2Q9), NATRIUM_P(DHUMIERES_D3Q19) }));
	c->setMRTRelaxationTimes(pick<RelaxMode>(gets(j, "relax", "RELAX_FULL"), { NATRIUM_P(RELAX_FULL), NATRIUM_P(DELLAR_RELAX_ONLY_N), NATRIUM_P(RELAX_DHUMIERES_PAPER) }));
	c->setForcingScheme(pick<ForceType>(gets(j, "forcing", "NO_FORCING"), { NATRIUM_P(NO_FORCING), NATRIUM_P(SHIFTING_VELOCITY), NATRIUM_P(EXACT_DIFFERENCE), NATRIUM_P(GUO) }));
	c->setInitializationScheme(pick<InitializationSchemeName>(gets(j, "init", "EQUILIBRIUM"), { NATRIUM_P(EQUILIBRIUM), NATRIUM_P(ITERATIVE), NATRIUM_P(GRADIENTS), NATRIUM_P(COMPRESSIBLE_ITERATIVE) }));
	if (geti(j, "initsteps", -1) > 0) { c->setIterativeInitializationNumberOfIterations(geti(j, "initsteps")); c->setIterativeInitializationResidual(getd(j, "residual", 1e-12)); }
	std::string fi = gets(j, "filter");
	if (!fi.empty()) {
		c->setFiltering(true); c->setFilteringScheme(fi == "new" ? NEW_FILTER : EXPONENTIAL_FILTER); c->setExponentialFilterAlpha(getd(j, "alpha", 10)); c->setExponentialFilterS(getd(j, "s", 20));
		c->setExponentialFilterNc(geti(j, "Nc", 1)); c->setFilterDegreeByComponentSums(getb(j, "bysum")); c->setFilterInterval(geti(j, "interval", 1));
	}
	return c;
}
/// a solver whose state can be looked at
template<size_t dim> struct Flow: public CFDSolver<dim> {
	using CFDSolver<dim>::CFDSolver;
	size_t& at() { return this->m_i; }
	DistributionFunctions& f() { return this->m_f; }
	distributed_vector& rho() { return this->m_density; }
	std::vector<distributed_vector>& u() { return this->m_velocity; }
	AdvectionOperator<dim>& adv() { return *this->m_advectionOperator; }
	CollisionModel& model() { return *this->m_collisionModel; }
	std::map<dealii::types::global_dof_index, dealii::Point<dim> >& points() { return this->m_supportPoints; }
	double tau() { return this->m_collisionModel->getRelaxationParameter(); }
};
/// unit support points in lexicographic order
template<size_t dim> std::vector<unsigned> lexicographic(const dealii::FiniteElement<dim>& fe) {
	auto& up = fe.get_unit_support_points(); std::vector<unsigned> lex(up.size()); for (unsigned i = 0; i < lex.size(); i++) lex[i] = i;
	std::sort(lex.begin(), lex.end(), [&](unsigned a, unsigned b) { for (int d = dim - 1; d >= 0; d--) if (std::fabs(up[a][d] - up[b][d]) > 1e-9) return up[a][d] < up[b][d]; return false; });
	return lex;
}
