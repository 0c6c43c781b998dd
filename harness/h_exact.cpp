// Benchmark flows: what they prescribe.   h_exact SCENARIOS TRACE SCRATCH
#include "box.h"
#include "natrium/problemdescription/ConstantExternalForce.h"
#include "natrium/benchmarks/TaylorGreenVortex2D.h"
#include "natrium/benchmarks/TaylorGreenVortex3D.h"
#include "natrium/benchmarks/CouetteFlow2D.h"
#include "natrium/benchmarks/CouetteFlow3D.h"
#include "natrium/benchmarks/PoiseuilleFlow2D.h"
#include "natrium/benchmarks/PoiseuilleFlow3D.h"
#include "natrium/benchmarks/ShearLayer2D.h"
#include "natrium/utilities/MPIGuard.h"
#include <unistd.h>
template<size_t dim> struct Probe {
	typedef dealii::Point<dim> P; std::function<void(double)> clock; std::function<const dealii::Function<dim>&()> u, rho;
	void operator()(const char* e, const P& x, double t, double h, double k) {
		std::vector<std::vector<S> > uu; std::vector<S> rr, when; 
		clock(t);
		for (size_t i = 0; i < dim; i++) { std::vector<S> c; for (size_t d = 0; d < dim; d++) { V y; for (int m = -2; m <= 2; m++) { P p(x); p[d] += m * h; y.push_back(u().value(p, i)); } c.push_back(nums(y)); } uu.push_back(c); }
		for (size_t d = 0; d < dim; d++) { V y; for (int m = -2; m <= 2; m++) { P p(x); p[d] += m * h; y.push_back(rho().value(p, 0)); } rr.push_back(nums(y)); }
		for (size_t i = 0; i < dim; i++) { V y; for (int m = -2; m <= 2 && k > 0; m++) { clock(t + m * k); y.push_back(u().value(x, i)); } when.push_back(nums(y)); }
		std::string a = "["; for (auto& c : uu) a += (a.size() > 1 ? "," : "") + Ev::arr(c); a += "]";
		Ev(e).k("x", nums<dim>(x)).k("t", num(t)).k("h", num(h)).k("k", num(k)).raw("u", a).k("rho", rr).k("when", when);
	}
};
template<size_t dim> static void pose(const Json& j, ProblemDescription<dim>& p, double L, double U, const V& sides) {
	p.refineAndTransform(); auto& m = *p.getMesh(); V lo(dim, 1e300), hi(dim, -1e300);
	for (auto c = m.begin_active(); c != m.end(); ++c) for (unsigned v = 0; v < (1u << dim); v++) for (size_t d = 0; d < dim; d++) { lo[d] = std::min(lo[d], c->vertex(v)[d]); hi[d] = std::max(hi[d], c->vertex(v)[d]); }
	V F(dim, 0); if (p.hasExternalForce()) for (size_t d = 0; d < dim; d++) F[d] = p.getExternalForce()->getForce()[d];
	std::string name = gets(j, "flow"); bool benchmark = name == "vortex" || name == "couette";
	Ev("Flow").k("name", name).k("D", dim).k("nu", num(p.getViscosity())).k("cs2", num(getd(j, "cs", 1) * getd(j, "cs", 1))).k("U", num(U)).k("L", num(L)).k("kappa", num(getd(j, "kappa", 1))).k("amp", num(getd(j, "amp", 0))).k("pressure", getb(j, "pressure"))
		.k("lo", nums(lo)).k("hi", nums(hi)).k("side", nums(sides)).k("force", nums(F)).k("reach", benchmark && name == "couette" ? num(p.getCharacteristicLength()) : std::string()).k("tol", gets(j, "tol", "1e-4"));
	std::map<std::pair<int, int>, size_t> ids; std::map<std::pair<int, int>, dealii::Point<dim> > mid;
	for (auto c = m.begin_active(); c != m.end(); ++c) for (unsigned f = 0; f < 2 * dim; f++) if (c->face(f)->at_boundary()) { auto x = c->face(f)->center();
		for (size_t d = 0; d < dim; d++) for (int e = 0; e < 2; e++) if (std::fabs(x[d] - (e ? hi : lo)[d]) < 1e-9) { ids[{ d, e }] = c->face(f)->boundary_id(); mid[{ d, e }] = x; } }
	for (auto& s : ids) { auto b = p.getBoundaries()->getBoundary(s.second); V v(dim, 0);
		if (!b->isPeriodic() && b->getBoundaryValues().getVelocity()) { dealii::Vector<double> y(dim); b->getBoundaryValues().getVelocity()->vector_value(mid[s.first], y); for (size_t d = 0; d < dim; d++) v[d] = y(d); }
		Ev("Side").k("axis", s.first.first + 1).k("end", s.first.second + 1).k("kind", std::string(b->isPeriodic() ? "periodic" : "wall")).k("v", nums(v)); }
	Ev("Posed");
}
template<size_t dim> static dealii::Point<dim> place(std::mt19937& rng, const V& sides, double rim) { std::uniform_real_distribution<double> U(0, 1); dealii::Point<dim> p; for (size_t d = 0; d < dim; d++) p[d] = sides[d] * (rim + (1 - 2 * rim) * U(rng)); return p; }
template<size_t dim, class B> static void solution(const Json& j, boost::shared_ptr<B> b, double L, double U, const V& sides, double t0, double late) {
	pose<dim>(j, *b, L, U, sides); std::mt19937 rng(geti(j, "seed", 1)); double now = 0;
	Probe<dim> p; p.clock = [&](double t) { now = t; };
	p.u = [&]() -> const dealii::Function<dim>& { return *b->getAnalyticUFunction(now); }; p.rho = [&]() -> const dealii::Function<dim>& { return *b->getAnalyticRhoFunction(now); };
	double h = getd(j, "h", 0.004) * L, k = getd(j, "k", 0.01); auto times = getv(j, "times");
	for (double t : times) for (int n = 0; n < geti(j, "points", 4); n++) p("Probe", place<dim>(rng, sides, 0.03), t, h, k);
	for (double t : times) for (size_t a = 0; a < dim; a++) { auto x = place<dim>(rng, sides, 0), y = x; x[a] = 0; y[a] = sides[a]; V lo, hi; auto& u = *b->getAnalyticUFunction(t); for (size_t d = 0; d < dim; d++) { lo.push_back(u.value(x, d)); hi.push_back(u.value(y, d)); } Ev("Edge").k("axis", a + 1).k("lo", nums(lo)).k("hi", nums(hi)); }
	Probe<dim> q; q.clock = [](double) {}; q.u = [&]() -> const dealii::Function<dim>& { return *b->getInitialUFunction(); }; q.rho = [&]() -> const dealii::Function<dim>& { return *b->getInitialRhoFunction(); };
	if (t0 == 0) for (int n = 0; n < geti(j, "points", 4); n++) q("Start", place<dim>(rng, sides, 0.03), 0, h, 0);
	if (late > 0 && t0 == 0 && !getb(j, "uneven")) for (int n = 0; n < 4; n++) { auto x = place<dim>(rng, sides, 0); x[dim - 1] *= 0.5; V v; for (size_t d = 0; d < dim; d++) v.push_back(b->getAnalyticUFunction(late * 5e-5)->value(x, d)); Ev("Early").k("x", nums<dim>(x)).k("u", nums(v)); }
	if (late > 0) for (int n = 0; n < 3; n++) { auto x = place<dim>(rng, sides, 0); V v; for (size_t d = 0; d < dim; d++) v.push_back(b->getAnalyticUFunction(late)->value(x, d)); Ev("Late").k("x", nums<dim>(x)).k("u", nums(v)); }
}
template<size_t dim, class B> static void start(const Json& j, boost::shared_ptr<B> b, double L, double U, const V& sides) {
	pose<dim>(j, *b, L, U, sides); std::mt19937 rng(geti(j, "seed", 1));
	Probe<dim> q; q.clock = [](double) {}; q.u = [&]() -> const dealii::Function<dim>& { return *b->getInitialUFunction(); }; q.rho = [&]() -> const dealii::Function<dim>& { return *b->getInitialRhoFunction(); };
	for (int n = 0; n < geti(j, "points", 4); n++) q("Start", place<dim>(rng, sides, 0.01), 0, getd(j, "h", 0.004) * L, 0);
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	auto all = scenarios(argv[1]); trace().open(argv[2], true); if (chdir(argv[3])) return 3;
	for (auto& j : all) { trace().scn++;
		std::string f = gets(j, "flow"); double nu = getd(j, "nu", .1), U = getd(j, "U"), L = getd(j, "L", 1), cs = getd(j, "cs", 1); size_t r = geti(j, "refine", 1); auto s = getv(j, "sides"); bool three = geti(j, "D", 2) == 3;
		if (f == "vortex") { auto b = boost::make_shared<TaylorGreenVortex2D>(nu, r, cs, getb(j, "pressure"), L); b->setHorizontalVelocity(U); solution<2>(j, b, L, U, V(2, L), 0, 0); }
		else if (f == "couette" && !three) solution<2>(j, boost::make_shared<CouetteFlow2D>(nu, U, r, L, getd(j, "t0"), getb(j, "uneven")), L, U, V(2, L), getd(j, "t0"), 40 * L * L / nu);
		else if (f == "couette") solution<3>(j, boost::make_shared<CouetteFlow3D>(nu, U, r, (size_t) L, getd(j, "t0"), getb(j, "uneven")), L, U, V(3, L), getd(j, "t0"), 40 * L * L / nu);
		else if (f == "poiseuille" && !three) pose<2>(j, *boost::make_shared<PoiseuilleFlow2D>(nu, r, U, s[1], s[0], true), L, U, s);
		else if (f == "poiseuille") pose<3>(j, *boost::make_shared<PoiseuilleFlow3D>(nu, r, U, s[2], s[1], s[0], true), L, U, s);
		else if (f == "layer") start<2>(j, boost::make_shared<ShearLayer2D>(nu, r, U, getd(j, "kappa"), getd(j, "amp"), 0, 0), 1, U, V(2, 1));
		else if (f == "vortices") start<3>(j, boost::make_shared<TaylorGreenVortex3D>(nu, r, cs, getb(j, "pressure"), geti(j, "repeat", 1)), 2 * M_PI, 0, V(3, 2 * M_PI));
		else throw std::runtime_error("flow " + f);
	}
	done();
}
