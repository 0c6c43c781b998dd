// Boxes with one kind of boundary per side (P periodic, W moving wall, E inflow, B bounce back, N open).
#pragma once
#include "trace.h"
#include "problems.h"
#include "stencils.h"
#include <random>
#include <deal.II/dofs/dof_tools.h>
#include "natrium/boundaries/ThermalBounceBack.h"
using namespace natrium;
using namespace vt;
typedef std::vector<std::string> S; typedef std::vector<double> V;
inline S nums(const V& v) { S r; for (double x : v) r.push_back(num(x)); return r; }
template<size_t dim> S nums(const dealii::Point<dim>& p) { S r; for (size_t d = 0; d < dim; d++) r.push_back(num(p[d])); return r; }

struct WallFn { V a; std::vector<V> b; V t; };
template<size_t dim, class Base = ProblemDescription<dim> > struct Box: public Base {
	Json j; V lo, hi; std::vector<WallFn> wall;
	static boost::shared_ptr<Mesh<dim> > grid(const Json& j) {
		auto m = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
		auto cells = getv(j, "cells"), size = getv(j, "size"), org = getv(j, "origin"); org.resize(dim);
		dealii::Point<dim> a, b; std::vector<unsigned> reps;
		for (unsigned d = 0; d < dim; d++) { a[d] = org[d]; b[d] = org[d] + size[d]; reps.push_back(cells[d]); }
		dealii::GridGenerator::subdivided_hyper_rectangle(*m, reps, a, b, true);
		auto lab = getv(j, "labels"); // boundary numbers of the sides
		if (!lab.empty()) for (auto c = m->begin_active(); c != m->end(); ++c) for (unsigned f = 0; f < 2 * dim; f++) if (c->face(f)->at_boundary()) c->face(f)->set_boundary_id((unsigned) lab[f]);
		return m;
	}
	Box(const Json& j) : Base(grid(j), 0.1, 1.0), j(j) {
		auto size = getv(j, "size"), org = getv(j, "origin"), lab = getv(j, "labels"); org.resize(dim);
		for (size_t d = 0; d < dim; d++) { lo.push_back(org[d]); hi.push_back(org[d] + size[d]); }
		if (lab.empty()) for (size_t s = 0; s < 2 * dim; s++) lab.push_back(s);
		std::string kind = gets(j, "kind"); // one letter per side
		std::mt19937 rng(geti(j, "seed", 1) + 77); std::uniform_real_distribution<double> U(-1, 1);
		double amp = getd(j, "amp", 0.05); std::string fn = gets(j, "walls", "const"); auto cu = getv(j, "uwall");
		auto bs = boost::make_shared<BoundaryCollection<dim> >();
		for (size_t s = 0; s < 2 * dim; s++) {
			WallFn w; for (size_t i = 0; i < dim; i++) { w.a.push_back(cu.size() ? cu[i] : kind[s] == 'W' || kind[s] == 'E' ? amp * U(rng) : 0); V r; for (size_t d = 0; d < dim; d++) r.push_back(fn == "const" ? 0 : amp * U(rng)); w.b.push_back(r); w.t.push_back(fn == "time" ? amp * U(rng) : 0); }
			auto wv = getv(j, "wallv"); if (!wv.empty()) for (size_t i = 0; i < dim; i++) w.a[i] = wv[s * dim + i];
			wall.push_back(w);
		}
		for (size_t d = 0; d < dim; d++) if (kind[2 * d] == 'P') bs->addBoundary(boost::make_shared<PeriodicBoundary<dim> >((size_t) lab[2 * d], (size_t) lab[2 * d + 1], d, this->getMesh()));
			else for (size_t s = 2 * d; s < 2 * d + 2; s++) {
				size_t id = lab[s]; dealii::Vector<double> v(dim); for (size_t i = 0; i < dim; i++) v(i) = wall[s].a[i];
				WallFn w = wall[s];
				if (kind[s] == 'B') bs->addBoundary(boost::make_shared<SLFirstOrderBounceBack<dim> >(id));
				else if (kind[s] == 'N') bs->addBoundary(boost::make_shared<DoNothingBoundary<dim> >(id));
				else if (kind[s] == 'E') bs->addBoundary(boost::make_shared<SLEquilibriumBoundary<dim> >(id, v, getd(j, "temp", 1)));
				else if (kind[s] == 'T') bs->addBoundary(boost::make_shared<ThermalBounceBack<dim> >(id, v, getd(j, "temp", 1)));
				else if (fn == "const") bs->addBoundary(boost::make_shared<VelocityNeqBounceBack<dim> >(id, v));
				else bs->addBoundary(boost::make_shared<VelocityNeqBounceBack<dim> >(id, boost::shared_ptr<dealii::Function<dim> >(boost::make_shared<FieldFn<dim> >(
						[w](const dealii::Point<dim>& p, unsigned c, double t) { double x = w.a[c] + w.t[c] * t; for (size_t d = 0; d < dim; d++) x += w.b[c][d] * p[d]; return x; }, dim))));
			}
		this->setBoundaries(bs);
	}
	void refine(Mesh<dim>& m) override {
		m.refine_global(geti(j, "refine"));
		std::mt19937 rng(geti(j, "seed", 1) + 5);
		for (int k = 0; k < geti(j, "local"); k++) { // refine about a third of the cells, none next to a periodic side
			for (auto c = m.begin_active(); c != m.end(); ++c) { bool edge = false; for (unsigned f = 0; f < 2 * dim; f++) if (c->at_boundary(f) && gets(j, "kind").at(f) == 'P') edge = true;
				bool pick = rng() % 3 == 0; if (!edge && pick && c->is_locally_owned()) c->set_refine_flag(); }
			m.execute_coarsening_and_refinement();
		}
	}
	void transform(Mesh<dim>& m) override {
		double st = getd(j, "stretch"), di = getd(j, "distort");
		if (st != 0) dealii::GridTools::transform([&](const dealii::Point<dim>& p) { dealii::Point<dim> q(p); // every axis on its own
			for (unsigned d = 0; d < dim; d++) { double L = hi[d] - lo[d]; q[d] = p[d] + st * L * std::sin(2 * M_PI * (p[d] - lo[d]) / L) / 6.3; } return q; }, m);
		if (di != 0) dealii::GridTools::transform([&](const dealii::Point<dim>& p) { dealii::Point<dim> q(p); double h = 1; // inner vertices
			for (unsigned d = 0; d < dim; d++) h *= std::sin(M_PI * (p[d] - lo[d]) / (hi[d] - lo[d]));
			for (unsigned d = 0; d < dim; d++) q[d] = p[d] + di * (hi[d] - lo[d]) * h * std::cos(3 * p[(d + 1) % dim] + d); return q; }, m);
	}
	bool isCartesian() override { return getd(j, "distort") == 0 && (getd(j, "stretch") == 0 || getd(j, "local") == 0); } // a hanging node stays in the middle of its line
};

inline S letters(const std::string& s) { S r; for (char c : s) r.push_back(std::string(1, c)); return r; }
inline std::string wallJson(const std::vector<WallFn>& wall) {
	std::string w = "[";
	for (auto& f : wall) { std::vector<S> b; for (auto& r : f.b) b.push_back(nums(r)); w += (w.size() > 1 ? "," : "") + std::string("{\"a\":") + Ev::arr(nums(f.a)) + ",\"b\":" + Ev::arr(b) + ",\"t\":" + Ev::arr(nums(f.t)) + "}"; }
	return w + "]";
}
template<size_t dim> void emitSet(const Stencil& st) {
	std::vector<S> c; S w; std::vector<int> opp;
	for (size_t q = 0; q < st.getQ(); q++) { V e; for (size_t d = 0; d < dim; d++) e.push_back(st.getDirection(q)(d)); c.push_back(nums(e)); w.push_back(num(st.getWeight(q))); opp.push_back(st.getIndexOfOppositeDirection(q) + 1); }
	Ev("Set").k("c", c).k("w", w).k("opp", opp).k("cs2", num(st.getSpeedOfSoundSquare()));
}
