// Boundary collections, well-posedness and periodic pairing.   h_bound SCENARIOS TRACE SCRATCH
#include "trace.h"
#include "problems.h"
#include <random>
#include <deal.II/fe/fe_q.h>
#include <deal.II/fe/fe_dgq.h>
#include "natrium/solver/CFDSolver.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/boundaries/ThermalBounceBack.h"
#include "natrium/utilities/MPIGuard.h"
using namespace natrium;
using namespace vt;

static const char* kindOf(BoundaryName n) {
	switch (n) {
	case PERIODIC_BOUNDARY: return "periodic"; case ZERO_VELOCITY_NEQ_BB: case CONSTANT_VELOCITY_NEQ_BB: case NONCONSTANT_VELOCITY_NEQ_BB: return "wall";
	case FIRST_ORDER_BB: return "bounce"; case VELOCITY_EQUILIBRIUM_BOUNDARY: return "inflow"; case DO_NOTHING_BC: return "open"; case THERMAL_BB: return "thermal"; default: return "?";
	}
}
template<size_t dim> static boost::shared_ptr<Boundary<dim> > make(const std::string& k, size_t id) {
	dealii::Vector<double> z(dim), v(dim); for (size_t d = 0; d < dim; d++) v(d) = 0.01 * (d + 1);
	if (k == "wall") return boost::make_shared<VelocityNeqBounceBack<dim> >(id, v);
	if (k == "bounce") return boost::make_shared<SLFirstOrderBounceBack<dim> >(id);
	if (k == "inflow") return boost::make_shared<SLEquilibriumBoundary<dim> >(id, v);
	if (k == "open") return boost::make_shared<DoNothingBoundary<dim> >(id);
	if (k == "thermal") return boost::make_shared<ThermalBounceBack<dim> >(id, v, 1.0);
	throw std::runtime_error("no kind " + k);
}
template<size_t dim> struct Prob: public ProblemDescription<dim> {
	std::function<void(Mesh<dim>&)> ref;
	Prob(boost::shared_ptr<Mesh<dim> > m) : ProblemDescription<dim>(m, 0.1, 1.0) {}
	void refine(Mesh<dim>& m) override { if (ref) ref(m); }
	void transform(Mesh<dim>&) override {}
	bool isCartesian() override { return true; }
};
template<class T> static std::vector<std::string> nums(const T& p, size_t n) { std::vector<std::string> r; for (size_t d = 0; d < n; d++) r.push_back(num(p[d])); return r; }

/// a box whose sides carry the labels of the scenario; with "skew" the upper part of each side is shifted
template<size_t dim> static boost::shared_ptr<Mesh<dim> > grid(const Json& j) {
	auto m = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
	auto cells = getv(j, "cells"), size = getv(j, "size"), org = getv(j, "origin"), labels = getv(j, "labels"); org.resize(dim);
	dealii::Point<dim> a, b; std::vector<unsigned> reps;
	for (unsigned d = 0; d < dim; d++) { a[d] = org[d]; b[d] = org[d] + size[d]; reps.push_back(cells[d]); }
	dealii::GridGenerator::subdivided_hyper_rectangle(*m, reps, a, b, true);
	double skew = getd(j, "skew");
	if (skew != 0) dealii::GridTools::transform([&](const dealii::Point<dim>& p) { dealii::Point<dim> q(p); // moves the inner vertices of the last side along it
		if (std::fabs(p[0] - b[0]) < 1e-9 && p[1] > a[1] + 1e-9 && p[1] < b[1] - 1e-9) q[1] += skew; return q; }, *m);
	double bend = getd(j, "bend");
	if (bend != 0) dealii::GridTools::transform([&](const dealii::Point<dim>& p) { dealii::Point<dim> q(p); // the same distortion everywhere along an axis
		for (unsigned d = 0; d < dim; d++) q[d] = p[d] + bend * size[d] * std::sin(2 * M_PI * (p[d] - a[d]) / size[d]) / 6.3; return q; }, *m);
	if (!labels.empty()) for (auto c = m->begin_active(); c != m->end(); ++c) for (unsigned f = 0; f < 2 * dim; f++) if (c->face(f)->at_boundary()) c->face(f)->set_boundary_id(100 + c->face(f)->boundary_id());
	if (!labels.empty()) for (auto c = m->begin_active(); c != m->end(); ++c) for (unsigned f = 0; f < 2 * dim; f++) if (c->face(f)->at_boundary() && c->face(f)->boundary_id() >= 100)
		c->face(f)->set_boundary_id((unsigned) labels[c->face(f)->boundary_id() - 100]);
	return m;
}

template<size_t dim> static void look(BoundaryCollection<dim>& b, size_t ids) {
	std::vector<std::string> kind, per; std::vector<int> has, own, isp;
	for (size_t i = 0; i < ids; i++) {
		has.push_back(b.hasID(i));
		try { auto& x = b.getBoundary(i); kind.push_back(kindOf(x->getBoundaryName()));
			own.push_back(x->isPeriodic() ? (int) -1 : (int) x->getBoundaryIndicator()); } catch (BoundaryCollectionException&) { kind.push_back("none"); own.push_back(-2); }
		try { isp.push_back(b.isPeriodic(i)); } catch (BoundaryCollectionException&) { isp.push_back(-1); }
		try { auto& x = b.getPeriodicBoundary(i); per.push_back(std::to_string(x->getBoundaryIndicator1()) + "-" + std::to_string(x->getBoundaryIndicator2()) + "-" + std::to_string(x->getDirection())); }
		catch (BoundaryCollectionException&) { per.push_back("none"); }
	}
	std::vector<int> keys, pkeys; for (auto& x : b.getBoundaries()) keys.push_back(x.first); for (auto& x : b.getPeriodicBoundaries()) pkeys.push_back(x.first);
	Ev("Look").k("has", has).k("kind", kind).k("own", own).k("isp", isp).k("per", per).k("n", b.numberOfBoundaries()).k("np", b.numberOfPeriodicBoundaries()).k("keys", keys).k("pkeys", pkeys);
}

template<size_t dim> static void collection(const Json& j, const std::string& base) {
	auto mesh = grid<dim>(j);
	auto b = boost::make_shared<BoundaryCollection<dim> >();
	size_t ids = geti(j, "ids", 5);
	{ std::vector<int> l; for (double x : getv(j, "labels")) l.push_back(x); Ev("Mesh").k("D", dim).k("labels", l).k("ids", ids).k("skew", getd(j, "skew") != 0); }
	look(*b, ids);
	Prob<dim> p0(mesh); p0.setBoundaries(b);
	for (auto& x : j.get_child("ops")) {
		const Json& o = x.second; std::string op = gets(o, "op"), r = "ok";
		if (op == "periodic") {
			size_t a = geti(o, "a"), c = geti(o, "b"), d = geti(o, "dir");
			Ev("TryPeriodic").k("a", a).k("b", c).k("dir", d);
			boost::shared_ptr<PeriodicBoundary<dim> > per;
			try { per = boost::make_shared<PeriodicBoundary<dim> >(a, c, d, mesh); } catch (std::exception& e) { r = "impossible"; }
			if (per) { try { b->addBoundary(per); } catch (BoundaryCollectionException&) { r = "refused"; } }
			Ev("Periodic").k("a", a).k("b", c).k("dir", d).k("r", r);
		} else if (op == "wall") {
			std::string k = gets(o, "kind"); size_t id = geti(o, "id");
			try { b->addBoundary(make<dim>(k, id)); } catch (BoundaryCollectionException&) { r = "refused"; }
			Ev("Wall").k("kind", k).k("id", id).k("r", r);
		} else if (op == "check") {
			bool ok = p0.checkBoundaryConditions();
			Ev("Check").k("ok", ok);
		} else if (op == "refine") { mesh->refine_global(1); Ev("Refine"); }
		else if (op == "solve") {
			bool sl = gets(o, "adv", "SL") == "SL";
			Ev("Solve").k("sl", sl);
			auto c = boost::make_shared<SolverConfiguration>();
			c->setUserInteraction(false); c->setOutputDirectory(base + "/out"); c->setCommandLineVerbosity(0); c->setSwitchOutputOff(true);
			c->setSedgOrderOfFiniteElement(1); c->setCFL(0.4); c->setStencil(dim == 2 ? Stencil_D2Q9 : Stencil_D3Q19);
			c->setAdvectionScheme(sl ? SEMI_LAGRANGIAN : SEDG); c->setNumberOfTimeSteps(1);
			auto p = boost::make_shared<Prob<dim> >(mesh); p->setBoundaries(b);
			try { CFDSolver<dim> s(c, p); s.run(); Ev("Solved"); } catch (std::exception& e) { std::cerr << e.what(); done(1); }
			done();
		}
		look(*b, ids);
	}
}

template<size_t dim> static void pairing(const Json& j) {
	auto mesh = grid<dim>(j);
	std::string per = gets(j, "periodic"); // one letter per axis
	auto b = boost::make_shared<BoundaryCollection<dim> >();
	auto sw = gets(j, "swap");
	auto loc = getv(j, "local"); std::vector<std::string> letters; for (char ch : per) letters.push_back(std::string(1, ch));
	{ std::vector<std::string> sz; for (double x : getv(j, "size")) sz.push_back(num(x)); Ev("Box").k("D", dim).k("size", sz).k("periodic", letters).k("skew", getd(j, "skew") != 0).k("local", std::vector<int>(loc.begin(), loc.end())); }
	for (size_t d = 0; d < dim; d++) if (per[d] == 'P') {
		size_t i1 = 2 * d, i2 = 2 * d + 1; if (sw.size() > d && sw[d] == 'S') std::swap(i1, i2);
		try { b->addBoundary(boost::make_shared<PeriodicBoundary<dim> >(i1, i2, d, mesh)); } catch (std::exception& e) { Ev("Impossible").k("dir", d); return; }
	}
	// refinement: globally, then where the scenario says (in a slab across the box)
	mesh->refine_global(geti(j, "refine"));
	auto size = getv(j, "size"), org = getv(j, "origin"); org.resize(dim);
	for (auto& x : getv(j, "local")) { // axis a: refine the cells in the lower half of that axis
		size_t a = (size_t) x;
		for (auto c = mesh->begin_active(); c != mesh->end(); ++c) if (c->is_locally_owned() && c->center()[a] < org[a] + 0.5 * size[a]) c->set_refine_flag();
		mesh->execute_coarsening_and_refinement();
	}
	dealii::DoFHandler<dim> dh; dh.reinit(*mesh);
	bool dg = getb(j, "dg");
	if (dg) dh.distribute_dofs(dealii::FE_DGQ<dim>(1)); else dh.distribute_dofs(dealii::FE_Q<dim>(1));
	for (auto& x : b->getPeriodicBoundaries()) if (x.first == x.second->getBoundaryIndicator1()) {
		try { x.second->createCellMap(dh); } catch (std::exception& e) { Ev("Impossible").k("dir", x.second->getDirection()); return; }
	}
	bool again = getb(j, "again");
	if (again) for (auto& x : b->getPeriodicBoundaries()) x.second->createCellMap(dh);
	std::mt19937 rng(geti(j, "seed", 1)); std::uniform_real_distribution<double> U(-1, 1);
	trace().hold();
	for (auto c = dh.begin_active(); c != dh.end(); ++c) for (unsigned f = 0; f < 2 * dim; f++) if (c->is_locally_owned() && c->at_boundary(f)) {
		size_t id = c->face(f)->boundary_id();
		bool bper = per[id / 2] == 'P';
		std::vector<int> in; for (auto& x : b->getPeriodicBoundaries()) in.push_back(x.second->isFaceInBoundary(c, f) ? (int) x.first : -1);
		if (!bper) { Ev("Plain").k("id", id).k("in", in); continue; }
		auto& pb = b->getPeriodicBoundary(id);
		typename dealii::DoFHandler<dim>::cell_iterator o; size_t of = 99; std::string r = "ok";
		try { of = pb->getOppositeCellAtPeriodicBoundary(c, o, f); } catch (std::exception& e) { r = "unpaired"; }
		if (r != "ok") { Ev("Pair").k("id", id).k("r", r).k("at", nums(c->center(), dim)); continue; }
		dealii::Point<dim> p; for (size_t d = 0; d < dim; d++) p[d] = c->center()[d] + U(rng) * c->diameter() * 2;
		std::string r2 = "ok"; dealii::Point<dim> q, back;
		try { q = pb->coordinatesAcrossPeriodicBoundary(p, c, f); back = pb->coordinatesAcrossPeriodicBoundary(q, typename dealii::DoFHandler<dim>::active_cell_iterator(o), of); } catch (std::exception& e) { r2 = e.what(); }
		Ev("Pair").k("id", id).k("r", r).k("moved", r2).k("oid", o->face(of)->at_boundary() ? (long) o->face(of)->boundary_id() : -1L).k("in", in)
			.k("at", nums(c->center(), dim)).k("face", nums(c->face(f)->center(), dim)).k("oat", nums(o->center(), dim)).k("oface", nums(o->face(of)->center(), dim))
			.k("level", (long) c->level()).k("olevel", (long) o->level()).k("p", nums(p, dim)).k("q", nums(q, dim)).k("back", nums(back, dim));
	}
	trace().merge();
	Ev("End");
}

int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	std::string base = argv[3];
	for (auto& j : scenarios(argv[1])) {
		trace().scn++;
		bool three = geti(j, "D", 2) == 3;
		if (gets(j, "do") == "pairs") { if (three) pairing<3>(j); else pairing<2>(j); }
		else { if (three) collection<3>(j, base); else collection<2>(j, base); }
	}
	done();
}
