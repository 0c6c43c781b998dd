// A box-shaped flow problem whose size, mesh, boundaries and initial fields the scenario chooses.
#pragma once
#include <functional>
#include <deal.II/grid/grid_generator.h>
#include <deal.II/grid/grid_tools.h>
#include <deal.II/base/function.h>
#include "natrium/problemdescription/ProblemDescription.h"
#include "natrium/problemdescription/Benchmark.h"
#include "natrium/problemdescription/BoundaryCollection.h"
#include "natrium/boundaries/PeriodicBoundary.h"
#include "natrium/boundaries/VelocityNeqBounceBack.h"
#include "natrium/boundaries/SLFirstOrderBounceBack.h"
#include "natrium/boundaries/SLEquilibriumBoundary.h"
#include "natrium/boundaries/DoNothingBoundary.h"
#include "natrium/utilities/BasicNames.h"

namespace vt {
using namespace natrium;

template<int dim> class FieldFn: public dealii::Function<dim> {
public:
	typedef std::function<double(const dealii::Point<dim>&, unsigned, double)> F;
	F f;
	FieldFn(F f, unsigned nc) : dealii::Function<dim>(nc), f(f) {}
	double value(const dealii::Point<dim>& p, const unsigned c = 0) const override { return f(p, c, this->get_time()); }
	void vector_value(const dealii::Point<dim>& p, dealii::Vector<double>& v) const override {
		for (unsigned c = 0; c < this->n_components; c++) v(c) = value(p, c);
	}
};

struct BoxSpec {
	std::vector<unsigned> cells; ///< coarse cells per axis
	std::vector<double> size;    ///< edge lengths
	std::string bc;              ///< one letter per axis: P periodic, W velocity wall (semi-Lagrangian or DG), B first order bounce back
	unsigned refine = 0;         ///< global refinements
	double viscosity = 0.1;
	double stretch = 0;          ///< smooth distortion of inner vertices
	std::vector<std::vector<double> > wall; ///< wall velocity of boundary id 2*axis+side (constant)
};

template<size_t dim, class Base = ProblemDescription<dim> > class BoxProblem: public Base {
	BoxSpec m_s;
	std::function<void(Mesh<dim>&)> m_extra;
	static boost::shared_ptr<Mesh<dim> > grid(const BoxSpec& s) {
		auto m = boost::make_shared<Mesh<dim> >(MPI_COMM_WORLD);
		dealii::Point<dim> a, b;
		std::vector<unsigned> reps;
		for (unsigned d = 0; d < dim; d++) { b[d] = s.size[d]; reps.push_back(s.cells[d]); }
		dealii::GridGenerator::subdivided_hyper_rectangle(*m, reps, a, b, true);
		return m;
	}
public:
	typedef typename FieldFn<dim>::F Field;
	BoxProblem(const BoxSpec& s, Field rho = Field(), Field u = Field(), std::vector<Field> wallfn = {}) :
			Base(grid(s), s.viscosity, 1.0), m_s(s) {
		auto bs = boost::make_shared<BoundaryCollection<dim> >();
		for (unsigned d = 0; d < dim; d++) {
			if (s.bc[d] == 'P')
				bs->addBoundary(boost::make_shared<PeriodicBoundary<dim> >(2 * d, 2 * d + 1, d, this->getMesh()));
			else for (unsigned side = 0; side < 2; side++) {
				size_t id = 2 * d + side;
				dealii::Vector<double> v(dim);
				if (id < s.wall.size()) for (unsigned c = 0; c < dim && c < s.wall[id].size(); c++) v(c) = s.wall[id][c];
				if (s.bc[d] == 'B') bs->addBoundary(boost::make_shared<SLFirstOrderBounceBack<dim> >(id));
				else if (s.bc[d] == 'E') bs->addBoundary(boost::make_shared<SLEquilibriumBoundary<dim> >(id, v));
				else if (s.bc[d] == 'N') bs->addBoundary(boost::make_shared<DoNothingBoundary<dim> >(id));
				else if (id < wallfn.size() && wallfn[id])
					bs->addBoundary(boost::make_shared<VelocityNeqBounceBack<dim> >(id,
							boost::shared_ptr<dealii::Function<dim> >(boost::make_shared<FieldFn<dim> >(wallfn[id], dim))));
				else bs->addBoundary(boost::make_shared<VelocityNeqBounceBack<dim> >(id, v));
			}
		}
		this->setBoundaries(bs);
		auto fr = boost::make_shared<FieldFn<dim> >(rho, 1), fu = boost::make_shared<FieldFn<dim> >(u, dim);
		if constexpr (std::is_same<Base, Benchmark<dim> >::value) { if (rho) this->setAnalyticRho(fr); if (u) this->setAnalyticU(fu); }
		else { if (rho) this->setInitialRho(fr); if (u) this->setInitialU(fu); }
	}
	void setExtraRefinement(std::function<void(Mesh<dim>&)> f) { m_extra = f; }
	void setT(Field t) { this->setInitialT(boost::make_shared<FieldFn<dim> >(t, 1)); }
	void refine(Mesh<dim>& mesh) override { mesh.refine_global(m_s.refine); if (m_extra) m_extra(mesh); }
	void transform(Mesh<dim>& mesh) override {
		if (m_s.stretch == 0) return;
		double e = m_s.stretch; auto L = m_s.size;
		dealii::GridTools::transform([e, L](const dealii::Point<dim>& p) {
			dealii::Point<dim> q(p);
			for (unsigned d = 0; d < dim; d++) q[d] = p[d] + e * L[d] * std::sin(2 * M_PI * p[d] / L[d]);
			return q; }, mesh);
	}
	bool isCartesian() override { return m_s.stretch == 0; }
};

inline std::vector<double> dvec(const Json& j, const char* k) { return getv(j, k); }

} // namespace vt
