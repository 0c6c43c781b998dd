// The state a solver starts from.   h_init SCENARIOS TRACE SCRATCH
#include "flow.h"
template<size_t dim> static void go(const Json& j, const std::string& base) {
	auto prob = boost::make_shared<FlowBox<dim> >(j);
	auto conf = flowConfig(j, base + "/out");
	Flow<dim> s(conf, prob);
	auto& st = *s.getStencil(); size_t Q = st.getQ();
	emitSet<dim>(st); prob->fields.emit();
	double scale = 1;
	auto look = [&](const char* what) {
		size_t at = s.getIteration();
		Ev("Start").k("D", dim).k("what", what).k("scale", num(scale)).k("init", gets(j, "init", "EQUILIBRIUM")).k("eq", gets(j, "equilibrium", "BGK_EQUILIBRIUM")).k("still", gets(j, "field", "const") == "const")
			.k("nu", num(prob->getViscosity())).k("dt", num(s.getTimeStepSize())).k("time", num(s.getTime())).k("i", at).k("tol", gets(j, "tol", "1e-9"));
		trace().hold(); std::mt19937 rng(geti(j, "seed", 1)); size_t n = 0, all = s.points().size(), some = geti(j, "points", 30);
		for (auto& p : s.points()) if (s.adv().getLocallyOwnedDofs().is_element(p.first)) {
			if (n++ > 0 && rng() % all >= some) continue; // some of the nodes
			size_t i = p.first; V u, f; for (size_t d = 0; d < dim; d++) u.push_back(s.getVelocity()[d](i)); for (size_t q = 0; q < Q; q++) f.push_back(s.getF().at(q)(i));
			Ev("Node").k("x", nums<dim>(p.second)).k("rho", num(s.getDensity()(i))).k("u", nums(u)).k("f", nums(f));
		}
		trace().merge();
	};
	look("made");
	if (getb(j, "rescale")) { scale = 0.7; s.scaleVelocity(scale); look("scaled"); }
	if (getb(j, "add")) { auto f = prob->fields; // the same field once more
		s.addToVelocity(boost::make_shared<FieldFn<dim> >([f](const dealii::Point<dim>& p, unsigned c, double) { return f.u[c](&p[0], dim); }, dim)); scale += 1; look("added"); }
	Ev("End");
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++; if (geti(j, "D", 2) == 3) go<3>(j, argv[3]); else go<2>(j, argv[3]); }
	done();
}
