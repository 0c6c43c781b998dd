// Records every velocity set at the scalings asked for.   h_stencil SCENARIOS TRACE
#include "trace.h"
#include "natrium/solver/SolverConfiguration.h"
#include "natrium/utilities/CFDSolverUtilities.h"
#include "natrium/utilities/MPIGuard.h"
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D2Q19H.h"
#include "natrium/stencils/D2Q19V.h"
#include "natrium/stencils/D2Q25H.h"
#include "natrium/stencils/D2Q777.h"
#include "natrium/stencils/D3Q13.h"
#include "natrium/stencils/D3Q15.h"
#include "natrium/stencils/D3Q19.h"
#include "natrium/stencils/D3Q21.h"
#include "natrium/stencils/D3Q27.h"
#include "natrium/stencils/RD3Q27.h"
#include "natrium/stencils/D3V27.h"
#include "natrium/stencils/D3Q45.h"
#include "natrium/stencils/D3Q77.h"
using namespace natrium;
using namespace vt;

static boost::shared_ptr<Stencil> make(const std::string& n, double s) {
#define S(X) if (n == #X) return boost::make_shared<X>(s);
	S(D2Q9) S(D2Q19H) S(D2Q19V) S(D2Q25H) S(D2Q777) S(D3Q13) S(D3Q15) S(D3Q19) S(D3Q21) S(D3Q27) S(RD3Q27) S(D3V27) S(D3Q45) S(D3Q77)
#undef S
	throw std::runtime_error("no such set " + n);
}
static const char* tname(StencilType t) {
	switch (t) {
#define S(X) case Stencil_##X: return #X;
	S(D2Q9) S(D2Q19H) S(D2Q19V) S(D2Q25H) S(D2Q777) S(D3Q13) S(D3Q15) S(D3Q19) S(D3Q21) S(D3Q27) S(RD3Q27) S(D3V27) S(D3Q45) S(D3Q77)
#undef S
	}
	return "?";
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2]);
	for (auto& j : scenarios(argv[1])) {
		trace().scn++;
		std::string n = gets(j, "set"); double sc = getd(j, "scaling", 1);
		auto s = make(n, sc);
		size_t Q = s->getQ(), D = s->getD();
		std::vector<std::string> w; std::vector<std::vector<std::string> > e; std::vector<long> opp;
		for (size_t i = 0; i < Q; i++) {
			w.push_back(num(s->getWeight(i))); std::vector<std::string> r;
			for (size_t d = 0; d < D; d++) r.push_back(num(s->getDirection(i)(d)));
			e.push_back(r); opp.push_back(s->getIndexOfOppositeDirection(i));
		}
		Ev ev("Set");
		ev.k("set", n).k("type", tname(s->getStencilType())).k("scaling", num(sc)).k("D", D).k("Q", Q).k("cs", num(s->getSpeedOfSound())).k("cs2", num(s->getSpeedOfSoundSquare()))
			.k("sc", num(s->getScaling())).k("vmax", num(s->getMaxParticleVelocityMagnitude())).k("w", w).k("vel", e).k("opp", opp)
			.k("nw", s->getWeights().size()).k("ne", s->getDirections().size());
		std::vector<std::vector<std::string> > M, I;
		if (getb(j, "basis", true) && Q < 100) {
			numeric_matrix m, i; s->getMomentBasis(m); s->getInverseMomentBasis(i);
			if (m.m() == Q && i.m() == Q) for (size_t a = 0; a < Q; a++) {
				std::vector<std::string> r, t;
				for (size_t b = 0; b < Q; b++) { r.push_back(num(m(a, b))); t.push_back(num(i(a, b))); }
				M.push_back(r); I.push_back(t);
			}
		}
		ev.k("M", M).k("I", I);
	}
	done();
}
