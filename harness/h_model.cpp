// The collision classes one by one, on bare vectors.   h_model SCENARIOS TRACE SCRATCH
#include "trace.h"
#include "stencils.h"
#include <random>
#include "natrium/solver/DistributionFunctions.h"
#include "natrium/collision/BGKStandard.h"
#include "natrium/collision/BGKStandardTransformed.h"
#include "natrium/collision/BGKSteadyState.h"
#include "natrium/collision/BGKIncompressible.h"
#include "natrium/collision/BGKRegularized.h"
#include "natrium/collision/BGKMultistep.h"
#include "natrium/collision/MRTStandard.h"
#include "natrium/collision/MRTEntropic.h"
#include "natrium/collision/EntropicStabilized.h"
#include "natrium/collision/KBCStandard.h"
#include "natrium/collision/KBCCentral.h"
#include "natrium/utilities/MPIGuard.h"
using namespace natrium;
using namespace vt;
static std::vector<std::string> strs(const std::vector<double>& v) { std::vector<std::string> r; for (double x : v) r.push_back(num(x)); return r; }
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2]);
	for (auto& j : scenarios(argv[1])) {
		trace().scn++;
		std::string cl = gets(j, "class"), set = gets(j, "set"), forcing = gets(j, "forcing", "NO_FORCING");
		double sc = getd(j, "scaling", 1), nu = getd(j, "nu", .05), dt = getd(j, "dt", .1), dt0 = getd(j, "dt0", dt), gam = getd(j, "gamma", 1), amp = getd(j, "amp", .1), rho0 = getd(j, "rho", 1);
		auto u0 = getv(j, "u"), F = getv(j, "force"); size_t n = geti(j, "nodes", 3), times = geti(j, "times", 1); bool equil = getb(j, "equil"), init = getb(j, "init");
		auto st = makeStencil(set, sc); size_t Q = st->getQ(), D = st->getD(); u0.resize(D); F.resize(D);
		boost::shared_ptr<CollisionModel> m; boost::shared_ptr<BGKMultistep> ms;
		double tau = CollisionModel::calculateRelaxationParameter(nu, dt0, *st);
#define M(X) if (cl == #X) m = boost::make_shared<X>(tau, dt0, st);
		M(BGKStandard) M(BGKStandardTransformed) M(BGKIncompressible) M(BGKRegularized) M(MRTStandard) M(MRTEntropic) M(EntropicStabilized) M(KBCStandard) M(KBCCentral)
		if (cl == "BGKSteadyState") m = boost::make_shared<BGKSteadyState>(tau = BGKSteadyState::calculateRelaxationParameter(nu, dt0, *st, gam), dt0, st, gam);
		if (cl == "AM4") m = ms = boost::make_shared<BGKMultistep>(tau, dt0, st, 0);
		if (cl == "BDF2") m = ms = boost::make_shared<BGKMultistep>(tau, dt0, st, 1);
		if (ms) ms->setViscosity(nu);
		if (dt != dt0) m->setTimeStep(dt);
		if (forcing != "NO_FORCING") {
			m->setForceType(forcing == "GUO" ? GUO : forcing == "EXACT_DIFFERENCE" ? EXACT_DIFFERENCE : SHIFTING_VELOCITY);
			if (D == 2) { dealii::Tensor<1, 2> t; t[0] = F[0]; t[1] = F[1]; m->setExternalForce(ConstantExternalForce<2>(t)); }
			else { dealii::Tensor<1, 3> t; t[0] = F[0]; t[1] = F[1]; t[2] = F[2]; m->setExternalForce(ConstantExternalForce<3>(t)); }
		}
		std::vector<double> w; std::vector<std::vector<std::string> > e;
		for (size_t q = 0; q < Q; q++) { w.push_back(st->getWeight(q)); std::vector<std::string> r; for (size_t d = 0; d < D; d++) r.push_back(num(st->getDirection(q)(d))); e.push_back(r); }
		Ev("Class").k("class", cl).k("set", set).k("Q", Q).k("D", D).k("w", strs(w)).k("vel", e).k("sc", num(sc)).k("cs2", num(st->getSpeedOfSoundSquare())).k("nu", num(nu)).k("dt", num(dt)).k("dt0", num(dt0)).k("gamma", num(gam))
			.k("forcing", forcing).k("F", strs(F)).k("init", init);
		std::mt19937 rng(geti(j, "seed", 1)); std::uniform_real_distribution<double> U(-1, 1);
		dealii::IndexSet mine(n); mine.add_range(0, n);
		DistributionFunctions f; f.reinit(Q, mine, mine, MPI_COMM_WORLD, false);
		distributed_vector rho(mine, MPI_COMM_WORLD); std::vector<distributed_vector> u(D, distributed_vector(mine, MPI_COMM_WORLD));
		std::vector<std::vector<double> > asked(n);
		for (size_t i = 0; i < n; i++) {
			double r = rho0 * (1 + .3 * U(rng)); numeric_vector v(D), x(D); for (size_t d = 0; d < D; d++) { v(d) = u0[d] * (1 + .5 * U(rng)); x(d) = init ? u0[d] * (1 + .5 * U(rng)) : v(d); }
			std::vector<double> q(Q); m->getEquilibriumDistributions(q, v, r);
			std::vector<double> vv; for (size_t d = 0; d < D; d++) vv.push_back(v(d));
			Ev("Equilibrium").k("rho", num(r)).k("u", strs(vv)).k("feq", strs(q));
			for (size_t k = 0; k < Q; k++) f.at(k)(i) = equil ? q[k] : q[k] + w[k] * r * amp * U(rng);
			rho(i) = r; for (size_t d = 0; d < D; d++) { u[d](i) = x(d); asked[i].push_back(x(d)); }
		}
		auto row = [&](size_t i) { std::vector<double> r; for (size_t q = 0; q < Q; q++) r.push_back(f.at(q)(i)); return strs(r); };
		try {
			for (size_t t = 0; t < times; t++) {
				std::vector<std::vector<std::string> > f0; for (size_t i = 0; i < n; i++) f0.push_back(row(i));
				m->collideAll(f, rho, u, mine, init);
				for (size_t i = 0; i < n; i++) {
					std::vector<double> ui; for (size_t d = 0; d < D; d++) ui.push_back(u[d](i));
					Ev("Collide").k("node", i).k("time", t).k("start", equil && t == 0).k("f", f0[i]).k("f1", row(i)).k("rho", num(rho(i))).k("u", strs(ui)).k("asked", strs(asked[i]));
				}
			}
			Ev("Done");
		} catch (std::exception& x) { Ev("Refused").k("msg", x.what()); }
	}
	done();
}
