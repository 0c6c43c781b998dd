// Histories of operations on sets of populations.   h_distr SCENARIOS TRACE SCRATCH
#include "trace.h"
#include <memory>
#include "natrium/solver/DistributionFunctions.h"
#include "natrium/stencils/D2Q9.h"
#include "natrium/stencils/D3Q15.h"
#include "natrium/stencils/D3Q19.h"
#include "natrium/stencils/D3Q27.h"
#include "natrium/utilities/MPIGuard.h"
using namespace natrium;
using namespace vt;
static const size_t N = 6; // entries of a vector
static dealii::IndexSet mine, every;
static std::vector<long> all(const distributed_vector& v) { // entries of all processes
	std::vector<long> x(N, 0), y(N, 0);
	for (auto i : mine) if (v.size() == N) x[i] = lround(v(i) * 4);
	MPI_Allreduce(x.data(), y.data(), N, MPI_LONG, MPI_SUM, MPI_COMM_WORLD); return y;
}
static void look(const char* who, DistributionFunctions& f) {
	const DistributionFunctions& c = f;
	std::vector<std::vector<long> > at, cat, blk, flat, gh, cgh; std::vector<int> sizes; bool same = true;
	for (size_t q = 0; q < f.getQ(); q++) {
		at.push_back(all(f.at(q))); cat.push_back(all(c.at(q))); sizes.push_back(f.at(q).size());
		blk.push_back(all(q == 0 ? f.getF0() : f.getFStream().block(q - 1)));
		std::vector<long> x(N, 0), y(N, 0);
		if (q > 0 && f.getFStream().size() == N * (f.getQ() - 1)) for (auto i : mine) x[i] = lround(c.getFStream()((q - 1) * N + i) * 4);
		if (q == 0) for (auto i : mine) x[i] = lround(c.getF0()(i) * 4);
		MPI_Allreduce(x.data(), y.data(), N, MPI_LONG, MPI_SUM, MPI_COMM_WORLD); flat.push_back(y);
		if (f.isDg()) { gh.push_back(all(f.atGhosted(q))); cgh.push_back(all(c.atGhosted(q))); }
		else { // every process sees all entries
			std::vector<long> g, h; for (size_t i = 0; i < N; i++) { g.push_back(lround(f.atGhosted(q)(i) * 4)); h.push_back(lround(c.atGhosted(q)(i) * 4)); }
			std::vector<long> lo(N), hi(N); MPI_Allreduce(g.data(), lo.data(), N, MPI_LONG, MPI_MIN, MPI_COMM_WORLD); MPI_Allreduce(g.data(), hi.data(), N, MPI_LONG, MPI_MAX, MPI_COMM_WORLD);
			if (lo != hi) same = false;
			gh.push_back(g); cgh.push_back(h);
		}
	}
	Ev("Look").k("who", who).k("Q", f.getQ()).k("n", f.size()).k("dg", f.isDg()).k("at", at).k("cat", cat).k("blk", blk).k("flat", flat).k("gh", gh).k("cgh", cgh).k("sizes", sizes).k("same", same);
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	int np, rk; MPI_Comm_size(MPI_COMM_WORLD, &np); MPI_Comm_rank(MPI_COMM_WORLD, &rk);
	mine.set_size(N); every.set_size(N); every.add_range(0, N); mine.add_range(N * rk / np, N * (rk + 1) / np);
	auto writes = [&](distributed_vector& v, const std::vector<double>& x) { for (auto i : mine) v(i) = x[i] / 4; v.compress(dealii::VectorOperation::insert); };
	for (auto& j : scenarios(argv[1])) {
		trace().scn++;
		std::map<std::string, std::unique_ptr<DistributionFunctions> > f;
		Ev("Begin");
		for (auto& xx : j.get_child("ops")) {
			const Json& o = xx.second; std::string op = gets(o, "op"), a = gets(o, "o"), b = gets(o, "p"); size_t q = geti(o, "q"); std::string r = "ok"; long v = geti(o, "v"), i = geti(o, "i"); bool eq = false;
			auto vals = getv(o, "x");
			try {
				if (op == "make") { f[a].reset(new DistributionFunctions()); f[a]->reinit(q, mine, every, MPI_COMM_WORLD, false); }
				else if (op == "makedg") { f[a].reset(new DistributionFunctions()); f[a]->reinit(q, mine, MPI_COMM_WORLD); }
				else if (op == "remake") f[a]->reinit(q, mine, every, MPI_COMM_WORLD, false);
				else if (op == "remakedg") f[a]->reinit(q, mine, MPI_COMM_WORLD);
				else if (op == "copy") { std::unique_ptr<DistributionFunctions> n(new DistributionFunctions(*f[b])); f[a] = std::move(n); }
				else if (op == "assign") *f[a] = *f[b];
				else if (op == "write") { if (mine.is_element(i)) f[a]->at(q)(i) = v / 4.0; else (void) f[a]->at(q); f[a]->at(q).compress(dealii::VectorOperation::insert); }
				else if (op == "writestream") { if (mine.is_element(i)) f[a]->getFStream()((q - 1) * N + i) = v / 4.0; f[a]->getFStream().compress(dealii::VectorOperation::insert); }
				else if (op == "update") f[a]->updateGhosted();
				else if (op == "compress") f[a]->compress(dealii::VectorOperation::insert);
				else if (op == "setf0") { distributed_vector w(mine, MPI_COMM_WORLD); writes(w, vals); f[a]->setF0(w); }
				else if (op == "setstream") { distributed_block_vector w(f[b]->getFStream()); f[a]->setFStream(w); }
				else if (op == "fromvec") {
					std::vector<distributed_vector> w; for (size_t k = 0; k < q; k++) { w.push_back(distributed_vector(mine, MPI_COMM_WORLD)); std::vector<double> y; for (size_t m = 0; m < N; m++) y.push_back(vals[(k + m) % vals.size()] + 2 * k); writes(w.back(), y); }
					f[a].reset(new DistributionFunctions(w)); }
				else if (op == "scale") f[a]->scaleF(v, mine);
				else if (op == "equals") eq = f[a]->equals(*f[b]);
				else if (op == "beyond") { double s = 0; s += f[a]->at(q).size(); }
				else if (op == "beyondghost") { double s = 0; s += f[a]->atGhosted(q).size(); }
			} catch (std::exception& e) { r = "refused"; }
			Ev("Op").k("op", op).k("o", a).k("p", b).k("q", q).k("i", i).k("v", v).k("x", std::vector<int>(vals.begin(), vals.end())).k("r", r).k("eq", eq);
			for (auto& y : f) if (y.second) look(y.first.c_str(), *y.second);
		}
	}
	done();
}
