// Benchmarks: error tables and solution files.   h_bench SCENARIOS TRACE SCRATCH
#include "flow.h"
#include "natrium/solver/BenchmarkCFDSolver.h"
#include "natrium/solver/BenchmarkCompressibleCFDSolver.h"
#include "natrium/problemdescription/CompressibleBenchmark.h"
#include <boost/filesystem.hpp>
#include <zlib.h>
/// a box whose analytic solution is field + time * growth
template<size_t dim, class Base> struct BenchBox: public Box<dim, Base> {
	Fields<dim> fields, growth;
	static Json other(Json j) { j.put("seed", geti(j, "seed", 1) + 400); j.put("rho", getd(j, "drho", 0)); j.put("famp", getd(j, "gamp", 0.1)); return j; }
	BenchBox(const Json& j) : Box<dim, Base>(j), fields(j, this->lo, this->hi), growth(other(j), this->lo, this->hi) {
		auto f = fields, g = growth;
		this->setAnalyticRho(boost::make_shared<FieldFn<dim> >([f, g](const dealii::Point<dim>& p, unsigned, double t) { return f.rho(&p[0], dim) + t * g.rho(&p[0], dim); }, 1));
		this->setAnalyticU(boost::make_shared<FieldFn<dim> >([f, g](const dealii::Point<dim>& p, unsigned c, double t) { return f.u[c](&p[0], dim) + t * g.u[c](&p[0], dim); }, dim));
		this->setViscosity(getd(j, "nu", 0.1) * getd(j, "scaling", 1));
	}
};
template<size_t dim, class Base> struct Seen: public Base {
	using Base::Base;
	std::function<void()> look;
	AdvectionOperator<dim>& adv() { return *this->m_advectionOperator; }
	void addAnalyticSolutionToOutput(dealii::DataOut<dim>& o) override { Base::addAnalyticSolutionToOutput(o); if (look) look(); }
};
static std::string decode(const std::string& s) {
	static const std::string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
	std::string o; unsigned v = 0; int n = 0;
	for (char c : s) { auto k = A.find(c); if (k == std::string::npos) continue; v = v << 6 | (unsigned) k; n += 6; if (n >= 8) { n -= 8; o += (char) (v >> n & 255); } }
	return o;
}
/// an array of a solution file: header (number of blocks, size, size of the last, compressed sizes), then the blocks
static std::vector<float> floats(std::string s) {
	s.erase(std::remove_if(s.begin(), s.end(), [](char c) { return std::isspace((unsigned char) c); }), s.end());
	auto head = s.find('='), cut = head == std::string::npos ? 0 : s.find_first_not_of('=', head);
	uint32_t n; std::string h = decode(s.substr(0, 8)); std::memcpy(&n, h.data(), 4);
	size_t len = ((3 + n) * 4 + 2) / 3 * 4; (void) cut; h = decode(s.substr(0, len)); std::string d = decode(s.substr(len)), all;
	std::vector<uint32_t> z(3 + n); std::memcpy(z.data(), h.data(), 4 * z.size());
	size_t p = 0; for (uint32_t b = 0; b < n; b++) { uLongf m = b + 1 == n && z[2] ? z[2] : z[1]; std::string o(m, 0); if (uncompress((Bytef*) &o[0], &m, (const Bytef*) d.data() + p, z[3 + b]) != Z_OK) throw std::runtime_error("block of a solution file"); all += o.substr(0, m); p += z[3 + b]; }
	std::vector<float> r(all.size() / 4); std::memcpy(r.data(), all.data(), 4 * r.size()); return r;
}
static std::string tag(const std::string& t, const std::string& name) { auto p = t.find(" " + name + "=\""); if (p == std::string::npos) return ""; p += name.size() + 3; return t.substr(p, t.find('"', p) - p); }
template<size_t dim> static void solution(const std::string& file, long i, long per, int r) {
	std::ifstream in(file); std::stringstream ss; ss << in.rdbuf(); std::string t = ss.str();
	std::map<std::string, std::vector<float> > v; bool readable = !t.empty();
	for (size_t p = 0; (p = t.find("<DataArray", p)) != std::string::npos;) { size_t e = t.find('>', p), q = t.find("</DataArray", e); std::string h = t.substr(p, e - p);
		if (tag(h, "type") == "Float32") v[tag(h, "Name").empty() ? "points" : tag(h, "Name")] = floats(t.substr(e + 1, q - e - 1)); p = q; }
	long n = v["points"].size() / 3; S names; for (auto& x : v) names.push_back(x.first);
	Ev("File").k("i", i).k("r", (long) r).k("readable", readable).k("whole", n % per == 0);
	for (long k = 0; k + per <= n; k++) if (k % per == 0) {
		auto pick = [&](const std::string& name) { V y; auto& a = v[name]; for (long m = k; m < k + per && m < (long) a.size(); m++) y.push_back(a[m]); return nums(y); };
		std::vector<S> x, u, au; for (size_t d = 0; d < dim; d++) { V y; for (long m = k; m < k + per; m++) y.push_back(v["points"][3 * m + d]); x.push_back(nums(y)); std::string c = std::string("u") + "xyz"[d]; u.push_back(pick(c)); au.push_back(pick(c + "_analytic")); }
		Ev("Patch").k("i", i).k("x", x).k("rho", pick("rho")).k("u", u).k("arho", pick("rho_analytic")).k("au", au).k("T", pick("T")).k("sub", pick("subdomain")).k("r", (long) r);
	}
}
template<size_t dim> S temperature(BenchmarkCFDSolver<dim>&, const std::vector<dealii::types::global_dof_index>&, const std::vector<unsigned>&) { return S(); }
template<size_t dim> S temperature(BenchmarkCompressibleCFDSolver<dim>& s, const std::vector<dealii::types::global_dof_index>& ix, const std::vector<unsigned>& lex) { V x; for (auto k : lex) x.push_back(s.getTemperature()(ix[k])); return nums(x); }
template<size_t dim, class Base, class Problem> static void go(const Json& j, const std::string& base) {
	std::string dir = base + "/out"; boost::filesystem::create_directories(dir);
	int rank = 0, size = 1; MPI_Comm_rank(MPI_COMM_WORLD, &rank); MPI_Comm_size(MPI_COMM_WORLD, &size);
	auto prob = boost::make_shared<BenchBox<dim, Problem> >(j);
	auto conf = flowConfig(j, dir); long every = geti(j, "table", 2), steps = geti(j, "steps", 3), order = geti(j, "order", 2), sol = geti(j, "sol", 1);
	conf->setSwitchOutputOff(false); conf->setOutputTableInterval(every); conf->setOutputSolutionInterval(sol); conf->setOutputCheckpointInterval(1000000000);
	Seen<dim, Base> s(conf, prob); auto lex = lexicographic<dim>(*s.adv().getFe());
	auto& up = s.adv().getFe()->get_unit_support_points(); V nodes; for (long i = 0; i <= order; i++) nodes.push_back(up[lex[i]][0]);
	Ev("Bench").k("D", dim).k("trig", prob->fields.rho.trig).raw("rho", prob->fields.rho.json()).raw("drho", prob->growth.rho.json()).k("nodes", nums(nodes)).k("every", every).k("sol", sol).k("steps", steps).k("np", (long) size)
		.k("patch", order == 1 ? 1L : order + 1).k("files", getb(j, "solutions")).k("tol", gets(j, "tol", "2e-6"));
	for (size_t d = 0; d < dim; d++) Ev("Component").raw("u", prob->fields.u[d].json()).raw("du", prob->growth.u[d].json());
	std::set<long> seen;
	s.look = [&] {
		long at = s.getIteration(); if (!seen.insert(at).second) return;
		Ev("State").k("i", at).k("t", num(s.getTime())); trace().hold();
		std::vector<dealii::types::global_dof_index> ix(lex.size());
		for (auto c = s.adv().getDoFHandler()->begin_active(); c != s.adv().getDoFHandler()->end(); ++c) if (c->is_locally_owned()) {
			c->get_dof_indices(ix); V rho; std::vector<S> u; for (auto k : lex) rho.push_back(s.getDensity()(ix[k]));
			for (size_t d = 0; d < dim; d++) { V x; for (auto k : lex) x.push_back(s.getVelocity()[d](ix[k])); u.push_back(nums(x)); }
			Ev("Cell").k("lo", nums<dim>(c->vertex(0))).k("hi", nums<dim>(c->vertex((1 << dim) - 1))).k("rho", nums(rho)).k("u", u).k("T", temperature<dim>(s, ix, lex)).k("r", (long) rank);
		}
		trace().merge();
		Ev("Known");
	};
	s.run(); MPI_Barrier(MPI_COMM_WORLD);
	if (rank == 0) {
		std::ifstream in(dir + "/errors_table.txt"); std::string line;
		while (std::getline(in, line)) { if (line.empty() || line[0] == '#') continue; std::stringstream l(line); S v; std::string x; while (l >> x) v.push_back(x); char* end = nullptr; long it = v.empty() ? -1 : std::strtol(v[0].c_str(), &end, 10); Ev("Row").k("i", end && !*end ? it : -1L).k("v", v); }
		Ev("Rows");
		if (getb(j, "solutions")) { long per = 1; for (size_t d = 0; d < dim; d++) per *= (order == 1 ? 1 : order + 1) + 1;
			for (long i = 0; i <= steps; i++) if (i % sol == 0 || i == steps) { Ev("Files").k("i", i); for (int r = 0; r < size; r++) solution<dim>(dir + "/t_" + std::to_string(r) + "." + std::to_string(i) + ".vtu", i, per, r); Ev("Filed").k("i", i); } }
		Ev("End");
	}
	MPI_Barrier(MPI_COMM_WORLD);
}
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2], true);
	for (auto& j : scenarios(argv[1])) { trace().scn++;
		if (getb(j, "gas")) { if (geti(j, "D", 2) == 3) go<3, BenchmarkCompressibleCFDSolver<3>, CompressibleBenchmark<3> >(j, argv[3]); else go<2, BenchmarkCompressibleCFDSolver<2>, CompressibleBenchmark<2> >(j, argv[3]); }
		else if (geti(j, "D", 2) == 3) go<3, BenchmarkCFDSolver<3>, Benchmark<3> >(j, argv[3]); else go<2, BenchmarkCFDSolver<2>, Benchmark<2> >(j, argv[3]); }
	done();
}
