// Operations on solver configurations.   h_config SCENARIOS TRACE BASEDIR
// scenario: {"ops":[{"op":"set","n":NAME,"v":VALUE}, {"op":"save","k":FILE,"f":"xml|text"}, {"op":"load",...}, {"op":"ctor","k":FILE},
//            {"op":"fresh"}, {"op":"text","k":FILE,"body":...}, {"op":"consistent"}, {"op":"embedded","v":[6 values]}]}
#include "config_items.h"
#include "natrium/utilities/MPIGuard.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	std::string base = argv[3];
	if (is_MPI_rank_0()) trace().open(argv[2]);
	fill();
	for (auto& j : scenarios(argv[1])) {
		trace().scn++;
		auto c = std::make_unique<C>();
		Ev("Begin").raw("all", all(*c));
		for (auto& p : j.get_child("ops")) {
			const Json& o = p.second; std::string op = gets(o, "op"), n = gets(o, "n"), v = gets(o, "v"), f = gets(o, "f", "xml");
			std::string file = base + "/s" + std::to_string(trace().scn) + "-" + gets(o, "k", "0") + (f == "xml" ? ".xml" : ".prm");
			bool list = o.get_child_optional("vs").is_initialized(); std::vector<std::string> vs = getsv(o, "vs");
			if (list) { v = ""; for (auto& x : vs) v += (v.empty() ? "" : " ") + x; }
			bool ok = true; std::string msg;
			try {
				if (op == "set") { for (auto& i : items) if (i.name == n) i.set(*c, v); }
				else if (op == "embedded") { std::istringstream is(v); double d[6]; for (double& x : d) is >> x; c->setEmbeddedDealIntegratorParameters(d[0], d[1], d[2], d[3], d[4], d[5]); }
				else if (op == "save") { std::ofstream out(file); c->print_parameters(out, f == "xml" ? dealii::ParameterHandler::XML : dealii::ParameterHandler::Text); }
				else if (op == "load") { if (f == "xml") c->readFromXMLFile(file); else c->readFromTextFile(file); }
				else if (op == "ctor") { c.reset(); c = std::make_unique<C>(file); }
				else if (op == "fresh") { c = std::make_unique<C>(); }
				else if (op == "write") { std::ofstream out(file); out << gets(o, "body"); }
				else if (op == "consistent") c->isConsistent();
			} catch (std::exception& e) { ok = false; msg = e.what(); }
			Ev e("Op");
			e.k("op", op).k("n", n); if (list) e.k("v", vs); else e.k("v", v);
			e.k("k", gets(o, "k", "0")).k("f", f).k("ok", ok);
			if (c) e.raw("all", all(*c)); else { e.raw("all", "{}"); c = std::make_unique<C>(); }
		}
	}
	done();
}
