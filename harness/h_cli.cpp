// Life cycle of a command line parser.   h_cli SCENARIOS TRACE BASEDIR
// scenario: {"argv":[...], "ops":[{"op":"define","kind":"arg|flag|pos|makepos","n":..,"t":"int|real|text","d":default or ""},
//            {"op":"import"}, {"op":"has","n":..}, {"op":"get","n":..,"t":..}, {"op":"set","n":..,"v":..}, {"op":"apply"}], "args": (for the specification)}
#include "config_items.h"
#include "natrium/utilities/MPIGuard.h"
#include "natrium/utilities/CommandLineParser.h"
int main(int argc, char** argv) {
	MPIGuard::getInstance(argc, argv);
	trace().open(argv[2]);
	fill();
	for (auto& j : scenarios(argv[1])) {
		trace().scn++;
		std::vector<std::string> av = getsv(j, "argv"); av.insert(av.begin(), "program");
		std::vector<char*> ap; for (auto& x : av) ap.push_back(&x[0]); ap.push_back(nullptr);
		CommandLineParser p((int) av.size(), ap.data());
		C c;
		{
			std::string args = "["; bool first = true;
			for (auto& a : j.get_child("args")) {
				args += (first ? "" : ","); first = false;
				args += "{\"n\":\"" + gets(a.second, "n") + "\",\"v\":\"" + esc(gets(a.second, "v")) + "\",\"t\":\"" + gets(a.second, "t") + "\"}";
			}
			Ev("Begin").raw("args", args + "]").raw("all", all(c));
		}
		for (auto& q : j.get_child("ops")) {
			const Json& o = q.second; std::string op = gets(o, "op"), n = gets(o, "n"), v = gets(o, "v"), t = gets(o, "t"), kind = gets(o, "kind"), d = gets(o, "d");
			std::string ok = "yes", got;
			try {
				if (op == "define") {
					if (kind == "flag") p.setFlag(n, "a flag");
					else if (kind == "makepos") p.makePositional(n);
					else if (kind == "pos") { if (t == "int") p.setPositionalArgument<int>(n, "x"); else if (t == "real") p.setPositionalArgument<double>(n, "x"); else p.setPositionalArgument<string>(n, "x"); }
					else if (kind == "arg") { if (t == "int") p.setArgument<int>(n, "x"); else if (t == "real") p.setArgument<double>(n, "x"); else p.setArgument<string>(n, "x"); }
					else { if (t == "int") p.setArgument<int>(n, "x", std::stoi(d)); else if (t == "real") p.setArgument<double>(n, "x", std::stod(d)); else p.setArgument<string>(n, "x", d); }
				}
				else if (op == "import") p.importOptions();
				else if (op == "has") got = p.hasArgument(n) ? "true" : "false";
				else if (op == "get") { if (t == "int") got = std::to_string(p.getArgument<int>(n)); else if (t == "real") got = num(p.getArgument<double>(n)); else got = p.getArgument<string>(n); }
				else if (op == "set") { for (auto& i : items) if (i.name == n) i.set(c, v); }
				else if (op == "apply") p.applyToSolverConfiguration(c);
			} catch (HelpMessageStop&) { ok = "help"; }
			catch (std::exception& e) { ok = "no"; }
			Ev e("Op");
			e.k("op", op).k("kind", kind).k("n", n).k("v", v).k("t", t).k("d", d).k("ok", ok).k("got", got);
			if (op == "apply" || op == "set") e.raw("all", all(c));
		}
	}
	done();
}
