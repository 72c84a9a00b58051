// Exploration helper (not a check): runs a script of operations on a CSX file.
#include <iostream>
#include <sstream>
#include "app/openemsh.hpp"
#include "infra/serializers/serializer_to_prettyprint.hpp"
#include "infra/utils/to_string.hpp"
#include "domain/mesh/meshline.hpp"
using namespace std; using namespace domain;
static void mesh(app::OpenEMSH& o) {
	for(auto a : AllAxis) {
		cout << "XYZ"[a] << " mlp:";
		for(auto& p : o.get_board().get_meshline_policies(a)) {
			auto& s = p->get_current_state();
			cout << " " << p->coord.value() << "/" << to_string(s.policy)[0] << (s.policy == MeshlinePolicy::Policy::THIRDS ? to_string(s.normal) : "") << (s.is_enabled ? "" : "(off)");
		}
		cout << "\n  int:" << o.get_board().get_intervals(a).size() << " lines:";
		for(auto& l : o.get_board().get_meshlines(a)) cout << " " << l->coord.value();
		cout << "\n";
	}
	size_t ang=0, doz=0; for(auto p : AllPlane) { ang += o.get_board().get_angles(p).size(); }
	for(auto a: AllAxis) doz += o.get_board().get_conflicts_diagonal_or_circular_zones(a).size();
	auto st = o.get_current_step();
	cout << "angles " << ang << " zones " << doz << " step " << (st ? (int) app::index(*st) : -1) << "\n";
}
int main(int argc, char** argv) {
	app::OpenEMSH::Params p; p.input = argv[1]; p.output="/tmp/x/out.csx";
	p.override_from_cli = [](domain::Params&) {};
	app::OpenEMSH o(p);
	for(int i = 2; i < argc; ++i) {
		string c = argv[i];
		if(c == "parse") { auto r = o.parse(); cout << "parse " << (r ? "ok" : r.error()) << "\n"; if(!r) return 1; }
		else if(c == "run") o.run_all_steps();
		else if(c == "next") o.run_next_step();
		else if(c == "prev") o.go_before_previous_step();
		else if(c == "undo") Caretaker::singleton().undo();
		else if(c == "redo") Caretaker::singleton().redo();
		else if(c == "mesh") mesh(o);
		else if(c == "pp") cout << SerializerToPrettyprint::run(const_cast<Board&>(o.get_board()));
		else if(c == "write") { auto r = o.write(); cout << "write " << (r ? "ok" : r.error()) << "\n"; }
		else if(c.starts_with("before")) o.go_before((app::Step) stoi(c.substr(6)));
		else if(c.starts_with("from")) o.run_from_step((app::Step) stoi(c.substr(4)));
		cout << "-- " << c << endl;
	}
}
