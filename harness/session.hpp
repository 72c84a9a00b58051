// Drives the real application on a scene and gives names to what it decided.
#pragma once

#include <algorithm>
#include <map>
#include <memory>

#include "app/openemsh.hpp"
#include "domain/board.hpp"
#include "domain/conflicts/conflict_colinear_edges.hpp"
#include "domain/conflicts/conflict_diagonal_or_circular_zone.hpp"
#include "domain/conflicts/conflict_edge_in_polygon.hpp"
#include "domain/conflicts/conflict_too_close_meshline_policies.hpp"
#include "domain/geometrics/angle.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/point.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/mesh/interval.hpp"
#include "domain/mesh/meshline.hpp"
#include "domain/mesh/meshline_policy.hpp"
#include "utils/state_management.hpp"

#include "common.hpp"
#include "csx.hpp"

namespace vf {

inline std::vector<app::Step> const all_steps {
	app::Step::ADJUST_EDGE_TO_MATERIAL,
	app::Step::DETECT_DIAG_ANGLES,
	app::Step::DETECT_DIAG_ZONES,
	app::Step::SOLVE_DIAG_ZONES_ANGLES,
	app::Step::DETECT_CONFLICT_EIP,
	app::Step::DETECT_CONFLICT_CE,
	app::Step::ADD_FIXED_MLP,
	app::Step::SOLVE_ALL_EIP,
	app::Step::SOLVE_ALL_CE,
	app::Step::DETECT_INDIVIDUAL_EDGES,
	app::Step::DETECT_AND_SOLVE_TCMLP,
	app::Step::DETECT_INTERVALS,
	app::Step::DETECT_INTERVALS_PER_DIAG_ZONES,
	app::Step::SOLVE_DIAG_ZONES_INTERVALS,
	app::Step::MESH
};

inline void write_file(std::filesystem::path const& p, std::string_view s) {
	std::ofstream f(p, std::ios::binary);
	f << s;
	if(!f.flush()) {
		std::cerr << "cannot write " << p << "\n";
		_exit(3);
	}
}

inline std::string read_file(std::filesystem::path const& p) {
	std::ifstream f(p, std::ios::binary);
	std::ostringstream o;
	o << f.rdbuf();
	return o.str();
}

inline app::OpenEMSH make_app(std::filesystem::path const& in, std::filesystem::path const& out,
		std::function<void (domain::Params&)> over = [](domain::Params&) {}) {
	app::OpenEMSH::Params p;
	p.input = in;
	p.output = out;
	p.override_from_cli = std::move(over);
	return app::OpenEMSH(p);
}

// A scene, parsed, ready to be run.
struct Session {
	std::filesystem::path in, out;
	app::OpenEMSH app;
	bool parsed = false;

	Session(Ctx& c, std::string const& xml, char const* name = "in.csx", std::function<void (domain::Params&)> over = [](domain::Params&) {})
	: in(c.scratch / name)
	, out(c.scratch / (std::string("out-") + name))
	, app(make_app(in, out, std::move(over))) {
		write_file(in, xml);
		auto r = app.parse();
		parsed = r.has_value();
		if(!parsed)
			c.fail("parse", cat("a well-formed file is refused: ", r.error()));
	}
	domain::Board const& board() const { return app.get_board(); }
};

inline char const* name(domain::MeshlinePolicy::Policy p) {
	return p == domain::MeshlinePolicy::Policy::ONELINE ? "ONELINE" : p == domain::MeshlinePolicy::Policy::HALFS ? "HALFS" : "THIRDS";
}
inline char const* name(domain::MeshlinePolicy::Normal n) {
	return n == domain::MeshlinePolicy::Normal::NONE ? "NONE" : n == domain::MeshlinePolicy::Normal::MIN ? "MIN" : "MAX";
}
inline char const* name(domain::Normal n) {
	switch(n) {
	case domain::Normal::XMIN: return "XMIN";
	case domain::Normal::XMAX: return "XMAX";
	case domain::Normal::YMIN: return "YMIN";
	case domain::Normal::YMAX: return "YMAX";
	case domain::Normal::ZMIN: return "ZMIN";
	case domain::Normal::ZMAX: return "ZMAX";
	default: return "NONE";
	}
}

// Everything the run decided, canonically written, in the order the board lists it.
inline std::string snapshot(domain::Board const& b) {
	using namespace domain;
	std::ostringstream o;
	o.precision(17);
	std::map<void const*, std::string> id;
	auto pt = [](Point const& p) { std::ostringstream s; s.precision(17); s << "(" << p.x.value() << "," << p.y.value() << ")"; return s.str(); };
	for(Plane plane : AllPlane) {
		int k = 0;
		for(auto const& p : b.get_polygons(plane)) {
			int j = 0;
			o << "polygon " << (int)plane << "." << k << " " << p->name << " prio " << p->priority << " z " << p->z_placement.min.value() << ".." << p->z_placement.max.value() << " conflicts " << p->get_current_state().conflicts.size() << "\n";
			for(auto const& e : p->edges) {
				auto const& s = e->get_current_state();
				auto const me = cat("e", (int)plane, ".", k, ".", j++);
				id[e.get()] = me;
				o << " " << me << " " << pt(e->p0()) << pt(e->p1()) << " " << name(e->normal) << (s.to_mesh ? " mesh" : " dismissed") << (s.to_reverse ? " reversed" : "") << " conflicts " << s.conflicts.size() << (s.conflict ? " solved" : "") << "\n";
			}
			++k;
		}
		for(auto const& a : b.get_angles(plane))
			o << "angle " << (int)plane << " " << pt(a->p) << " " << a->angle.value() << " " << id[a->e0] << " " << id[a->e1] << " " << a->get_current_state().to_mesh[H] << a->get_current_state().to_mesh[V] << "\n";
		for(auto const& c : b.get_conflicts_edge_in_polygons(plane)) {
			o << "eip " << id[c->edge] << " solved " << c->get_current_state().is_solved;
			for(auto const& [poly, range, edge] : c->get_current_state().overlaps)
				o << " [" << poly->name << " " << pt(range.p0()) << pt(range.p1()) << (edge ? " edge" : "") << "]";
			o << "\n";
		}
	}
	for(Axis axis : AllAxis) {
		for(auto const& c : b.get_conflicts_colinear_edges(axis)) {
			o << "ce " << (int)axis << " solved " << c->get_current_state().is_solved;
			for(auto const* e : c->get_current_state().edges) o << " " << id[e];
			o << "\n";
		}
		std::map<void const*, std::string> pid;
		int k = 0;
		for(auto const& p : b.get_meshline_policies(axis)) {
			auto const& s = p->get_current_state();
			pid[p.get()] = cat("p", k++);
			o << "policy " << (int)axis << " " << pid[p.get()] << " " << name(s.policy) << " " << name(s.normal) << " " << p->coord.value() << (s.is_enabled ? " on" : " off") << " d " << s.d << " origins " << s.origins.size() << " conflicts " << s.conflicts.size() << "\n";
		}
		for(auto const& c : b.get_conflicts_too_close_meshline_policies(axis))
			o << "tcmlp " << (int)axis << " " << pid[c->meshline_policies[0]] << " " << pid[c->meshline_policies[1]] << " solved " << c->get_current_state().is_solved << "\n";
		for(auto const& c : b.get_conflicts_diagonal_or_circular_zones(axis))
			o << "zone " << (int)axis << " angles " << c->get_current_state().angles.size() << " intervals " << c->get_current_state().intervals.size() << " dmax " << c->get_current_state().dmax << "\n";
		for(auto const& i : b.get_intervals(axis)) {
			auto const& s = i->get_current_state();
			o << "interval " << (int)axis << " " << pid[s.before.meshline_policy] << " " << pid[s.after.meshline_policy] << " dmax " << s.dmax << " lmin " << s.before.lmin << "," << s.after.lmin << " smoothness " << s.before.smoothness << "," << s.after.smoothness << " ls " << s.before.ls.size() << "," << s.after.ls.size() << "\n";
		}
		o << "lines " << (int)axis << ":";
		for(auto const& m : b.get_meshlines(axis)) o << " " << m->coord.value();
		o << "\n";
	}
	auto const& g = b.global_params->get_current_state();
	o << "params " << g.proximity_limit << " " << g.smoothness << " " << g.dmax << " " << g.lmin << " " << g.diagonal_dmax << "\n";
	return o.str();
}

inline std::string first_difference(std::string const& a, std::string const& b) {
	std::istringstream x(a), y(b);
	std::string l, m;
	for(;;) {
		bool const i = (bool)std::getline(x, l), j = (bool)std::getline(y, m);
		if(!i && !j) return "no difference";
		if(!i) l = "<end>";
		if(!j) m = "<end>";
		if(l != m) return "\"" + l.substr(0, 400) + "\" versus \"" + m.substr(0, 400) + "\"";
	}
}

} // namespace vf
