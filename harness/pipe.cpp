// Monitors of the meshing pipeline, from a parsed scene to mesh lines. Each oracle
// recomputes, from what a step was given, what it must have decided.
#include <numbers>

#include "session.hpp"

using namespace vf;
using namespace domain;

namespace {

//--------------------------------------------------------------------- scenes
csx::Scene scene_for(Ctx& c, Rng& r) {
	csx::Options o;
	if(c.prop == "P01") {
		o.diagonals = r.chance(30);
		o.max_prims = 7;
	} else if(c.prop == "P02") {
		o.diagonals = r.chance(60);
		o.extent = r.pick({ 5L, 8L, 12L });
		o.max_prims = 7;
	} else if(c.prop == "P03" || c.prop == "P04") {
		o.diagonals = r.chance(40);
		o.curves = r.chance(30);
		o.extent = r.pick({ 5L, 12L, 20L });
	} else if(c.prop == "P05" || c.prop == "P06" || c.prop == "P07" || c.prop == "P08") {
		o.diagonals = r.chance(40);
		o.curves = r.chance(20);
		o.round = r.chance(5);
		o.extent = r.pick({ 5L, 12L, 30L });
		o.max_prims = 5;
		o.any_unit = c.prop != "P05";
	} else if(c.prop == "P13") {
		o.diagonals = r.chance(50);
		o.round = r.chance(20);
		o.extent = r.pick({ 5L, 12L, 20L });
		o.max_prims = 4;
	} else if(c.prop == "P09") {
		o.diagonals = true;
		o.round = r.chance(30);
		o.max_prims = 4;
		o.extent = r.pick({ 5L, 12L, 20L });
	}
	auto s = csx::random_scene(r, o);
	if(c.prop == "P07" && r.chance(12)) { // As many lines as the tolerance on places allows.
		bool const gentle = r.chance(50);
		s.globals.smoothness = gentle ? 1.5 : 2.0;
		s.globals.lmin = gentle ? r.in(14, 26) : r.in(12, 17);
		c.count("many_lines");
	}
	return s;
}

struct Run {
	csx::Scene scene;
	std::unique_ptr<Session> s;
	Board const* b = nullptr;
};

bool run(Ctx& c, Rng& r, Run& out, std::size_t n_steps = 15) {
	out.scene = scene_for(c, r);
	auto const xml = csx::xml(out.scene);
	c.input = xml;
	out.s = std::make_unique<Session>(c, xml);
	if(!out.s->parsed)
		return false;
	if(n_steps >= all_steps.size())
		out.s->app.run_all_steps();
	else
		out.s->app.run({ all_steps.begin(), all_steps.begin() + (long)n_steps });
	out.b = &out.s->board();
	c.sample(xml);
	return true;
}

int rank(Material const& m) {
	switch(m.type) {
	case Material::Type::PORT: return 3;
	case Material::Type::CONDUCTOR: return 2;
	case Material::Type::DIELECTRIC: return 1;
	default: return 0;
	}
}

bool z_touch(Polygon const& a, Polygon const& b) {
	return a.z_placement.min.value() <= b.z_placement.max.value() && b.z_placement.min.value() <= a.z_placement.max.value();
}

bool is_h(Edge const& e) { return e.p0().y.value() == e.p1().y.value() && e.p0().x.value() != e.p1().x.value(); }
bool is_v(Edge const& e) { return e.p0().x.value() == e.p1().x.value() && e.p0().y.value() != e.p1().y.value(); }

// The axis a horizontal (or vertical) edge of a plane gives a line to.
Axis meshed_axis(Plane plane, bool horizontal) {
	switch(plane) {
	case YZ: return horizontal ? Z : Y;
	case ZX: return horizontal ? X : Z;
	default: return horizontal ? Y : X;
	}
}

domain::Normal opposite(domain::Normal n) {
	switch(n) {
	case domain::Normal::XMIN: return domain::Normal::XMAX;
	case domain::Normal::XMAX: return domain::Normal::XMIN;
	case domain::Normal::YMIN: return domain::Normal::YMAX;
	case domain::Normal::YMAX: return domain::Normal::YMIN;
	default: return n;
	}
}

MeshlinePolicy::Normal effective(Edge const& e) {
	auto const n = e.get_current_state().to_reverse ? opposite(e.normal) : e.normal;
	switch(n) {
	case domain::Normal::XMIN: case domain::Normal::YMIN: return MeshlinePolicy::Normal::MIN;
	case domain::Normal::XMAX: case domain::Normal::YMAX: return MeshlinePolicy::Normal::MAX;
	default: return MeshlinePolicy::Normal::NONE;
	}
}

std::string where(Polygon const& p, Edge const& e) {
	return cat("edge (", e.p0().x.value(), ",", e.p0().y.value(), ")-(", e.p1().x.value(), ",", e.p1().y.value(), ") of ", p.name, " in plane ", (int)p.plane);
}

//------------------------------------------------------------------------ P01
void p01(Ctx& c, Rng& r) {
	Run run_;
	if(!run(c, r, run_, 10)) return;
	auto const& b = *run_.b;
	std::uint64_t h = 0;
	for(Plane plane : AllPlane) {
		for(auto const& p : b.get_polygons(plane)) {
			for(auto const& e : p->edges) {
				bool const reversed = e->get_current_state().to_reverse;
				if(e->normal == domain::Normal::NONE) {
					c.check(!reversed, "reverse-no-normal", [&] { return cat("an edge that has no normal is reversed: ", where(*p, *e)); });
					continue;
				}
				bool const horizontal = is_h(*e);
				bool const up = e->normal == domain::Normal::XMAX || e->normal == domain::Normal::YMAX;
				double const at = horizontal ? e->p0().y.value() : e->p0().x.value();
				double lo = horizontal ? e->p0().x.value() : e->p0().y.value(), hi = horizontal ? e->p1().x.value() : e->p1().y.value();
				if(lo > hi) std::swap(lo, hi);
				int best_rank = b.material ? rank(*b.material) : -1;
				std::optional<std::pair<std::size_t, int>> best;
				for(auto const& q : b.get_polygons(plane)) {
					if(q == p || !z_touch(*p, *q))
						continue;
					int const t = horizontal ? 0 : 2, n = horizontal ? 2 : 0; // Along, across.
					double const b0 = q->bounding[n].value(), b1 = q->bounding[n + 1].value();
					if(!(q->bounding[t].value() <= hi && q->bounding[t + 1].value() >= lo))
						continue;
					if(!(up ? b0 <= at && b1 > at : b1 >= at && b0 < at))
						continue;
					std::pair<std::size_t, int> const cand { q->priority, rank(*q->material) };
					if(!best || cand > *best)
						best = cand;
				}
				if(best)
					best_rank = best->second;
				bool const expected = best_rank > rank(*p->material);
				c.check(reversed == expected, "reverse", [&] {
					return cat(where(*p, *e), " is ", reversed ? "" : "not ", "reversed; outer material rank ", best_rank, " inner ", rank(*p->material)); });
				c.count(expected ? "reversed" : "straight");
				c.count(best ? "ambient_polygon" : best_rank >= 0 ? "ambient_background" : "ambient_nothing");
				h = mix(h ^ (std::uint64_t)(best_rank * 8 + rank(*p->material) + 64));
				if(expected) c.nontrivial(mix(hash_bytes(c.input)));
			}
		}
	}
}

//------------------------------------------------------------------------ P02
struct Iv { double a, b; };

// Is [0,1] covered by closed intervals, grown by g at their non exact ends.
bool covers(std::vector<Iv> v) {
	std::sort(v.begin(), v.end(), [](Iv x, Iv y) { return x.a < y.a; });
	double at = 0;
	for(auto i : v) {
		if(i.a > at)
			return false;
		at = std::max(at, i.b);
	}
	return at >= 1 && !v.empty() && v.front().a <= 0;
}

void p02(Ctx& c, Rng& r) {
	Run run_;
	if(!run(c, r, run_, 10)) return;
	auto const& b = *run_.b;
	double const u = run_.scene.unit;
	for(Plane plane : AllPlane) {
		auto const& polys = b.get_polygons(plane);
		// Back to the lattice.
		std::vector<ref::Poly> outlines;
		for(auto const& p : polys) {
			ref::Poly o;
			for(auto const& v : p->points)
				o.push_back({ std::lround(v->x.value() / u), std::lround(v->y.value() / u) });
			outlines.push_back(o);
		}
		for(std::size_t i = 0; i < polys.size(); ++i) {
			for(std::size_t k = 0; k < polys[i]->edges.size(); ++k) {
				Edge const& e = *polys[i]->edges[k];
				auto const& o = outlines[i];
				ref::S const s { o[(k + o.size() - 1) % o.size()], o[k] };
				if(s.a == s.b)
					continue;
				double const len2 = (double)((s.b.x - s.a.x) * (s.b.x - s.a.x) + (s.b.y - s.a.y) * (s.b.y - s.a.y));
				auto param = [&](double x, double y) { return ((x - (double)s.a.x) * (double)(s.b.x - s.a.x) + (y - (double)s.a.y) * (double)(s.b.y - s.a.y)) / len2; };
				std::vector<Iv> sure, maybe; // Shrunk and grown where the ends are not exact.
				bool any = false;
				for(std::size_t j = 0; j < polys.size(); ++j) {
					if(j == i || polys[j]->priority < polys[i]->priority || !z_touch(*polys[i], *polys[j]))
						continue;
					auto const& q = outlines[j];
					struct Brk { double t; bool exact; };
					std::vector<Brk> brk { { 0, true }, { 1, true } };
					struct Flat { double a, b; bool same; };
					std::vector<Flat> flats;
					for(std::size_t l = 0; l < q.size(); ++l) {
						ref::S const w { q[(l + q.size() - 1) % q.size()], q[l] };
						if(w.a == w.b) {
							if(ref::on_segment(w.a, s))
								brk.push_back({ param((double)w.a.x, (double)w.a.y), true });
							continue;
						}
						auto const rel = ref::relation(s, w);
						if(rel == ref::Rel::CROSSING) {
							auto const [x, y] = ref::crossing_point(s, w);
							double const rx = std::round(x), ry = std::round(y);
							bool const lattice = std::abs(x - rx) < 1e-9 && std::abs(y - ry) < 1e-9;
							bool const ortho = (s.a.x == s.b.x || s.a.y == s.b.y) && (w.a.x == w.b.x || w.a.y == w.b.y);
							brk.push_back({ lattice ? param(rx, ry) : param(x, y), ortho });
						} else if(rel == ref::Rel::OVERLAPPING) {
							double a = param((double)w.a.x, (double)w.a.y), z = param((double)w.b.x, (double)w.b.y);
							if(a > z) std::swap(a, z);
							a = std::max(a, 0.0);
							z = std::min(z, 1.0);
							brk.push_back({ a, true });
							brk.push_back({ z, true });
							if(a < z)
								flats.push_back({ a, z, polys[j]->edges[l]->normal == e.normal });
						}
					}
					std::sort(brk.begin(), brk.end(), [](Brk x, Brk y) { return x.t < y.t; });
					std::vector<Brk> uniq;
					for(auto x : brk) {
						if(uniq.empty() || x.t - uniq.back().t > 1e-9)
							uniq.push_back(x);
						else if(x.exact && !uniq.back().exact)
							uniq.back().t = x.t; // Keeps it not exact: the code may use the other one.
					}
					for(std::size_t m = 1; m < uniq.size(); ++m) {
						double const a = uniq[m-1].t, z = uniq[m].t, mid = (a + z) / 2;
						bool on = false, on_other = false;
						for(auto const& f : flats)
							if(f.a < mid && mid < f.b) {
								on = true;
								on_other |= !f.same;
							}
						bool in = false;
						if(!on) {
							double const x = (double)s.a.x + mid * (double)(s.b.x - s.a.x), y = (double)s.a.y + mid * (double)(s.b.y - s.a.y);
							for(std::size_t l = 0; l < q.size(); ++l) {
								ref::P const v = q[(l + q.size() - 1) % q.size()], w = q[l];
								if(((double)v.y > y) != ((double)w.y > y)
								&& x < (double)v.x + (y - (double)v.y) * (double)(w.x - v.x) / (double)(w.y - v.y))
									in = !in;
							}
						}
						if(in || on_other) {
							any = true;
							double const g = 1e-6;
							sure.push_back({ uniq[m-1].exact ? a : a + g, uniq[m].exact ? z : z - g });
							maybe.push_back({ uniq[m-1].exact ? a : a - g, uniq[m].exact ? z : z + g });
						}
					}
				}
				bool const to_mesh = e.get_current_state().to_mesh;
				bool const yes = covers(sure), no = !covers(maybe);
				if(yes == no) {
					c.count("ambiguous");
					continue;
				}
				c.check(to_mesh == no, yes ? "dismissed" : "kept", [&] {
					return cat(where(*polys[i], e), yes ? " is entirely hidden and still meshed" : " is not entirely hidden and yet dismissed"); });
				c.count(yes ? "hidden_edges" : any ? "partly_hidden_edges" : "visible_edges");
				if(any)
					c.nontrivial(hash_bytes(c.input));
			}
		}
	}
}

//------------------------------------------------------------------------ P03
using Key = std::pair<int, double>; // Plane * 2 + horizontal, coordinate.

std::map<Key, std::vector<std::pair<Polygon const*, Edge const*>>> groups(Board const& b) {
	std::map<Key, std::vector<std::pair<Polygon const*, Edge const*>>> g;
	for(Plane plane : AllPlane)
		for(auto const& p : b.get_polygons(plane))
			for(auto const& e : p->edges) {
				if(is_h(*e))
					g[{ (int)plane * 2 + 1, e->p0().y.value() }].emplace_back(p.get(), e.get());
				else if(is_v(*e))
					g[{ (int)plane * 2, e->p0().x.value() }].emplace_back(p.get(), e.get());
			}
	return g;
}

struct Expected {
	MeshlinePolicy::Policy policy;
	MeshlinePolicy::Normal normal;
	double coord;
	bool enabled;
	auto key() const { return std::tuple((int)policy, (int)normal, coord, enabled); }
	bool operator==(Expected const& o) const { return key() == o.key(); }
	bool operator<(Expected const& o) const { return key() < o.key(); }
};

std::string str(Expected const& e) { return cat(name(e.policy), " ", name(e.normal), " at ", e.coord, e.enabled ? "" : " (disabled)"); }

std::optional<Expected> of_group(std::vector<std::pair<Polygon const*, Edge const*>> const& v, double coord) {
	bool none = false, min = false, max = false;
	for(auto const& [p, e] : v) {
		if(!e->get_current_state().to_mesh)
			continue;
		switch(effective(*e)) {
		case MeshlinePolicy::Normal::NONE: none = true; break;
		case MeshlinePolicy::Normal::MIN: min = true; break;
		default: max = true; break;
		}
	}
	using enum MeshlinePolicy::Policy;
	if(none) return Expected { ONELINE, MeshlinePolicy::Normal::NONE, coord, true };
	if(min && max) return Expected { HALFS, MeshlinePolicy::Normal::NONE, coord, true };
	if(min) return Expected { THIRDS, MeshlinePolicy::Normal::MIN, coord, true };
	if(max) return Expected { THIRDS, MeshlinePolicy::Normal::MAX, coord, true };
	return std::nullopt;
}

bool has_colinear_polygon(Board const& b) {
	for(Plane plane : AllPlane)
		for(auto const& p : b.get_polygons(plane))
			if(p->rotation == Polygon::Rotation::COLINEAR)
				return true;
	return false;
}

void p03(Ctx& c, Rng& r) {
	Run run_;
	if(!run(c, r, run_, 10)) return;
	auto const& b = *run_.b;
	auto const g = groups(b);
	for(Axis axis : AllAxis) {
		auto const& conflicts = b.get_conflicts_colinear_edges(axis);
		std::map<Edge const*, int> seen;
		std::size_t expected = 0;
		for(auto const& [key, edges] : g) {
			if(meshed_axis((Plane)(key.first / 2), key.first % 2) != axis || edges.size() < 2)
				continue;
			++expected;
			// The conflict that has the first one must be made of exactly those.
			std::set<Edge const*> mine;
			for(auto const& [p, e] : edges) mine.insert(e);
			int found = 0;
			for(auto const& k : conflicts) {
				auto const& es = k->get_current_state().edges;
				if(std::none_of(es.begin(), es.end(), [&](Edge const* e) { return mine.contains(e); }))
					continue;
				++found;
				std::set<Edge const*> const theirs(es.begin(), es.end());
				c.check(theirs == mine && es.size() == mine.size(), "colinear-members", [&] {
					return cat("the ", mine.size(), " colinear edges at ", key.second, " of axis ", (int)axis, " are in a conflict of ", es.size()); });
				auto const want = of_group(edges, key.second);
				MeshlinePolicy const* got = k->get_current_state().meshline_policy;
				c.check((got != nullptr) == want.has_value(), "colinear-policy-presence", [&] {
					return cat("colinear edges at ", key.second, " of axis ", (int)axis, got ? " give a policy, none is to mesh" : " give no policy"); });
				c.check(k->get_current_state().is_solved == want.has_value(), "colinear-solved", "wrong solved status");
				if(got && want) {
					// Its state may have been disabled since: what it is must not change.
					auto const& s = got->get_current_state();
					c.check(s.policy == want->policy && s.normal == want->normal && got->coord.value() == want->coord && got->axis == axis,
						"colinear-policy", [&] { return cat("colinear edges give ", name(s.policy), " ", name(s.normal), " at ", got->coord.value(), ", expected ", str(*want)); });
					c.count(cat("policy_", name(want->policy)));
				} else
					c.count("policy_nothing");
				c.nontrivial(mix(hash_bytes(c.input) ^ (std::uint64_t)(key.second * 64) ^ (std::uint64_t)key.first << 40));
			}
			c.check(found == 1, "colinear-conflict", [&] { return cat("colinear edges at ", key.second, " of axis ", (int)axis, " are in ", found, " conflicts"); });
		}
		c.check(conflicts.size() == expected, "colinear-count", [&] { return cat(conflicts.size(), " conflicts on axis ", (int)axis, ", expected ", expected); });
	}
}

//------------------------------------------------------------------------ P04
std::size_t n_initial(Board const& b, Axis axis) {
	return b.get_meshline_policies(axis).size() - b.get_conflicts_too_close_meshline_policies(axis).size();
}

void p04(Ctx& c, Rng& r) {
	// Only until policies are complete: proximity is not in the question.
	Run run_;
	run_.scene = scene_for(c, r);
	auto const xml = csx::xml(run_.scene);
	c.input = xml;
	run_.s = std::make_unique<Session>(c, xml);
	if(!run_.s->parsed) return;
	run_.s->app.run({ all_steps.begin(), all_steps.begin() + 10 });
	auto const& b = run_.s->board();
	c.sample(xml);
	auto const g = groups(b);
	for(Axis axis : AllAxis) {
		std::vector<Expected> want;
		for(auto const& [key, edges] : g) {
			if(meshed_axis((Plane)(key.first / 2), key.first % 2) != axis)
				continue;
			if(edges.size() >= 2) {
				if(auto e = of_group(edges, key.second))
					want.push_back(*e);
				c.count("colinear_groups");
			} else {
				Edge const& e = *edges[0].second;
				if(!e.get_current_state().to_mesh) {
					c.count("individual_dismissed");
				} else if(effective(e) == MeshlinePolicy::Normal::NONE) {
					c.count("individual_no_normal"); // Zero-area outlines: nothing to apply thirds to.
				} else {
					want.push_back({ MeshlinePolicy::Policy::THIRDS, effective(e), key.second, true });
					c.count("individual");
				}
			}
		}
		for(Plane plane : AllPlane)
			for(auto const& a : b.get_angles(plane))
				for(ViewAxis v : AllViewAxis)
					if(Axes[plane][v] == axis) {
						bool const on = a->get_current_state().to_mesh[v];
						want.push_back({ MeshlinePolicy::Policy::HALFS, MeshlinePolicy::Normal::NONE, (v == H ? a->p.x : a->p.y).value(), on });
						c.count(on ? "angles_on" : "angles_off");
					}
		std::set<double> fixed;
		for(double f : run_.scene.fixed[axis])
			fixed.insert(f);
		for(auto const& p : run_.scene.props)
			for(auto const& q : p.prims) {
				if(q.kind == csx::POLYGON && q.normal == (int)axis && !q.outline.empty())
					fixed.insert(q.elevation);
				if(q.kind == csx::POINT)
					fixed.insert(q.pts[0][axis]);
			}
		for(double f : fixed) {
			want.push_back({ MeshlinePolicy::Policy::ONELINE, MeshlinePolicy::Normal::NONE, f, true });
			c.count("fixed_lines");
		}
		std::vector<Expected> got;
		for(auto const& p : b.get_meshline_policies(axis)) {
			auto const& s = p->get_current_state();
			c.check(p->axis == axis, "policy-axis", "a policy is filed under an other axis");
			got.push_back({ s.policy, s.normal, p->coord.value(), s.is_enabled });
		}
		std::sort(want.begin(), want.end());
		std::sort(got.begin(), got.end());
		c.check(want == got, "policies", [&] {
			std::vector<Expected> miss, extra;
			std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(miss));
			std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(extra));
			std::string m = cat("axis ", (int)axis, ": ");
			for(auto const& e : miss) m += "missing " + str(e) + "; ";
			for(auto const& e : extra) m += "extra " + str(e) + "; ";
			return m;
		});
		if(!want.empty())
			c.nontrivial(mix(hash_bytes(c.input) ^ (std::uint64_t)axis));
	}
}

//------------------------------------------------------------------------ P05
void p05(Ctx& c, Rng& r) {
	Run run_;
	if(!run(c, r, run_, 11)) return;
	auto const& b = *run_.b;
	double const limit = b.global_params->get_current_state().proximity_limit;
	for(Axis axis : AllAxis) {
		auto const& policies = b.get_meshline_policies(axis);
		auto const& conflicts = b.get_conflicts_too_close_meshline_policies(axis);
		c.check(policies.size() >= conflicts.size(), "tcmlp-count", "more conflicts than policies");
		if(policies.size() < conflicts.size())
			continue;
		std::size_t const n0 = n_initial(b, axis);
		// Enabled when the step began: the ones still enabled, and those a conflict disabled.
		std::set<void const*> in_conflict;
		std::map<void const*, double> on; // Its coordinate.
		for(auto const& k : conflicts)
			for(auto const* p : k->meshline_policies) {
				c.check(in_conflict.insert(p).second, "tcmlp-twice", [&] { return cat("a policy at ", p->coord.value(), " is in two conflicts"); });
				c.check(!p->get_current_state().is_enabled, "tcmlp-still-enabled", [&] { return cat("a policy in conflict, at ", p->coord.value(), ", is still enabled"); });
			}
		for(std::size_t i = 0; i < n0; ++i)
			if(policies[i]->get_current_state().is_enabled || in_conflict.contains(policies[i].get()))
				on[policies[i].get()] = policies[i]->coord.value();
		auto smallest = [&] {
			std::vector<double> v;
			for(auto const& [_, at] : on) v.push_back(at);
			std::sort(v.begin(), v.end());
			double m = INFINITY;
			for(std::size_t i = 1; i < v.size(); ++i) m = std::min(m, v[i] - v[i-1]);
			return m;
		};
		for(std::size_t i = 0; i < conflicts.size(); ++i) {
			auto const* x = conflicts[i]->meshline_policies[0];
			auto const* y = conflicts[i]->meshline_policies[1];
			MeshlinePolicy const* result = policies[n0 + i].get();
			double const cx = x->coord.value(), cy = y->coord.value(), d = std::abs(cx - cy);
			bool const both = on.contains(x) && on.contains(y) && x != y;
			c.check(both, "tcmlp-pair", [&] { return cat("conflict ", i, " joins policies that are not both enabled, at ", cx, " and ", cy); });
			c.check(d <= limit || d < 1e-7, "tcmlp-far", [&] { return cat("policies at ", cx, " and ", cy, " are in conflict, the limit is ", limit); });
			double const m = smallest();
			c.check(d <= m, "tcmlp-closest", [&] { return cat("conflict between ", cx, " and ", cy, " while others are at ", m); });
			// What replaces them.
			auto const& sx = x->get_current_state();
			auto const& sy = y->get_current_state();
			auto const ONE = MeshlinePolicy::Policy::ONELINE, TH = MeshlinePolicy::Policy::THIRDS, HA = MeshlinePolicy::Policy::HALFS;
			Expected want { HA, MeshlinePolicy::Normal::NONE, (cx + cy) / 2, true };
			if(sx.policy == ONE && sy.policy == ONE) want.policy = ONE;
			else if(sx.policy == ONE) { want.policy = ONE; want.coord = cx; }
			else if(sy.policy == ONE) { want.policy = ONE; want.coord = cy; }
			else if(sx.policy == TH && sy.policy == TH && sx.normal == sy.normal) { want.policy = TH; want.normal = sx.normal; }
			auto const& sr = result->get_current_state();
			c.check(sr.policy == want.policy && sr.normal == want.normal && std::abs(result->coord.value() - want.coord) <= 1e-9 * (1 + std::abs(want.coord)), "tcmlp-result", [&] {
				return cat("policies ", name(sx.policy), " ", name(sx.normal), " ", cx, " and ", name(sy.policy), " ", name(sy.normal), " ", cy, " are replaced by ", name(sr.policy), " ", name(sr.normal), " ", result->coord.value(), ", expected ", str(want)); });
			c.check(conflicts[i]->get_current_state().is_solved && conflicts[i]->get_current_state().meshline_policy == result, "tcmlp-solution", "the conflict does not tell its solution");
			c.count(cat("result_", name(want.policy)));
			on.erase(x);
			on.erase(y);
			on[result] = result->coord.value();
			c.nontrivial(mix(hash_bytes(c.input) ^ (std::uint64_t)(cx * 64) ^ (std::uint64_t)axis << 50));
		}
		c.check(on.size() < 2 || (smallest() > limit && smallest() > 1e-9), "tcmlp-remaining", [&] { return cat("policies as close as ", smallest(), " are left on axis ", (int)axis, ", the limit is ", limit); });
		std::size_t enabled = 0;
		for(auto const& p : policies) {
			enabled += p->get_current_state().is_enabled;
			c.check(p->get_current_state().is_enabled == on.contains(p.get()), "tcmlp-enabled", [&] { return cat("policy at ", p->coord.value(), " has a wrong enabled status"); });
		}
		c.count("axes");
	}
}

//------------------------------------------------------------------------ P06
std::vector<MeshlinePolicy const*> enabled_sorted(Board const& b, Axis axis) {
	std::vector<MeshlinePolicy const*> v;
	for(auto const& p : b.get_meshline_policies(axis))
		if(p->get_current_state().is_enabled)
			v.push_back(p.get());
	std::sort(v.begin(), v.end(), [](auto const* x, auto const* y) { return x->coord.value() < y->coord.value(); });
	return v;
}

void check_intervals(Ctx& c, Board const& b) {
	std::size_t cells = 1;
	for(Axis axis : AllAxis) {
		auto const on = enabled_sorted(b, axis);
		auto const& is = b.get_intervals(axis);
		c.check(is.size() == (on.empty() ? 0 : on.size() - 1), "interval-count", [&] { return cat(is.size(), " intervals for ", on.size(), " enabled policies on axis ", (int)axis); });
		for(std::size_t i = 0; i + 1 < on.size() && i < is.size(); ++i) {
			auto const& s = is[i]->get_current_state();
			double const x = on[i]->coord.value(), y = on[i+1]->coord.value();
			c.check(s.before.meshline_policy == on[i] && s.after.meshline_policy == on[i+1], "interval-ends", [&] { return cat("interval ", i, " does not join consecutive policies ", x, " and ", y); });
			c.check(std::abs(is[i]->h.value() - (y - x) / 2) < 1e-9 && std::abs(is[i]->m.value() - (x + y) / 2) < 1e-9 * (1 + std::abs(x + y)) && is[i]->axis == axis, "interval-middle", [&] {
				return cat("interval ", x, "..", y, " has half ", is[i]->h.value(), " and middle ", is[i]->m.value()); });
			c.count("intervals");
			c.nontrivial(mix(hash_bytes(c.input) ^ (std::uint64_t)(x * 64) ^ (std::uint64_t)axis << 50));
		}
		auto const ls = b.get_meshline_policies_meshlines(axis);
		c.check(ls.size() == on.size(), "policy-lines", "the policy lines are not the enabled policies");
		cells *= b.get_meshlines(axis).size();
		if(on.size() < 2) c.count("axes_without_interval");
	}
	c.check(b.get_mesh_cell_number() == cells, "cells", "wrong cell number");
}

void p06(Ctx& c, Rng& r) {
	Run run_;
	if(!run(c, r, run_)) return;
	check_intervals(c, *run_.b);
}

//------------------------------------------------------------------------ P07
// Both sides of an interval, given the lines of its axis.
void check_halves(Ctx& c, Interval const& i, std::vector<double> const& x, std::array<std::size_t, 2> lmin, std::array<double, 2> smoothness) {
	double const tol = 1e-7;
	auto const& s = i.get_current_state();
	double const lo = s.before.meshline_policy->coord.value(), hi = s.after.meshline_policy->coord.value();
	// Both halves, outward from the policy to the middle.
	for(int side = 0; side < 2; ++side) {
		auto const& p = *(side ? s.after : s.before).meshline_policy;
		std::vector<double> v;
		for(double k : x) {
			double const d = side ? hi - k : k - lo;
			if(d >= -tol && d < (hi - lo) / 2 - tol)
				v.push_back(d);
		}
		std::sort(v.begin(), v.end());
		// Lines strictly inside the half plus the middle one.
		c.check(v.size() + 1 >= std::max<std::size_t>(lmin[side], 1), "half-lmin", [&] { return cat("half interval from ", side ? hi : lo, " has ", v.size() + 1, " lines, lmin is ", lmin[side]); });
		c.count("halves");
		double d = p.get_current_state().d;
		std::vector<double> gaps;
		if(d > 0) gaps.push_back(p.get_current_state().policy == MeshlinePolicy::Policy::ONELINE ? -1 : d);
		for(std::size_t k = 1; k < v.size(); ++k) gaps.push_back(v[k] - v[k-1]);
		for(std::size_t k = 1; k < gaps.size(); ++k)
			if(gaps[k-1] > 0) {
				c.check(gaps[k] <= smoothness[side] * gaps[k-1] * (1 + 1e-9) + tol, "half-smoothness", [&] {
					return cat("gap ", gaps[k], " after gap ", gaps[k-1], " from policy at ", side ? hi : lo, " (", name(p.get_current_state().policy), "), smoothness ", smoothness[side]); });
				c.check(gaps[k] >= gaps[k-1] * (1 - 1e-9) - tol, "half-growth", [&] {
					return cat("gap ", gaps[k], " after gap ", gaps[k-1], " from policy at ", side ? hi : lo, " (", name(p.get_current_state().policy), ")"); });
				c.count("gap_pairs");
			}
		// The half ends at the middle of the interval. Smoothness was lowered until that spacing is full,
		// unless spacings got equal first.
		std::erase_if(gaps, [](double q) { return q < 0; });
		if(gaps.size() >= 2 && gaps.back() > gaps.front() * 1.0001) {
			double const last = (hi - lo) / 2 - v.back();
			// By steps of a ten thousandth, that each line adds up.
			c.check(last > gaps.back() * .95 - 2e-4 * (double)gaps.size() * (v.back() - v.front()), "half-end", [&] {
				return cat("the half interval from ", side ? hi : lo, " ends by a gap ", last, " after a gap ", gaps.back(), " that had grown from ", gaps.front()); });
			c.count("grown_halves");
		}
	}
}

void p07(Ctx& c, Rng& r) {
	Run run_;
	if(!run(c, r, run_)) return;
	auto const& b = *run_.b;
	auto const g = b.global_params->get_current_state();
	for(Axis axis : AllAxis) {
		auto const& lines = b.get_meshlines(axis);
		std::vector<double> x;
		for(auto const& l : lines) {
			x.push_back(l->coord.value());
			c.check(std::isfinite(x.back()), "line-finite", "a line is not finite");
		}
		double const tol = 1e-7;
		for(std::size_t i = 1; i < x.size(); ++i) {
			c.check(x[i] > x[i-1], "line-order", [&] { return cat("lines ", x[i-1], " and ", x[i], " of axis ", (int)axis); });
			c.check(x[i] - x[i-1] <= g.dmax + tol, "line-dmax", [&] { return cat("lines ", x[i-1], " and ", x[i], " of axis ", (int)axis, " are ", x[i]-x[i-1], " apart, dmax is ", g.dmax); });
		}
		for(auto const& i : b.get_intervals(axis)) {
			auto const& s = i->get_current_state();
			double const lo = s.before.meshline_policy->coord.value();
			check_halves(c, *i, x, { g.lmin, g.lmin }, { g.smoothness, g.smoothness });
			c.nontrivial(mix(hash_bytes(c.input) ^ (std::uint64_t)(lo * 64) ^ (std::uint64_t)axis << 50));
		}
	}
}

//------------------------------------------------------------------------ P08
void check_policies(Ctx& c, Board const& b) {
	double const tol = 1e-9;
	for(Axis axis : AllAxis) {
		std::vector<double> x;
		for(auto const& l : b.get_meshlines(axis)) x.push_back(l->coord.value());
		std::sort(x.begin(), x.end());
		auto const on = enabled_sorted(b, axis);
		// Each line is the one of a single-line policy that is enabled, or fills an interval.
		std::multiset<MeshlinePolicy const*> own;
		for(auto const& l : b.get_meshlines(axis)) {
			double const at = l->coord.value();
			if(l->interval) {
				double const lo = l->interval->get_current_state().before.meshline_policy->coord.value(), hi = l->interval->get_current_state().after.meshline_policy->coord.value();
				auto const &i = l->interval->get_current_state();
				c.check((!l->policy || l->policy == i.before.meshline_policy || l->policy == i.after.meshline_policy) && at > lo - tol && at < hi + tol, "interval-line", [&] { return cat("line at ", at, " of an interval from ", lo, " to ", hi); });
				c.count("interval_lines");
			} else {
				c.check(l->policy, "line-origin", [&] { return cat("line at ", at, " comes from nothing"); });
				if(!l->policy) continue;
				auto const& s = l->policy->get_current_state();
				c.check(s.is_enabled && s.policy == MeshlinePolicy::Policy::ONELINE && l->policy->coord.value() == at, "policy-line", [&] {
					return cat("line at ", at, " is the one of a ", name(s.policy), " policy at ", l->policy->coord.value(), s.is_enabled ? "" : " that is not enabled"); });
				own.insert(l->policy);
				c.count("policy_lines");
			}
		}
		for(auto const* p : on)
			c.check(own.count(p) == (p->get_current_state().policy == MeshlinePolicy::Policy::ONELINE), "own-line", [&] {
				return cat(own.count(p), " lines are the one of a ", name(p->get_current_state().policy), " policy at ", p->coord.value()); });
		for(auto const& p : b.get_meshline_policies(axis)) if(!p->get_current_state().is_enabled) c.count("policies_disabled");
		for(std::size_t i = 0; i < on.size(); ++i) {
			auto const& s = on[i]->get_current_state();
			double const at = on[i]->coord.value();
			bool const exact = std::any_of(x.begin(), x.end(), [&](double k) { return std::abs(k - at) < tol * (1 + std::abs(at)); });
			if(s.policy == MeshlinePolicy::Policy::ONELINE) {
				c.check(exact, "oneline", [&] { return cat("no line at ", at, " of axis ", (int)axis); });
				c.count("onelines");
				continue;
			}
			c.check(!exact, "line-on-edge", [&] { return cat("a line lies on the ", name(s.policy), " policy at ", at); });
			double const up = s.policy == MeshlinePolicy::Policy::HALFS ? s.d / 2 : s.normal == MeshlinePolicy::Normal::MAX ? s.d * 2 / 3 : s.d / 3;
			double const down = s.d - up;
			auto const above = std::upper_bound(x.begin(), x.end(), at);
			if(i + 1 < on.size()) {
				c.check(above != x.end() && std::abs(*above - (at + up)) < 1e-7 * (1 + std::abs(at)), "policy-line-above", [&] {
					return cat(name(s.policy), " ", name(s.normal), " at ", at, " d ", s.d, ": next line is ", above == x.end() ? NAN : *above, ", expected ", at + up); });
				c.count("lines_above");
			}
			if(i > 0) {
				c.check(above != x.begin() && std::abs(*(above - 1) - (at - down)) < 1e-7 * (1 + std::abs(at)), "policy-line-below", [&] {
					return cat(name(s.policy), " ", name(s.normal), " at ", at, " d ", s.d, ": previous line is ", above == x.begin() ? NAN : *(above - 1), ", expected ", at - down); });
				c.count("lines_below");
			}
			c.count(cat("policies_", name(s.policy)));
			c.nontrivial(mix(hash_bytes(c.input) ^ (std::uint64_t)(at * 64) ^ (std::uint64_t)axis << 50));
		}
	}
}

void p08(Ctx& c, Rng& r) {
	Run run_;
	if(!run(c, r, run_)) return;
	check_policies(c, *run_.b);
}

//------------------------------------------------------------------------ P09
double turn(Edge const& a, Edge const& b) {
	long double const ax = a.p1().x.value() - a.p0().x.value(), ay = a.p1().y.value() - a.p0().y.value();
	long double const bx = b.p1().x.value() - b.p0().x.value(), by = b.p1().y.value() - b.p0().y.value();
	return (double)(std::atan2(std::abs(ax * by - ay * bx), ax * bx + ay * by) * 180 / std::numbers::pi_v<long double>);
}

void p09(Ctx& c, Rng& r) {
	auto scene = scene_for(c, r);
	auto const xml = csx::xml(scene);
	double const diagonal_dmax = r.pick({ 0.1, 0.2, 0.5, 3.0 }), minimal = r.pick({ 0.0, 10.0, 20.0, 40.0, 60.0, 91.0 });
	c.input = cat(xml, "diagonal dmax ", diagonal_dmax, " minimal angle ", minimal, "\n");
	Session s(c, xml, "in.csx", [&](domain::Params& p) {
		p.diagonal_dmax = diagonal_dmax;
		p.consecutive_diagonal_minimal_angle = minimal;
	});
	if(!s.parsed) return;
	c.sample(c.input);
	auto const& b = s.board();
	double const dmax = b.global_params->get_current_state().dmax;
	s.app.run({ all_steps.begin(), all_steps.begin() + 4 });
	double const u = scene.unit;

	for(Plane plane : AllPlane) {
		// Angles: one per vertex of a diagonal edge, one per crossing of edges of two polygons.
		auto const& polys = b.get_polygons(plane);
		bool exact = true, degenerate = false;
		std::map<Edge const*, ref::S> lattice;
		std::vector<Edge const*> diagonals;
		for(auto const& p : polys)
			for(auto const& e : p->edges) {
				auto at = [&](double v) { double const k = std::round(v / u); exact &= std::abs(k * u - v) == 0; return (long)k; };
				ref::S const t { { at(e->p0().x.value()), at(e->p0().y.value()) }, { at(e->p1().x.value()), at(e->p1().y.value()) } };
				bool const point = e->p0().x.value() == e->p1().x.value() && e->p0().y.value() == e->p1().y.value();
				degenerate |= point;
				lattice[e.get()] = t;
				if(!is_h(*e) && !is_v(*e) && !point) diagonals.push_back(e.get());
			}
		auto const& angles = b.get_angles(plane);
		using Pair = std::pair<Edge const*, Edge const*>;
		auto key = [](Edge const* x, Edge const* y) { return std::less<>()(x, y) ? Pair(x, y) : Pair(y, x); };
		std::map<Pair, std::pair<double, double>> want;
		if(exact && !degenerate) {
			for(auto const& p : polys)
				for(std::size_t i = 0, q = p->edges.size() - 1; i < p->edges.size(); q = i++) {
					auto const *x = p->edges[q].get(), *y = p->edges[i].get();
					bool const diag = !(is_h(*x) || is_v(*x)) || !(is_h(*y) || is_v(*y));
					if(diag && p->edges.size() > 2)
						want[key(x, y)] = { p->points[q]->x.value(), p->points[q]->y.value() };
				}
			std::size_t const n_vertices = want.size();
			for(std::size_t i = 0; i < polys.size(); ++i)
				for(std::size_t j = i + 1; j < polys.size(); ++j)
					for(auto const& x : polys[i]->edges)
						for(auto const& y : polys[j]->edges) {
							if((is_h(*x) || is_v(*x)) && (is_h(*y) || is_v(*y)))
								continue;
							auto const sx = lattice[x.get()], sy = lattice[y.get()];
							if(ref::relation(sx, sy) != ref::Rel::CROSSING)
								continue;
							auto const [px, py] = ref::crossing_point(sx, sy);
							want[key(x.get(), y.get())] = { px * u, py * u };
						}
			c.count("vertex_angles", n_vertices);
			c.count("crossing_angles", want.size() - n_vertices);
			bool const open = std::any_of(polys.begin(), polys.end(), [](auto const& p) { return p->edges.size() <= 2; });
			if(!open) {
				std::map<Pair, int> got;
				for(auto const& a : angles) {
					auto const k = key(a->e0, a->e1);
					++got[k];
					auto const it = want.find(k);
					c.check(it != want.end(), "angle-extra", [&] { return cat("an angle is found at (", a->p.x.value(), ",", a->p.y.value(), ") in plane ", (int)plane, " where no edge diverges"); });
					if(it != want.end())
						c.check(std::abs(a->p.x.value() - it->second.first) < 1e-7 * (1 + std::abs(it->second.first)) && std::abs(a->p.y.value() - it->second.second) < 1e-7 * (1 + std::abs(it->second.second)),
							"angle-place", [&] { return cat("angle at (", a->p.x.value(), ",", a->p.y.value(), "), expected (", it->second.first, ",", it->second.second, ")"); });
				}
				for(auto const& [k, n] : got)
					c.check(n == 1, "angle-twice", "the same angle is found several times");
				for(auto const& [k, at] : want)
					c.check(got.contains(k), "angle-missing", [&] { return cat("no angle at (", at.first, ",", at.second, ") in plane ", (int)plane); });
			}
		} else
			c.count("planes_not_on_the_lattice");
		for(auto const& a : angles)
			c.check(std::abs(a->angle.value() - turn(*a->e0, *a->e1)) < 1e-5, "angle-value", [&] { return cat("angle ", a->angle.value(), ", expected ", turn(*a->e0, *a->e1)); });
		if(angles.empty())
			continue;

		// Zones: maximal runs of consecutive angles between which there is a diagonal edge.
		for(ViewAxis v : AllViewAxis) {
			auto at = [v](auto const* a) { return (v == H ? a->p.x : a->p.y).value(); };
			std::vector<Angle const*> sorted;
			for(auto const& a : angles) sorted.push_back(a.get());
			std::sort(sorted.begin(), sorted.end(), [&](auto const* x, auto const* y) { return at(x) < at(y); });
			std::vector<std::vector<Angle const*>> zones;
			bool ambiguous = false;
			for(std::size_t i = 0; i < sorted.size(); ++i) {
				bool linked = false;
				if(i) {
					double const m = (at(sorted[i-1]) + at(sorted[i])) / 2;
					for(auto const* e : diagonals) {
						double lo = (v == H ? e->p0().x : e->p0().y).value(), hi = (v == H ? e->p1().x : e->p1().y).value();
						if(lo > hi) std::swap(lo, hi);
						linked |= lo <= m && m <= hi;
					}
					if(!linked && at(sorted[i]) - at(sorted[i-1]) < 1e-9) ambiguous = true;
				}
				if(!linked) zones.emplace_back();
				zones.back().push_back(sorted[i]);
			}
			if(ambiguous) {
				c.count("ambiguous");
				continue;
			}
			Axis const axis = Axes[plane][v];
			// The zones of this plane on this axis.
			std::vector<std::set<void const*>> got;
			std::vector<std::pair<double, double>> spans;
			std::set<void const*> mine;
			for(auto const& a : angles) mine.insert(a.get());
			for(auto const& z : b.get_conflicts_diagonal_or_circular_zones(axis)) {
				std::set<void const*> ids;
				for(auto const* a : z->get_current_state().angles) ids.insert(a);
				if(ids.empty() || !mine.contains(*ids.begin())) continue;
				c.check(ids.size() == z->get_current_state().angles.size(), "zone-angle-twice", "an angle is twice in a zone");
				got.push_back(ids);
				auto const bb = z->bounding();
				spans.emplace_back(bb[XMIN].value(), bb[XMAX].value());
			}
			c.check(got.size() == zones.size(), "zone-count", [&] { return cat(got.size(), " diagonal zones on axis ", (int)axis, " of plane ", (int)plane, ", expected ", zones.size()); });
			for(auto const& z : zones) {
				std::set<void const*> ids(z.begin(), z.end());
				auto const it = std::find(got.begin(), got.end(), ids);
				c.check(it != got.end(), "zone", [&] { return cat("no diagonal zone from ", at(z.front()), " to ", at(z.back()), " on axis ", (int)axis, " of plane ", (int)plane); });
				if(it == got.end()) continue;
				auto const span = spans[(std::size_t)(it - got.begin())];
				c.check(span.first == at(z.front()) && span.second == at(z.back()), "zone-span", [&] { return cat("zone from ", span.first, " to ", span.second, ", expected ", at(z.front()), " to ", at(z.back())); });
				c.count("zones");
				// Which angles get a line: extremities, and inner ones that turn enough.
				int extra[2] {}, on[2] {};
				for(auto const* a : z) {
					bool const first = at(a) - at(z.front()) < 1e-9, last = at(z.back()) - at(a) < 1e-9;
					bool const rule = a->angle.value() >= minimal;
					bool const meshed = a->get_current_state().to_mesh[v];
					if(first || last) {
						on[last] += meshed;
						extra[last] += meshed && !rule;
						c.check(meshed || !rule, "extremity-angle", [&] { return cat("the angle at ", at(a), " of axis ", (int)axis, " gets no line"); });
					} else {
						c.check(meshed == rule, "inner-angle", [&] { return cat("the inner angle at ", at(a), " of axis ", (int)axis, ", of ", a->angle.value(), " degrees, gets ", meshed ? "a" : "no", " line"); });
						c.count(rule ? "inner_sharp" : "inner_flat");
					}
				}
				for(int k : { 0, 1 })
					c.check(on[k] >= 1 && extra[k] <= 1, "extremity-angle", [&] { return cat("the extremity of zone ", at(z.front()), "..", at(z.back()), " of axis ", (int)axis, " gets ", on[k], " lines, of which ", extra[k], " from flat angles"); });
				c.nontrivial(mix(hash_bytes(c.input) ^ (std::uint64_t)(at(z.front()) * 64) ^ (std::uint64_t)((int)axis * 4 + (int)plane) << 50));
			}
		}
	}

	// Intervals in a zone are limited to the diagonal dmax, others are not.
	s.app.run({ all_steps.begin() + 4, all_steps.begin() + 14 });
	for(Axis axis : AllAxis)
		for(auto const& i : b.get_intervals(axis)) {
			double const m = i->m.value();
			bool in = false;
			for(auto const& z : b.get_conflicts_diagonal_or_circular_zones(axis)) {
				auto const bb = z->bounding();
				in |= bb[XMIN].value() <= m && m <= bb[XMAX].value();
			}
			double const got = i->get_current_state().dmax;
			c.check(got == (in ? diagonal_dmax : dmax), "zone-dmax", [&] { return cat("the interval around ", m, " of axis ", (int)axis, ", ", in ? "in" : "out of", " diagonal zones, has dmax ", got); });
			c.count(in ? "intervals_in_zone" : "intervals_out_of_zone");
		}
}

//------------------------------------------------------------------------ P13
// What is edited is obeyed by what is processed next.
void p13(Ctx& c, Rng& r) {
	Run run_;
	if(!run(c, r, run_)) return;
	auto const& b = *run_.b;
	auto const& app = run_.s->app;
	auto const g = b.global_params->get_current_state();
	std::array<std::vector<double>, 3> was;
	auto const lines_of = [&](Axis axis) {
		std::vector<double> x;
		for(auto const& l : b.get_meshlines(axis)) x.push_back(l->coord.value());
		return x;
	};
	for(Axis axis : AllAxis) was[(std::size_t)axis] = lines_of(axis);
	std::array<bool, 3> touched {};
	auto const untouched = [&] {
		for(Axis axis : AllAxis)
			if(!touched[(std::size_t)axis]) {
				c.check(lines_of(axis) == was[(std::size_t)axis], "elsewhere", [&] { return cat("lines of axis ", (int)axis, " change, nothing that matters to it was edited"); });
				c.count("axes_untouched");
			}
	};
	std::string what;
	struct Want { double dmax; std::array<std::size_t, 2> lmin; std::array<double, 2> smoothness; };
	std::unordered_map<Interval const*, Want> want;
	std::unordered_map<MeshlinePolicy const*, MeshlinePolicyState> policies;
	switch(r.in(0, 4)) {
	case 0: { // Intervals.
		app.go_before(app::Step::MESH);
		std::vector<Interval*> all;
		for(Axis axis : AllAxis) for(auto const& i : b.get_intervals(axis)) all.push_back(i.get());
		if(all.empty()) return;
		for(long n = r.in(1, 3); n--;) {
			auto* const i = r.pick(all);
			double const whole = 2 * i->h.value();
			auto s = i->get_current_state();
			if(r.chance(50)) s.dmax = std::max(whole * r.pick({ 0.02, 0.1, 0.3, 2.0 }), 0.01);
			if(r.chance(50)) s.before.lmin = (std::size_t)r.in(0, 9);
			if(r.chance(50)) s.after.lmin = (std::size_t)r.in(0, 9);
			if(r.chance(50)) s.before.smoothness = r.pick({ 1.05, 1.2, 1.5, 2.0 });
			if(r.chance(50)) s.after.smoothness = r.pick({ 1.05, 1.2, 1.5, 2.0 });
			i->set_next_state(s);
			touched[(std::size_t)i->axis] = true;
			what += cat("interval around ", i->m.value(), " of axis ", (int)i->axis, ": dmax ", s.dmax, " lmin ", s.before.lmin, ",", s.after.lmin, " smoothness ", s.before.smoothness, ",", s.after.smoothness, "\n");
			c.count("intervals_edited");
		}
		for(Axis axis : AllAxis) for(auto const& i : b.get_intervals(axis)) {
			auto const& s = i->get_current_state();
			want[i.get()] = { s.dmax, { s.before.lmin, s.after.lmin }, { s.before.smoothness, s.after.smoothness } };
		}
		c.input += what;
		app.run_from_step(app::Step::MESH);
		for(Axis axis : AllAxis) {
			auto const x = lines_of(axis);
			for(auto const& i : b.get_intervals(axis)) {
				auto const it = want.find(i.get());
				c.check(it != want.end(), "interval-kept", "an interval appears");
				if(it == want.end()) continue;
				auto const& w = it->second;
				auto const& s = i->get_current_state();
				double const lo = s.before.meshline_policy->coord.value(), hi = s.after.meshline_policy->coord.value();
				for(auto const* p : { s.before.meshline_policy, s.after.meshline_policy })
					c.check(p->get_current_state().d <= w.dmax + 1e-7, "policy-dmax", [&] { return cat("the policy at ", p->coord.value(), " has d ", p->get_current_state().d, " beside an interval whose dmax is ", w.dmax); });
				for(std::size_t k = 1; k < x.size(); ++k)
					if(x[k-1] >= lo - 1e-9 && x[k] <= hi + 1e-9)
						c.check(x[k] - x[k-1] <= w.dmax + 1e-7, "interval-dmax", [&] { return cat("lines ", x[k-1], " and ", x[k], " of axis ", (int)axis, " are further apart than ", w.dmax); });
				check_halves(c, *i, x, w.lmin, w.smoothness);
			}
		}
		check_policies(c, b);
		untouched();
	} break;
	case 1: { // Policies.
		app.go_before(app::Step::DETECT_INTERVALS);
		std::vector<MeshlinePolicy*> all;
		for(Axis axis : AllAxis) for(auto const& p : b.get_meshline_policies(axis)) all.push_back(p.get());
		if(all.empty()) return;
		for(long n = r.in(1, 3); n--;) {
			auto* const p = r.pick(all);
			auto s = p->get_current_state();
			if(!s.is_enabled) continue; // Was given up for an other one.
			using P = MeshlinePolicy;
			switch(r.in(0, 4)) {
			case 0: s.is_enabled = false; break;
			case 1: s.policy = P::Policy::ONELINE; s.normal = P::Normal::NONE; break;
			case 2: s.policy = P::Policy::HALFS; s.normal = P::Normal::NONE; break;
			case 3: s.policy = P::Policy::THIRDS; s.normal = r.chance(50) ? P::Normal::MIN : P::Normal::MAX; break;
			default: s.d = r.pick({ 0.1, 0.4, 1.0 }); break;
			}
			p->set_next_state(s);
			policies.insert_or_assign(p, s);
			touched[(std::size_t)p->axis] = true;
			what += cat("policy at ", p->coord.value(), " of axis ", (int)p->axis, ": ", name(s.policy), " ", name(s.normal), " d ", s.d, s.is_enabled ? "" : " not enabled", "\n");
			c.count("policies_edited");
		}
		c.input += what;
		app.run_from_step(app::Step::DETECT_INTERVALS);
		for(auto const& [p, s] : policies) {
			auto const& now = p->get_current_state();
			c.check(now.policy == s.policy && now.normal == s.normal && now.is_enabled == s.is_enabled && now.d <= s.d, "policy-kept", [&] { return cat("the policy at ", p->coord.value(), " is not as edited"); });
		}
		check_intervals(c, b);
		check_policies(c, b);
		for(Axis axis : AllAxis) {
			auto const x = lines_of(axis);
			for(auto const& i : b.get_intervals(axis)) check_halves(c, *i, x, { g.lmin, g.lmin }, { g.smoothness, g.smoothness });
		}
		untouched();
	} break;
	case 2: { // What gets lines in a zone.
		app.go_before(app::Step::SOLVE_DIAG_ZONES_ANGLES);
		std::vector<ConflictDiagonalOrCircularZone*> all;
		for(Axis axis : AllAxis) for(auto const& z : b.get_conflicts_diagonal_or_circular_zones(axis)) all.push_back(z.get());
		if(all.empty()) return;
		auto* const z = r.pick(all);
		auto s = z->get_current_state();
		s.minimal_angle = r.pick({ 0.0, 10.0, 30.0, 60.0, 100.0, 181.0 });
		z->set_next_state(s);
		c.input += cat("minimal angle of a zone: ", s.minimal_angle, "\n");
		app.run({ app::Step::SOLVE_DIAG_ZONES_ANGLES });
		for(Axis axis : AllAxis)
			for(auto const& q : b.get_conflicts_diagonal_or_circular_zones(axis)) {
				auto const& as = q->get_current_state().angles;
				double const minimal = q.get() == z ? s.minimal_angle : g.consecutive_diagonal_minimal_angle;
				for(std::size_t k = 1; k + 1 < as.size(); ++k) {
					auto const& a = *as[k];
					ViewAxis const v = Axes[a.plane][H] == axis ? H : V;
					bool const meshed = a.get_current_state().to_mesh[v], rule = a.angle.value() >= minimal;
					c.check(meshed == rule, "zone-angle", [&] { return cat("an inner angle of ", a.angle.value(), " degrees gets ", meshed ? "a" : "no", " line in a zone whose minimal angle is ", minimal); });
					c.count(q.get() == z ? "inner_angles_edited" : "inner_angles");
				}
			}
		app.run_from_step(app::Step::DETECT_CONFLICT_EIP);
		check_policies(c, b);
	} break;
	case 3: { // How far apart lines are in a zone.
		app.go_before(app::Step::SOLVE_DIAG_ZONES_INTERVALS);
		std::vector<ConflictDiagonalOrCircularZone*> all;
		for(Axis axis : AllAxis) for(auto const& z : b.get_conflicts_diagonal_or_circular_zones(axis)) all.push_back(z.get());
		if(all.empty()) return;
		auto* const z = r.pick(all);
		auto s = z->get_current_state();
		s.dmax = r.pick({ 0.05, 0.3, 1.5 });
		z->set_next_state(s);
		c.input += cat("dmax of a zone: ", s.dmax, "\n");
		app.run({ app::Step::SOLVE_DIAG_ZONES_INTERVALS });
		auto const in = [](auto const& q, double m) { auto const bb = q.bounding(); return bb[XMIN].value() <= m && m <= bb[XMAX].value(); };
		for(Axis axis : AllAxis)
			for(auto const& i : b.get_intervals(axis)) {
				double const m = i->m.value();
				bool mine = false, other = false;
				for(auto const& q : b.get_conflicts_diagonal_or_circular_zones(axis)) (q.get() == z ? mine : other) |= in(*q, m);
				double const got = i->get_current_state().dmax;
				double const rule = mine ? s.dmax : other ? g.diagonal_dmax : g.dmax;
				c.check(got == rule || (mine && other && got == g.diagonal_dmax), "zone-dmax", [&] { return cat("the interval around ", m, " of axis ", (int)axis, " has dmax ", got, ", expected ", rule); });
				c.count(mine ? "intervals_in_edited_zone" : "intervals_elsewhere");
			}
		app.run_from_step(app::Step::MESH);
		check_policies(c, b);
	} break;
	default: { // Edges and angles.
		app.go_before(app::Step::SOLVE_ALL_CE);
		std::vector<Edge*> all;
		for(Plane plane : AllPlane) for(auto const& p : b.get_polygons(plane)) for(auto const& e : p->edges) if(is_h(*e) || is_v(*e)) all.push_back(e.get());
		if(all.empty()) return;
		std::unordered_map<Edge const*, EdgeState> edges;
		for(long n = r.in(1, 4); n--;) {
			auto* const e = r.pick(all);
			auto s = e->get_current_state();
			if(r.chance(60)) s.to_mesh = !s.to_mesh; else s.to_reverse = !s.to_reverse;
			e->set_next_state(s);
			edges.insert_or_assign(e, s);
			touched[(std::size_t)meshed_axis(e->plane, is_h(*e))] = true;
			what += cat("edge ", e->p0().x.value(), ",", e->p0().y.value(), " ", e->p1().x.value(), ",", e->p1().y.value(), " of plane ", (int)e->plane, s.to_mesh ? "" : " not to be meshed", s.to_reverse ? " reversed" : "", "\n");
			c.count("edges_edited");
		}
		c.input += what;
		app.run_from_step(app::Step::SOLVE_ALL_CE);
		for(auto const& [e, s] : edges) {
			auto const& now = e->get_current_state();
			c.check(now.to_mesh == s.to_mesh && now.to_reverse == s.to_reverse, "edge-kept", "an edge is not as edited");
		}
		// Places with edges to be meshed get a policy, whose direction is theirs if they agree; others get none from edges.
		for(Plane plane : AllPlane)
			for(bool h : { true, false }) {
				Axis const axis = meshed_axis(plane, h);
				auto const place = [&](Edge const& e) { return h ? e.p0().y.value() : e.p0().x.value(); };
				for(auto const& p : b.get_polygons(plane))
					for(auto const& e : p->edges) {
						if(!(h ? is_h(*e) : is_v(*e))) continue;
						bool alone = true; // No other edge of any plane at this place.
						for(Plane q : AllPlane) for(auto const& p2 : b.get_polygons(q)) for(auto const& e2 : p2->edges) {
							if(e2.get() == e.get()) continue;
							for(bool h2 : { true, false })
								if((h2 ? is_h(*e2) : is_v(*e2)) && meshed_axis(q, h2) == axis && std::abs((h2 ? e2->p0().y.value() : e2->p0().x.value()) - place(*e)) < 1e-7)
									alone = false;
						}
						if(!alone) continue;
						MeshlinePolicy const* found = nullptr;
						for(auto const& m : b.get_meshline_policies(axis))
							for(auto const* o : m->get_current_state().origins)
								if(o == static_cast<IMeshLineOrigin const*>(e.get())) found = m.get();
						c.check((found != nullptr) == e->get_current_state().to_mesh, "edge-policy", [&] { return cat("the edge at ", place(*e), " of axis ", (int)axis, ", alone there, ", e->get_current_state().to_mesh ? "to be meshed" : "not to be meshed", ", has ", found ? "a" : "no", " policy"); });
						if(found && found->get_current_state().policy == MeshlinePolicy::Policy::THIRDS)
							c.check(found->get_current_state().normal == effective(*e), "edge-direction", [&] { return cat("the policy of the edge at ", place(*e), " of axis ", (int)axis, " is not in its direction"); });
						c.count(edges.contains(e.get()) ? "edited_edges_alone" : "edges_alone");
					}
			}
		check_intervals(c, b);
		check_policies(c, b);
		untouched();
	} break;
	}
	c.nontrivial(hash_bytes(c.input));
}

} // namespace

int main(int argc, char** argv) {
	return run_main(argc, argv, { {
		{ "P01", p01 }, { "P02", p02 }, { "P03", p03 }, { "P04", p04 }, { "P05", p05 },
		{ "P06", p06 }, { "P07", p07 }, { "P08", p08 }, { "P09", p09 }, { "P13", p13 } }, {} });
}
