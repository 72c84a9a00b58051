// Histories: stepwise and repeated runs, going back, editing, undoing; and relations
// between runs of related structures.
#include <numeric>

#include "utils/progress.hpp"

#include "session.hpp"

using namespace vf;

namespace {

csx::Scene small_scene(Rng& r) {
	csx::Options o;
	o.diagonals = r.chance(50);
	o.curves = r.chance(20);
	o.extent = r.pick({ 5L, 8L, 12L });
	o.min_prims = 1;
	o.max_prims = r.chance(5) ? 0 : 4;
	o.min_prims = std::min(o.min_prims, o.max_prims);
	auto s = csx::random_scene(r, o);
	// Meshing itself costs the most: not too fine.
	if(s.globals.dmax && *s.globals.dmax < 2) s.globals.dmax = 2;
	s.globals.lmin = r.in(0, 3);
	return s;
}

std::size_t index(app::Step s) { return (std::size_t)(std::find(all_steps.begin(), all_steps.end(), s) - all_steps.begin()); }

//------------------------------------------------------------------------ P10
void p10(Ctx& c, Rng& r) {
	auto const scene = small_scene(r);
	auto const other = small_scene(r);
	auto const xml = csx::xml(scene), xml2 = csx::xml(other);
	c.input = cat(xml, "---- other:\n", xml2);
	c.sample(xml);
	std::vector<std::string> at; // Snapshots after k steps, one step at a time.
	std::string written;
	{
		Session s(c, xml);
		if(!s.parsed) return;
		c.check(!s.app.get_current_step().has_value(), "current-step", "a step is current before any is run");
		at.push_back(snapshot(s.board()));
		for(std::size_t k = 0; k < all_steps.size(); ++k) {
			c.check(s.app.can_run_a_next_step(), "can-run", [&] { return cat("no next step after ", k); });
			c.check(s.app.can_go_before() == (k > 0), "can-go-before", [&] { return cat("wrong possibility to go back after ", k, " steps"); });
			s.app.run_next_step();
			at.push_back(snapshot(s.board()));
			c.count("steps");
		}
		c.check(!s.app.can_run_a_next_step(), "can-run", "a step can be run after the last one");
		s.app.run_next_step();
		c.check(snapshot(s.board()) == at.back(), "step-beyond", "running a step after the last one changes something");
		if(auto w = s.app.write(); !w) c.fail("write", w.error());
		else written = read_file(s.out);
	}
	auto same = [&](std::string const& got, std::size_t k, char const* how) {
		c.check(got == at[k], how, [&] { return cat(how, ": after ", k, " steps: ", first_difference(at[k], got)); });
		c.count(how);
	};
	{
		Session s(c, xml);
		s.app.run_all_steps();
		same(snapshot(s.board()), 15, "at-once");
		if(auto w = s.app.write(); !w) c.fail("write", w.error());
		c.check(read_file(s.out) == written, "at-once-output", "the written file differs when run at once");
		// The same application on an other file, then back.
		s.app.set_input(c.scratch / "other.csx");
		write_file(c.scratch / "other.csx", xml2);
		auto r2 = s.app.parse();
		c.check(r2.has_value(), "parse", "an other file is refused");
		if(r2) s.app.run({ all_steps.begin(), all_steps.begin() + r.in(0, 15) });
		s.app.set_input(s.in);
		if(auto r3 = s.app.parse(); !r3) c.fail("parse", r3.error());
		same(snapshot(s.board()), 0, "parsed-again");
		std::size_t const k = (std::size_t)r.in(1, 14);
		s.app.run({ all_steps.begin(), all_steps.begin() + (long)k });
		same(snapshot(s.board()), k, "in-two-parts");
		s.app.run_from_step(all_steps[k]);
		same(snapshot(s.board()), 15, "in-two-parts");
		if(auto w = s.app.write(); !w) c.fail("write", w.error());
		c.check(read_file(s.out) == written, "again-output", "the written file differs after an other document");
	}
	c.nontrivial(hash_bytes(xml));
}

//------------------------------------------------------------------------ P11
// What a user did to reach a state, without what was undone.
struct Action {
	int step = -1; // Or an edit:
	int kind = 0;  // 0 global, 1 edge, 2 policy, 3 angle, 4 interval, 5 zone.
	std::uint64_t seed = 0;
	std::string str() const { return step >= 0 ? cat("step ", step) : cat("edit ", kind, "/", seed); }
};

// Applies an edit to whatever the board has at that moment. Tells whether there was something to edit.
bool edit(domain::Board const& b, int kind, std::uint64_t seed) {
	using namespace domain;
	Rng r(seed);
	switch(kind) {
	case 0: {
		auto p = b.global_params->get_current_state();
		p.proximity_limit = r.pick({ 0.0, 0.5, 1.0, 3.0 });
		p.smoothness = r.pick({ 1.2, 1.5, 2.0, 3.0 });
		p.dmax = r.pick({ 2.0, 4.0, 10.0 });
		p.lmin = (std::size_t)r.in(0, 3);
		p.diagonal_dmax = r.pick({ 0.5, 1.0, 2.0 });
		p.consecutive_diagonal_minimal_angle = r.pick({ 5.0, 20.0, 60.0 });
		b.global_params->set_next_state(p);
		return true;
	}
	case 1: {
		std::vector<Edge*> es;
		for(Plane p : AllPlane) for(auto const& q : b.get_polygons(p)) for(auto const& e : q->edges) es.push_back(e.get());
		if(es.empty()) return false;
		Edge* e = es[r.next() % es.size()];
		auto s = e->get_current_state();
		if(r.chance(50)) s.to_mesh = !s.to_mesh; else s.to_reverse = !s.to_reverse;
		e->set_next_state(s);
		return true;
	}
	case 2: {
		std::vector<MeshlinePolicy*> ps;
		for(Axis a : AllAxis) for(auto const& p : b.get_meshline_policies(a)) ps.push_back(p.get());
		if(ps.empty()) return false;
		auto* p = ps[r.next() % ps.size()];
		auto s = p->get_current_state();
		switch(r.in(0, 2)) {
		case 0: s.is_enabled = !s.is_enabled; break;
		case 1: s.policy = MeshlinePolicy::Policy::ONELINE; s.normal = MeshlinePolicy::Normal::NONE; break;
		default: s.d = r.pick({ 0.5, 1.0, 2.0 }); break;
		}
		p->set_next_state(s);
		return true;
	}
	case 3: {
		std::vector<Angle*> as;
		for(Plane p : AllPlane) for(auto const& a : b.get_angles(p)) as.push_back(a.get());
		if(as.empty()) return false;
		auto* a = as[r.next() % as.size()];
		auto s = a->get_current_state();
		auto const v = r.chance(50) ? H : V;
		s.to_mesh[v] = !s.to_mesh[v];
		a->set_next_state(s);
		return true;
	}
	case 4: {
		std::vector<Interval*> is;
		for(Axis a : AllAxis) for(auto const& i : b.get_intervals(a)) is.push_back(i.get());
		if(is.empty()) return false;
		auto* i = is[r.next() % is.size()];
		auto s = i->get_current_state();
		s.dmax = r.pick({ 0.5, 1.0, 2.0 });
		s.before.lmin = (std::size_t)r.in(0, 4);
		i->set_next_state(s);
		return true;
	}
	default: {
		std::vector<ConflictDiagonalOrCircularZone*> zs;
		for(Axis a : AllAxis) for(auto const& z : b.get_conflicts_diagonal_or_circular_zones(a)) zs.push_back(z.get());
		if(zs.empty()) return false;
		auto* z = zs[r.next() % zs.size()];
		auto s = z->get_current_state();
		s.dmax = r.pick({ 0.3, 0.7, 1.5 });
		z->set_next_state(s);
		return true;
	}
	}
}

// The step an edit is made before.
app::Step step_of(int kind) {
	using enum app::Step;
	switch(kind) {
	case 0: return DETECT_DIAG_ZONES;
	case 1: case 3: return SOLVE_ALL_CE;
	case 2: return DETECT_INTERVALS;
	case 4: return MESH;
	default: return SOLVE_DIAG_ZONES_INTERVALS;
	}
}

// States as a tree of actions, and the user's history of them.
struct Model {
	struct Node { int parent; Action action; int before = -1; }; // before: the step that was run from it.
	std::vector<Node> nodes { { -1, {}, -1 } };
	int at = 0;
	std::vector<int> history { 0 };
	int browser = -1; // Index in history, while it is browsed.

	int add(Action a) {
		if(browser >= 0) { // A new future.
			history.resize((std::size_t)browser + 1);
			browser = -1;
		}
		nodes.push_back({ at, a, -1 });
		return at = (int)nodes.size() - 1;
	}
	void remember() { if(history.back() != at) history.push_back(at); }
	void step(int s) {
		if(nodes[(std::size_t)at].before < 0) nodes[(std::size_t)at].before = s;
		add({ s });
	}
	int next_step() const {
		if(nodes[(std::size_t)at].before >= 0) return nodes[(std::size_t)at].before;
		for(int n = nodes[(std::size_t)at].parent; n >= 0; n = nodes[(std::size_t)n].parent)
			if(nodes[(std::size_t)n].before >= 0)
				return nodes[(std::size_t)n].before + 1;
		return 0;
	}
	int before(int s) const { // The node before a step, if it is behind.
		for(int n = at; n >= 0; n = nodes[(std::size_t)n].parent)
			if(nodes[(std::size_t)n].before == s)
				return n;
		return -1;
	}
	int previous() const {
		for(int n = nodes[(std::size_t)at].parent; n >= 0; n = nodes[(std::size_t)n].parent)
			if(nodes[(std::size_t)n].before >= 0)
				return n;
		return -1;
	}
	bool can_undo() const { return browser >= 0 ? browser > 0 : history.back() != at || history.size() > 1; }
	bool can_redo() const { return browser >= 0; }
	void undo() {
		if(browser < 0) {
			browser = (int)history.size() - 1;
			if(history.back() == at) --browser;
		} else
			--browser;
		settle();
	}
	void redo() { ++browser; settle(); }
	void settle() {
		at = history[(std::size_t)browser];
		if(browser == (int)history.size() - 1) browser = -1;
	}
	std::vector<Action> script(int n) const {
		std::vector<Action> v;
		for(; nodes[(std::size_t)n].parent >= 0; n = nodes[(std::size_t)n].parent)
			v.push_back(nodes[(std::size_t)n].action);
		std::reverse(v.begin(), v.end());
		return v;
	}
};

void p11(Ctx& c, Rng& r) {
	auto const scene = small_scene(r);
	auto const xml = csx::xml(scene);
	c.input = xml;
	bool const pins = r.chance(60); // As the GUI does for each state it shows.
	std::vector<std::pair<std::vector<Action>, std::string>> seen;
	std::string log;
	{
		Session s(c, xml);
		if(!s.parsed) return;
		Model m;
		auto& care = Caretaker::singleton();
		auto look = [&](std::string const& op) {
			log += op + "; ";
			c.input = cat(xml, "history: ", log);
			if(pins) care.pin_current_timepoint();
			c.check(care.can_undo() == m.can_undo(), "can-undo", [&] { return cat("after ", op, ": wrong possibility to undo"); });
			c.check(care.can_redo() == m.can_redo(), "can-redo", [&] { return cat("after ", op, ": wrong possibility to redo"); });
			c.check(s.app.can_run_a_next_step() == (m.next_step() < 15), "can-run", [&] { return cat("after ", op, ": wrong possibility to run a step"); });
			c.check(s.app.can_go_before() == (m.previous() >= 0), "can-go-before", [&] { return cat("after ", op, ": wrong possibility to go back"); });
			seen.emplace_back(m.script(m.at), snapshot(s.board()));
			c.count("states");
		};
		auto steps = [&](int from, int to) { for(int k = from; k < to; ++k) m.step(k); };
		look("parse");
		int const n = (int)r.in(4, 14);
		for(int k = 0; k < n; ++k) {
			int const next = m.next_step();
			switch(r.in(0, 9)) {
			case 0: case 1: // Everything that remains.
				if(next < 15) {
					s.app.run_from_step(all_steps[(std::size_t)next]);
					steps(next, 15);
					m.remember();
					look(cat("run from ", next));
					c.count("op_run");
				}
				break;
			case 2: case 3:
				for(long j = r.in(1, 5); j-- && m.next_step() < 15;) {
					s.app.run_next_step();
					m.step(m.next_step());
					m.remember();
					look("next");
					c.count("op_next");
				}
				break;
			case 4:
				for(long j = r.in(1, 4); j-- && m.previous() >= 0;) {
					if(m.browser >= 0) break; // How it mixes with browsing the history is not specified.
					s.app.go_before_previous_step();
					m.at = m.previous();
					m.remember();
					look("previous");
					c.count("op_previous");
				}
				break;
			case 5: case 6:
				for(long j = r.in(1, 3); j-- && m.can_undo();) {
					care.undo();
					m.undo();
					look("undo");
					c.count("op_undo");
				}
				break;
			case 7:
				for(long j = r.in(1, 3); j-- && m.can_redo();) {
					care.redo();
					m.redo();
					look("redo");
					c.count("op_redo");
				}
				break;
			default: { // An edit, from where it matters.
				int const kind = (int)r.in(0, 5);
				auto const from = step_of(kind);
				int const f = (int)index(from);
				if(m.before(f) < 0 && next != f) break;
				std::uint64_t const seed = r.next();
				s.app.go_before(from);
				if(m.before(f) >= 0) m.at = m.before(f);
				bool const edited = edit(s.board(), kind, seed);
				if(edited) m.add({ -1, kind, seed });
				s.app.run_from_step(from);
				steps(f, 15);
				m.remember();
				look(cat("edit ", kind, "/", seed, edited ? "" : " of nothing"));
				c.count(cat("op_edit_", kind, edited ? "" : "_of_nothing"));
			}
			}
		}
	}
	// Each state must be the one that a straight way leads to.
	std::map<std::string, std::string> straight;
	std::size_t checked = 0;
	for(auto const& [script, got] : seen) {
		std::string key;
		for(auto const& a : script) key += a.str() + ";";
		auto it = straight.find(key);
		if(it == straight.end()) {
			Session s(c, xml);
			for(auto const& a : script) {
				if(a.step >= 0) s.app.run({ all_steps[(std::size_t)a.step] });
				else edit(s.board(), a.kind, a.seed);
			}
			it = straight.emplace(key, snapshot(s.board())).first;
		}
		c.input = cat(xml, "history: ", log);
		c.check(got == it->second, "state", [&] { return cat("state ", checked, " of the history (", key, ") is not what the straight way gives: ", first_difference(it->second, got)); });
		++checked;
	}
	c.nontrivial(hash_bytes(c.input));
	c.sample(cat("history: ", log));
	c.count("straight_ways", (long)straight.size());
}

//------------------------------------------------------------------------ P12
struct Lines : std::array<std::vector<double>, 3> {
	// Three policies or more close to each other: which ones merge first can depend on a
	// distance between them that rounding alone decides.
	std::array<bool, 3> ambiguous {};
};

std::optional<Lines> lines_of(Ctx& c, csx::Scene const& s, double scale = 1) {
	Session x(c, csx::xml(s), "meta.csx");
	if(!x.parsed) return std::nullopt;
	if(scale != 1) { // Its lengths are those of the document, or the default ones.
		auto g = x.board().global_params->get_current_state();
		g.proximity_limit *= scale;
		g.dmax *= scale;
		g.diagonal_dmax *= scale;
		x.board().global_params->set_next_state(g);
	}
	Lines l;
	auto const tcmlp = all_steps.begin() + (long)index(app::Step::DETECT_AND_SOLVE_TCMLP);
	x.app.run({ all_steps.begin(), tcmlp });
	double const limit = x.board().global_params->get_current_state().proximity_limit;
	for(domain::Axis a : domain::AllAxis) {
		std::vector<double> at;
		for(auto const& p : x.board().get_meshline_policies(a))
			if(p->get_current_state().is_enabled)
				at.push_back(p->coord.value());
		std::ranges::sort(at);
		std::size_t chain = 0;
		for(std::size_t i = 1; i < at.size(); ++i) {
			double const gap = at[i] - at[i-1];
			if(gap < 1e-6 * std::min(scale, 1.)) continue;
			if(gap > limit * 1.01 + 1e-6 * std::min(scale, 1.)) chain = 0;
			else if(++chain >= 2) l.ambiguous[a] = true;
		}
	}
	x.app.run_from_step(*tcmlp);
	for(domain::Axis a : domain::AllAxis)
		for(auto const& m : x.board().get_meshlines(a))
			l[a].push_back(m->coord.value());
	return l;
}

void each_point(csx::Scene& s, std::function<void (csx::V3&)> const& f) {
	// Polygons: X1, X2 are the axes after the normal one, in turn.
	for(auto& p : s.props)
		for(auto& q : p.prims) {
			for(auto& v : q.pts) f(v);
			if(q.kind == csx::LINPOLY || q.kind == csx::POLYGON) {
				double e = q.elevation;
				for(auto& v : q.outline) {
					csx::V3 w;
					w[(std::size_t)q.normal] = q.elevation;
					w[(std::size_t)(q.normal + 1) % 3] = v[0];
					w[(std::size_t)(q.normal + 2) % 3] = v[1];
					f(w);
					e = w[(std::size_t)q.normal];
					v = { w[(std::size_t)(q.normal + 1) % 3], w[(std::size_t)(q.normal + 2) % 3] };
				}
				q.elevation = e;
			}
		}
}

void p12(Ctx& c, Rng& r) {
	auto scene = small_scene(r);
	if(r.chance(60)) scene.globals.proximity = r.pick({ 0.0, 0.25, 0.6 });
	c.input = csx::xml(scene);
	auto const ref = lines_of(c, scene);
	if(!ref) return;
	c.sample(c.input);
	csx::Scene other = scene;
	Lines want = *ref;
	std::string how;
	double scale = 1, far = 1;
	auto const has_diagonals = [&] {
		bool diagonals = false;
		for(auto const& p : scene.props)
			for(auto const& q : p.prims) {
				diagonals |= q.kind == csx::SPHERE || q.kind == csx::CYLINDER;
				for(std::size_t i = 0; i < q.outline.size(); ++i) {
					auto const& v = q.outline[i];
					auto const& w = q.outline[(i + 1) % q.outline.size()];
					diagonals |= v[0] != w[0] && v[1] != w[1];
				}
			}
		return diagonals;
	};
	switch(r.in(0, 5)) {
	case 4: { // Larger or smaller: powers of two round the same.
		how = "scaled";
		scale = r.pick({ 0.125, 0.25, 0.5, 2., 8., 64., 1024. });
		each_point(other, [&](csx::V3& v) { for(auto& k : v) k *= scale; });
		for(auto& p : other.props) for(auto& q : p.prims) { q.radius *= scale; q.length *= scale; }
		for(std::size_t a = 0; a < 3; ++a) {
			for(auto& v : other.fixed[a]) v *= scale;
			for(auto& v : want[a]) v *= scale;
		}
	} break;
	case 5: { // As in a mirror.
		how = "mirrored";
		if(has_diagonals()) return; // The angle at a crossing is the one between the directions the edges are drawn in.
		auto const a = (std::size_t)r.in(0, 2);
		each_point(other, [&](csx::V3& v) { v[a] = v[a] == 0 ? 0 : -v[a]; });
		for(auto& p : other.props) for(auto& q : p.prims) if((std::size_t)q.normal == a && q.kind == csx::LINPOLY) q.length = -q.length;
		for(auto& v : other.fixed[a]) v = v == 0 ? 0 : -v;
		for(auto& v : want[a]) v = -v;
		std::ranges::reverse(want[a]);
	} break;
	case 0: { // Elsewhere.
		how = "translated";
		csx::V3 by;
		far = r.chance(25) ? r.pick({ 1024., 16384. }) : 1;
		for(auto& k : by) k = (double)r.in(-40, 40) * scene.unit * far;
		each_point(other, [&](csx::V3& v) { for(std::size_t a = 0; a < 3; ++a) v[a] += by[a]; });
		for(std::size_t a = 0; a < 3; ++a) {
			for(auto& v : other.fixed[a]) v += by[a];
			for(auto& v : want[a]) v += by[a];
		}
	} break;
	case 1: { // Axes in turn.
		how = "turned";
		each_point(other, [&](csx::V3& v) { v = { v[2], v[0], v[1] }; });
		// each_point kept the normals: put the outlines back, turn the normals instead.
		for(std::size_t i = 0; i < other.props.size(); ++i)
			for(std::size_t j = 0; j < other.props[i].prims.size(); ++j) {
				auto& q = other.props[i].prims[j];
				auto const& o = scene.props[i].prims[j];
				if(q.kind == csx::LINPOLY || q.kind == csx::POLYGON) {
					q.outline = o.outline;
					q.elevation = o.elevation;
					q.normal = (o.normal + 1) % 3;
				}
			}
		other.fixed = { scene.fixed[2], scene.fixed[0], scene.fixed[1] };
		want = { (*ref)[2], (*ref)[0], (*ref)[1] };
	} break;
	case 2: { // In an other order.
		how = "shuffled";
		for(auto& p : other.props)
			for(std::size_t i = p.prims.size(); i > 1; --i)
				std::swap(p.prims[i-1], p.prims[r.next() % i]);
		for(std::size_t i = other.props.size(); i > 1; --i)
			std::swap(other.props[i-1], other.props[r.next() % i]);
	} break;
	default: { // Outlines from an other vertex, in the other direction; boxes by other corners.
		how = "redrawn";
		// The angle at a crossing is the one between the directions the edges are drawn in.
		bool const diagonals = has_diagonals();
		for(auto& p : other.props)
			for(auto& q : p.prims) {
				if(!q.outline.empty()) {
					if(!diagonals && r.chance(50)) std::reverse(q.outline.begin(), q.outline.end());
					std::rotate(q.outline.begin(), q.outline.begin() + (long)(r.next() % q.outline.size()), q.outline.end());
				}
				if(q.kind == csx::BOX || q.kind == csx::MULTIBOX)
					for(std::size_t i = 0; i + 1 < q.pts.size(); i += 2)
						for(std::size_t a = 0; a < 3; ++a)
							if(!diagonals && r.chance(50)) std::swap(q.pts[i][a], q.pts[i+1][a]);
				if(q.kind == csx::LINPOLY && q.length != 0 && !diagonals && r.chance(50)) {
					q.elevation += q.length;
					q.length = -q.length;
				}
			}
	} break;
	}
	c.input = cat(csx::xml(scene), "---- ", how, ":\n", csx::xml(other));
	auto const got = lines_of(c, other, scale);
	if(!got) return;
	double const slack = how == "scaled" ? 1e-4 * scale : 1e-6 * std::max(far / 64, 1.); // Tolerances are not scaled.
	std::size_t n = 0;
	std::array<bool, 3> ambiguous = ref->ambiguous;
	if(how == "turned") ambiguous = { ref->ambiguous[2], ref->ambiguous[0], ref->ambiguous[1] };
	for(std::size_t a = 0; a < 3; ++a) {
		if(ambiguous[a]) { c.count("ambiguous_axes"); continue; }
		bool same = (*got)[a].size() == want[a].size();
		for(std::size_t i = 0; same && i < want[a].size(); ++i)
			same = std::abs((*got)[a][i] - want[a][i]) < slack;
		c.check(same, how, [&] {
			std::string m = cat(how, ": axis ", a, ": ", (*got)[a].size(), " lines, expected ", want[a].size());
			for(std::size_t i = 0; i < std::min(want[a].size(), (*got)[a].size()); ++i)
				if(std::abs((*got)[a][i] - want[a][i]) >= slack) { m += cat("; line ", i, " is ", (*got)[a][i], " instead of ", want[a][i]); break; }
			return m;
		});
		n += want[a].size();
	}
	c.count(how);
	c.count("lines", (long)n);
	if(n) c.nontrivial(hash_bytes(c.input));
}

//------------------------------------------------------------------------ U03
// What progress displays are told.
struct Told {
	std::string message;
	std::size_t max = 0;
	std::vector<std::array<std::size_t, 2>> ticks; // Found, done.
	std::vector<bool> both;
	int completed = 0;
	bool after_end = false, gone = false;
};
std::vector<std::shared_ptr<Told>> told;

struct BarSpy : Progress::IBar {
	std::shared_ptr<Told> t;
	explicit BarSpy(std::shared_ptr<Told> t) : t(std::move(t)) {}
	~BarSpy() override { t->gone = true; }
	void tick(std::size_t i) override { t->after_end |= t->completed > 0; t->ticks.push_back({ 0, i + 1 }); t->both.push_back(false); }
	void tick(std::size_t i, std::size_t j) override { t->after_end |= t->completed > 0; t->ticks.push_back({ i, j }); t->both.push_back(true); }
	void complete() override { ++t->completed; }
};

void u03(Ctx& c, Rng& r) {
	static bool const registered = [] {
		Progress::singleton().register_impl_builder([](std::size_t max, std::string const& message) {
			auto t = std::make_shared<Told>();
			t->message = message;
			t->max = max;
			told.push_back(t);
			return std::make_unique<BarSpy>(t);
		});
		return true;
	}();
	(void)registered;
	auto const scene = small_scene(r);
	auto const xml = csx::xml(scene);
	c.input = xml;
	c.sample(xml);
	told.clear();
	auto look = [&](std::string const& what) {
		for(auto const& t : told) {
			auto const about = [&] { return cat(what, ": \"", t->message, "\" of ", t->max, ": "); };
			c.check(!t->message.empty(), "message", [&] { return about() + "nothing says what progresses"; });
			c.check(t->completed == 1, "completed", [&] { return cat(about(), "told ", t->completed, " times it is over"); });
			c.check(t->gone, "left", [&] { return about() + "is left behind"; });
			c.check(!t->after_end, "after-end", [&] { return about() + "goes on once it is over"; });
			std::array<std::size_t, 2> last { 0, 0 };
			for(auto const& k : t->ticks) {
				c.check(k[1] >= last[1] && k[0] >= last[0], "backwards", [&] { return cat(about(), "goes from ", last[0], "/", last[1], " back to ", k[0], "/", k[1]); });
				c.check(k[1] <= t->max, "beyond", [&] { return cat(about(), "goes up to ", k[1]); });
				last = k;
			}
			c.check(t->max < 2 || !t->ticks.empty(), "silent", [&] { return about() + "tells nothing"; });
			if(last[1] == t->max) c.count("bars full");
			c.count("bars");
			c.count("ticks", (long)t->ticks.size());
		}
		told.clear();
	};
	Session s(c, xml);
	look("reading");
	if(!s.parsed) return;
	for(auto step : all_steps) {
		s.app.run({ step });
		look(cat("step ", (int)index(step)));
	}
	c.nontrivial(hash_bytes(xml));
}

} // namespace

int main(int argc, char** argv) {
	return run_main(argc, argv, { { { "P10", p10 }, { "P11", p11 }, { "P12", p12 }, { "U03", u03 } }, {} });
}
