// Files in and out: what the parser makes of a document, what the serializers write.
#include <algorithm>
#include <charconv>
#include <regex>

#include <pugixml.hpp>

#include "infra/serializers/serializer_to_plantuml.hpp"
#include "domain/material.hpp"
#include "utils/logger.hpp"
#include "utils/progress.hpp"

#include "session.hpp"

using namespace vf;

namespace {

// Adds what looks like the structure and is not: the one under openEMS comes first.
std::string with_rival(Rng& r, csx::Scene const& s, std::string xml) {
	if(!r.chance(25)) return xml;
	if(!s.under_openems) return r.chance(50) ? xml + "<openEMS><FDTD/></openEMS>\n" : xml;
	std::string const rival = "<ContinuousStructure CoordSystem=\"0\" DeltaUnit=\"10\"><RectilinearGrid><XLines>5,6</XLines></RectilinearGrid><Properties><Metal Name=\"rival\"><Primitives>"
		"<Box Priority=\"9\"><P1 X=\"-3\" Y=\"-3\" Z=\"-3\"/><P2 X=\"2\" Y=\"2\" Z=\"2\"/></Box></Primitives></Metal></Properties></ContinuousStructure>\n";
	auto const k = xml.find("<openEMS");
	if(r.chance(50) || k == std::string::npos) return xml + rival;
	return xml.substr(0, k) + rival + xml.substr(k);
}

//------------------------------------------------------- what the parser says
struct Recorder : Logger::ISink {
	static inline std::vector<Logger::LogEvent> events;
	Logger::UserAction log(Logger::LogEvent const& e) const override { events.push_back(e); return Logger::UserAction::NOTHING; }
};
struct Bar : Progress::IBar {
	static inline std::vector<std::size_t> maxs, found;
	static inline std::vector<std::pair<std::size_t, std::size_t>> last;
	void tick(std::size_t) override {}
	void tick(std::size_t i, std::size_t j) override { last.emplace_back(i, j); }
	void complete() override {}
};
void record() {
	static bool const once = [] {
		Logger::singleton().register_sink(Logger::id("recorder"), std::make_unique<Recorder>());
		return true;
	}();
	(void)once;
	Recorder::events.clear();
}

//---------------------------------------------------------- expected polygons
struct Shape {
	std::string name;
	std::size_t priority;
	csx::Type type;
	std::string material;
	double zmin, zmax;
	std::vector<std::array<double, 2>> points; // Empty for a circle.
	std::array<double, 2> center {};
	double radius = 0;
};
struct Expected {
	std::array<std::vector<Shape>, 3> shapes; // By plane.
	std::array<std::vector<double>, 3> lines; // By axis, fixed ones.
	std::size_t found = 0, all = 0;
};

csx::Type type_of(csx::Prop const& p) {
	if(p.tag == "Metal" || p.tag == "ConductingSheet") return csx::CONDUCTOR;
	if(p.tag == "LumpedElement" || p.tag == "Excitation" || p.tag == "ProbeBox") return csx::PORT;
	double const e = p.has_property_node ? p.epsilon : 1, m = p.has_property_node ? p.mue : 1, k = p.has_property_node ? p.kappa : 0;
	if(e == 1 && m == 1 && k == 0) return csx::AIR;
	if(e == 1 && m == 1 && k > 0) return csx::CONDUCTOR;
	return csx::DIELECTRIC;
}
bool is_material(std::string const& tag) {
	static std::set<std::string> const s { "Metal", "ConductingSheet", "LumpedElement", "Excitation", "ProbeBox", "Material", "DispersiveMaterial", "DebyeMaterial", "LorentzMaterial" };
	return s.contains(tag);
}

// The plane that has this normal, and its two axes in the order of the plane.
constexpr int first_axis(int normal) { return (normal + 1) % 3; }
constexpr int second_axis(int normal) { return (normal + 2) % 3; }

Expected expect_of(csx::Scene const& s, std::array<bool, 3> with, bool keep_old) {
	Expected e;
	std::size_t id = 0;
	for(auto const& prop : s.props) {
		auto const type = type_of(prop);
		for(auto const& p : prop.prims) {
			auto const name = cat(prop.name, "::", id++);
			if(!is_material(prop.tag) || p.transformed || p.kind == csx::OTHER) continue;
			std::size_t const prio = type == csx::PORT || p.kind == csx::CURVE ? std::numeric_limits<std::size_t>::max() : p.priority;
			++e.found;
			auto add = [&](int normal, double z0, double z1, std::vector<std::array<double, 2>> pts) {
				if(!with[normal]) return;
				e.shapes[normal].push_back({ name, prio, type, prop.name, std::min(z0, z1), std::max(z0, z1), std::move(pts) });
			};
			auto box = [&](csx::V3 a, csx::V3 b) {
				for(int n = 0; n < 3; ++n) {
					int const u = first_axis(n), v = second_axis(n);
					add(n, a[n], b[n], { { a[u], a[v] }, { a[u], b[v] }, { b[u], b[v] }, { b[u], a[v] } });
				}
			};
			auto circle = [&](int n, double z0, double z1, csx::V3 const& c) {
				if(!with[n]) return;
				Shape sh { name, prio, type, prop.name, std::min(z0, z1), std::max(z0, z1), {} };
				sh.center = { c[first_axis(n)], c[second_axis(n)] };
				sh.radius = p.radius;
				e.shapes[n].push_back(sh);
			};
			switch(p.kind) {
			case csx::BOX: box(p.pts[0], p.pts[1]); break;
			case csx::MULTIBOX: for(std::size_t i = 0; i + 1 < p.pts.size(); i += 2) box(p.pts[i], p.pts[i+1]); break;
			case csx::LINPOLY:
			case csx::POLYGON: {
				int const n = p.normal, u = first_axis(n), v = second_axis(n);
				double const top = p.elevation + (p.kind == csx::LINPOLY ? p.length : 0);
				double const lo = p.elevation;
				std::array<double, 3> mn {}, mx {};
				mn[u] = mx[u] = p.outline[0][0];
				mn[v] = mx[v] = p.outline[0][1];
				for(auto const& q : p.outline) {
					mn[u] = std::min(mn[u], q[0]); mx[u] = std::max(mx[u], q[0]);
					mn[v] = std::min(mn[v], q[1]); mx[v] = std::max(mx[v], q[1]);
				}
				mn[n] = lo; mx[n] = top;
				add(n, lo, top, p.outline);
				if(p.kind == csx::LINPOLY && p.length != 0)
					for(int m : { u, v })
						add(m, mn[m], mx[m], { { mn[first_axis(m)], mn[second_axis(m)] }, { mn[first_axis(m)], mx[second_axis(m)] }, { mx[first_axis(m)], mx[second_axis(m)] }, { mx[first_axis(m)], mn[second_axis(m)] } });
				if(p.kind == csx::POLYGON) e.lines[n].push_back(lo);
				break;
			}
			case csx::SPHERE:
				for(int n = 0; n < 3; ++n) circle(n, p.pts[0][n] - p.radius, p.pts[0][n] + p.radius, p.pts[0]);
				break;
			case csx::CYLINDER: {
				int axis = -1, differ = 0;
				for(int i = 0; i < 3; ++i) if(p.pts[0][i] != p.pts[1][i]) { axis = i; ++differ; }
				if(differ > 1) { --e.found; ++e.found; break; } // Told, see warnings.
				for(int n = 0; n < 3; ++n) {
					if(n == axis) { circle(n, p.pts[0][n], p.pts[1][n], p.pts[0]); continue; }
					csx::V3 a = p.pts[0], b = p.pts[1];
					for(int i = 0; i < 3; ++i) if(i != axis) { a[i] -= p.radius; b[i] += p.radius; }
					int const u = first_axis(n), v = second_axis(n);
					add(n, a[n], b[n], { { a[u], a[v] }, { a[u], b[v] }, { b[u], b[v] }, { b[u], a[v] } });
				}
				break;
			}
			case csx::POINT:
				for(int n = 0; n < 3; ++n)
					if(with[n]) {
						e.lines[first_axis(n)].push_back(p.pts[0][first_axis(n)]);
						e.lines[second_axis(n)].push_back(p.pts[0][second_axis(n)]);
					}
				break;
			case csx::CURVE:
				for(int n = 0; n < 3; ++n) {
					double lo = p.pts[0][n], hi = lo;
					std::vector<std::array<double, 2>> pts;
					for(auto const& q : p.pts) { lo = std::min(lo, q[n]); hi = std::max(hi, q[n]); pts.push_back({ q[first_axis(n)], q[second_axis(n)] }); }
					for(std::size_t i = p.pts.size() - 1; i-- > 1;) pts.push_back({ p.pts[i][first_axis(n)], p.pts[i][second_axis(n)] });
					add(n, lo, hi, pts);
				}
				break;
			case csx::OTHER: break;
			}
		}
	}
	e.all = id;
	if(s.write_oemsh)
		for(int a = 0; a < 3; ++a)
			for(double v : s.fixed[a]) e.lines[a].push_back(v * s.fixed_delta_unit);
	if(keep_old)
		for(int a = 0; a < 3; ++a)
			for(double v : s.grid[a]) e.lines[a].push_back(v);
	return e;
}

bool close(double a, double b) { return std::abs(a - b) <= 1e-9 * std::max(1.0, std::max(std::abs(a), std::abs(b))); }

// Same outline, from whatever vertex, in whatever direction.
bool same_outline(std::vector<std::array<double, 2>> const& a, std::vector<std::array<double, 2>> const& b) {
	if(a.size() != b.size()) return false;
	std::size_t const n = a.size();
	for(std::size_t o = 0; o < n; ++o)
		for(int dir : { 1, -1 }) {
			bool ok = true;
			for(std::size_t i = 0; ok && i < n; ++i) {
				auto const& q = b[(o + (dir > 0 ? i : n * 2 - i)) % n];
				ok = close(a[i][0], q[0]) && close(a[i][1], q[1]);
			}
			if(ok) return true;
		}
	return false;
}

domain::Plane const planes[3] { domain::YZ, domain::ZX, domain::XY }; // By normal.
domain::Axis const axes[3] { domain::X, domain::Y, domain::Z };

csx::Type type_of(domain::Material const& m) {
	switch(m.type) {
	case domain::Material::Type::PORT: return csx::PORT;
	case domain::Material::Type::CONDUCTOR: return csx::CONDUCTOR;
	case domain::Material::Type::DIELECTRIC: return csx::DIELECTRIC;
	default: return csx::AIR;
	}
}

void compare_shapes(Ctx& c, domain::Board const& b, Expected const& e) {
	static char const* const names[] = { "YZ", "ZX", "XY" };
	for(int n = 0; n < 3; ++n) {
		auto const& got = b.get_polygons(planes[n]);
		if(got.size() != e.shapes[n].size()) {
			c.fail("shapes", cat(got.size(), " shapes in ", names[n], ", expected ", e.shapes[n].size()));
			continue;
		}
		for(std::size_t i = 0; i < got.size(); ++i) {
			auto const& g = *got[i];
			auto const& w = e.shapes[n][i];
			auto const who = cat("shape ", i, " (", w.name, ") of ", names[n], ": ");
			c.count("shapes_compared");
			c.check(g.name == w.name, "name", [&] { return who + "named " + g.name; });
			c.check(g.plane == planes[n], "plane", [&] { return who + "of another plane"; });
			c.check(g.priority == w.priority, "priority", [&] { return cat(who, "priority ", g.priority, " instead of ", w.priority); });
			c.check(g.material && g.material->name == w.material && type_of(*g.material) == w.type, "material", [&] { return cat(who, "material of type ", g.material ? (int)type_of(*g.material) : -1, " instead of ", (int)w.type); });
			c.check(close(g.z_placement.min.value(), w.zmin) && close(g.z_placement.max.value(), w.zmax), "placement",
				[&] { return cat(who, "placed from ", g.z_placement.min.value(), " to ", g.z_placement.max.value(), " instead of ", w.zmin, " to ", w.zmax); });
			std::vector<std::array<double, 2>> pts;
			for(auto const& p : g.points) pts.push_back({ p->x.value(), p->y.value() });
			if(w.radius == 0) {
				c.check(same_outline(w.points, pts), "outline", [&] {
					std::string s = who + "outline";
					for(auto const& p : pts) s += cat(" (", p[0], ",", p[1], ")");
					s += " instead of";
					for(auto const& p : w.points) s += cat(" (", p[0], ",", p[1], ")");
					return s;
				});
			} else {
				bool ok = pts.size() >= 12;
				for(auto const& p : pts) ok = ok && std::abs(std::hypot(p[0] - w.center[0], p[1] - w.center[1]) - w.radius) < 1e-7 * std::max(1.0, w.radius);
				c.check(ok, "circle", [&] { return cat(who, "not a circle of radius ", w.radius, " around (", w.center[0], ",", w.center[1], ")"); });
				c.count("circles_compared");
			}
		}
	}
}

std::vector<double> distinct(std::vector<double> v) {
	std::ranges::sort(v);
	std::vector<double> o;
	for(double x : v) if(o.empty() || std::abs(x - o.back()) > 1e-8) o.push_back(x);
	return o;
}

// Fixed lines, as the policies that their step adds.
void compare_lines(Ctx& c, app::OpenEMSH& a, Expected const& e) {
	a.run({ app::Step::ADD_FIXED_MLP });
	for(int x = 0; x < 3; ++x) {
		std::vector<double> got;
		for(auto const& p : a.get_board().get_meshline_policies(axes[x])) {
			got.push_back(p->coord.value());
			c.check(p->get_current_state().policy == domain::MeshlinePolicy::Policy::ONELINE && p->get_current_state().is_enabled,
				"fixed-kind", "a fixed line is not an enabled single line");
		}
		std::ranges::sort(got);
		auto const want = distinct(e.lines[x]);
		bool ok = got.size() == want.size();
		for(std::size_t i = 0; ok && i < got.size(); ++i) ok = std::abs(got[i] - want[i]) < 2e-8 + 1e-12 * std::abs(want[i]);
		c.check(ok, "fixed-lines", [&] {
			std::string s = cat("fixed lines of ", "XYZ"[x], ":");
			for(double v : got) s += cat(" ", v);
			s += ", expected";
			for(double v : want) s += cat(" ", v);
			return s;
		});
		c.count("fixed_lines", (long)want.size());
	}
}

//------------------------------------------------------------------------ I01
csx::Scene any_scene(Rng& r) {
	csx::Options o;
	o.diagonals = true;
	o.round = true;
	o.curves = true;
	o.any_unit = true;
	o.extent = r.pick({ 6L, 12L, 40L });
	o.max_prims = 8;
	o.min_prims = 0;
	auto s = csx::random_scene(r, o);
	s.under_openems = r.chance(70);
	s.write_oemsh = r.chance(80);
	for(auto& p : s.props)
		for(auto& q : p.prims) {
			if(r.chance(10)) q.priority = r.pick({ 7u, 100u, 65536u, 4294967295u });
			if(r.chance(10)) for(auto& v : q.pts) for(auto& x : v) x = -x * 1.5;
			if(r.chance(10)) q.elevation = -q.elevation;
		}
	return s;
}

bool g_plain = false;

app::OpenEMSH open(Ctx& c, std::string const& xml, std::function<void (app::OpenEMSH::Params&)> const& tune = [](auto&) {}) {
	app::OpenEMSH::Params p;
	p.input = c.scratch / "in.csx";
	p.output = c.scratch / "out.csx";
	p.override_from_cli = [](domain::Params&) {};
	tune(p);
	write_file(p.input, xml);
	return app::OpenEMSH(p);
}

// Primitives that are numbered but not meshed, and transformations that do not transform.
void leave_aside(Rng& r, csx::Prim& q) {
	static std::string const move = "<Translate Argument=\"1,2,3\"/>", turn = "<Rotate_X Argument=\"0.5\"/>";
	if(r.chance(8)) {
		q.transformed = true;
		q.transformation = cat("<Transformation>", r.pick({ move, turn, move + turn, std::string("<Matrix>1,0,0,5</Matrix>") }), "</Transformation>");
	} else if(r.chance(8)) {
		q.kind = csx::OTHER;
		q.other = r.pick({ "Polyhedron", "PolyhedronReader", "RotPoly", "SphericalShell", "CylindricalShell", "Wire", "User-Defined", "Whatever" });
	} else if(r.chance(8)) q.void_transformation = true;
}
void leave_aside(Rng& r, csx::Scene& s) {
	if(r.chance(60)) for(auto& p : s.props) for(auto& q : p.prims) leave_aside(r, q);
}

void i01(Ctx& c, Rng& r) {
	auto s = any_scene(r);
	if(r.chance(30))
		for(auto& p : s.props) { csx::Prim q; q.kind = csx::POINT; q.pts = { { (double)r.in(-9, 9), (double)r.in(-9, 9), (double)r.in(-9, 9) } }; if(r.chance(50)) p.prims.push_back(q); }
	leave_aside(r, s);
	auto const xml = with_rival(r, s, csx::xml(s));
	c.input = xml;
	c.sample(xml);
	auto a = open(c, xml);
	if(auto res = a.parse(); !res) { c.fail("parse", cat("a well-formed file is refused: ", res.error())); return; }
	for(auto const& p : s.props) for(auto const& q : p.prims) if(q.transformed || q.kind == csx::OTHER) c.count("left_aside");
	auto const e = expect_of(s, { true, true, true }, false);
	compare_shapes(c, a.get_board(), e);
	compare_lines(c, a, e);
	for(auto const& p : s.props) for(auto const& q : p.prims) c.count(cat("kind_", (int)q.kind));
	if(e.found) c.nontrivial(hash_bytes(xml));
}

//------------------------------------------------------------------------ I02
void i02(Ctx& c, Rng& r) {
	auto s = any_scene(r);
	std::set<std::string> bad_props_t, bad_props_n, bad_prims_t, bad_prims_n;
	std::map<std::string, std::array<std::optional<std::array<int, 4>>, 2>> colors;
	for(std::size_t i = 0; i < s.props.size(); ++i) {
		auto& p = s.props[i];
		p.name = r.pick({ "copper", "FR4 é", "a &amp; b", "::", "x", "0" }) + std::string("-") + std::to_string(i);
		int const k = (int)r.in(0, 99);
		if(k < 12) p.tag = r.pick({ "DumpBox", "ResBox", "DiscMaterial", "Unknown" });
		else if(k < 18) p.tag = r.pick({ "Something", "metal" });
		else if(k < 40) {
			p.tag = r.pick({ "Material", "DispersiveMaterial", "DebyeMaterial", "LorentzMaterial" });
			p.has_property_node = r.chance(85);
			p.epsilon = r.pick({ 1.0, 1.0, 2.2, 1.0000001, 10.0 });
			p.mue = r.pick({ 1.0, 1.0, 1.0, 4.0 });
			p.kappa = r.pick({ 0.0, 0.0, 1e-9, 5.8e7 });
		}
		for(int w = 0; w < 2; ++w)
			if(r.chance(50)) {
				std::array<int, 4> v;
				for(auto& x : v) x = (int)r.in(0, 255);
				colors[p.name][w] = v;
				p.extra += cat("<", w ? "EdgeColor" : "FillColor", " R=\"", v[0], "\" G=\"", v[1], "\" B=\"", v[2], "\" a=\"", v[3], "\"/>");
			}
		for(auto& q : p.prims) {
			leave_aside(r, q);
			if(q.transformed || q.kind == csx::OTHER) continue;
			if(q.kind == csx::CYLINDER && r.chance(30)) { for(auto& x : q.pts[1]) x += 1.5; }
		}
	}
	auto const xml = csx::xml(s);
	c.input = xml;
	c.sample(xml);
	auto e = expect_of(s, { true, true, true }, false);
	static auto decode = [](std::string n) { auto const k = n.find("&amp;"); if(k != std::string::npos) n.replace(k, 5, "&"); return n; };
	for(auto& plane : e.shapes) for(auto& sh : plane) { sh.name = decode(sh.name); sh.material = decode(sh.material); }
	std::size_t id = 0;
	for(auto const& p : s.props) {
		if(p.tag == "DumpBox" || p.tag == "ResBox" || p.tag == "DiscMaterial" || p.tag == "Unknown") { bad_props_t.insert(p.tag); bad_props_n.insert(decode(p.name)); }
		static char const* const tags[] = { "Box", "MultiBox", "LinPoly", "Polygon", "Sphere", "Cylinder", "Point", "Curve" };
		for(auto const& q : p.prims) {
			auto const name = cat(decode(p.name), "::", id++);
			if(!is_material(p.tag)) continue;
			auto const tag = q.kind == csx::OTHER ? q.other : tags[q.kind];
			if(q.transformed) { bad_prims_t.insert("Transformed " + tag); bad_prims_n.insert(name); }
			else if(q.kind == csx::OTHER) { if(tag != "Whatever") { bad_prims_t.insert(tag); bad_prims_n.insert(name); } }
			else if(q.kind == csx::CYLINDER) {
				int differ = 0;
				for(int i = 0; i < 3; ++i) differ += q.pts[0][i] != q.pts[1][i];
				if(differ > 1) { bad_prims_t.insert("Cylinder (with diagonal axis)"); bad_prims_n.insert(name); }
			}
		}
	}
	record();
	auto a = open(c, xml);
	if(auto res = a.parse(); !res) { c.fail("parse", cat("a well-formed file is refused: ", res.error())); return; }
	compare_shapes(c, a.get_board(), e);
	// Materials: colors, one object per property, background.
	for(int n = 0; n < 3; ++n)
		for(auto const& p : a.get_board().get_polygons(planes[n]))
			for(auto const& prop : s.props)
				if(decode(prop.name) == p->material->name)
					for(int w = 0; w < 2; ++w) {
						auto const& got = w ? p->material->edge_color : p->material->fill_color;
						auto const& want = colors[prop.name][w];
						bool ok = got.has_value() == want.has_value();
						if(ok && got) ok = got->r == (*want)[0] && got->g == (*want)[1] && got->b == (*want)[2] && got->a == (*want)[3];
						c.check(ok, "color", [&] { return cat("wrong ", w ? "edge" : "fill", " color of ", prop.name); });
						c.count(want ? "colors" : "no_colors");
					}
	auto const& bg = a.get_board().material;
	c.check((bool)bg == s.background.has_value(), "background", "the background material is not as in the file");
	if(bg && s.background) {
		csx::Prop p;
		p.tag = "Material";
		p.has_property_node = true;
		p.epsilon = (*s.background)[0]; p.mue = (*s.background)[1]; p.kappa = (*s.background)[2];
		c.check(type_of(*bg) == type_of(p), "background", "wrong kind of background material");
		c.count("backgrounds");
	}
	// Warnings: what is left aside is told, all of it, once.
	auto split = [](std::string const& s) {
		std::set<std::string> o;
		std::size_t from = 0;
		while(!s.empty()) {
			auto const k = s.find(", ", from);
			o.insert(s.substr(from, k == std::string::npos ? k : k - from));
			if(k == std::string::npos) break;
			from = k + 2;
		}
		return o;
	};
	int props = 0, prims = 0;
	for(auto const& ev : Recorder::events) {
		c.check(ev.level == Logger::Level::WARNING, "warning-level", "not a warning: " + ev.message);
		bool const prim = ev.message.find("Primitives") != std::string::npos;
		(prim ? prims : props)++;
		c.check(split(ev.informative) == (prim ? bad_prims_t : bad_props_t), "warning-kinds", [&] { return cat("told kinds: ", ev.informative); });
		c.check(split(ev.details) == (prim ? bad_prims_n : bad_props_n), "warning-names", [&] { return cat("told names: ", ev.details); });
		c.count(prim ? "warnings_primitives" : "warnings_properties");
	}
	c.check(props == (bad_props_t.empty() ? 0 : 1), "warning-count", [&] { return cat(props, " warnings about properties"); });
	c.check(prims == (bad_prims_t.empty() ? 0 : 1), "warning-count", [&] { return cat(prims, " warnings about primitives"); });
	if(e.all) c.nontrivial(hash_bytes(xml));
}

//------------------------------------------------------------------------ I03
std::string hostile_number(Rng& r) {
	switch(r.in(0, 14)) {
	case 0: return "nan";
	case 1: return "inf";
	case 2: return "-1";
	case 3: return "1e308";
	case 4: return "-1e308";
	case 5: return "1e-320";
	case 6: return "";
	case 7: return "abc";
	case 8: return "99999999999999999999999";
	case 9: return "0x10";
	case 10: return "1,2";
	case 11: return " 1 ";
	case 12: return "-0";
	case 13: return "4294967296";
	default: return std::to_string(r.in(-1000, 1000));
	}
}

void i03(Ctx& c, Rng& r) {
	auto s = any_scene(r);
	for(int a = 0; a < 3; ++a) for(long k = r.in(0, 2); k--;) s.grid[a].push_back((double)r.in(-5, 5));
	auto xml = csx::xml(s);
	bool const keep = r.chance(50);
	// A valid document is known to be there first.
	csx::Options o;
	o.extent = 6;
	o.max_prims = 2;
	auto const first = csx::xml(csx::random_scene(r, o));
	int const how = (int)r.in(0, 11);
	bool expect_error = false;
	char const* what = "";
	switch(how) {
	case 0: { // Some bytes.
		what = "bytes";
		for(long k = r.in(1, 6); k-- && !xml.empty();) {
			auto const at = (std::size_t)r.in(0, (long)xml.size() - 1);
			switch(r.in(0, 3)) {
			case 0: xml[at] = (char)r.in(0, 255); break;
			case 1: xml.erase(at, (std::size_t)r.in(1, 20)); break;
			case 2: xml.insert(at, std::string((std::size_t)r.in(1, 5), r.pick({ '<', '>', '"', '&', '\0', '/', '\n', 'x' }))); break;
			case 3: xml.insert(at, xml.substr((std::size_t)r.in(0, (long)xml.size() - 1), (std::size_t)r.in(1, 200))); break;
			}
		}
		break;
	}
	case 1: what = "truncated"; xml.resize((std::size_t)r.in(0, (long)xml.size())); break;
	case 2: case 3: case 4: { // Values of attributes.
		what = "attributes";
		std::vector<std::pair<std::size_t, std::size_t>> v;
		for(std::size_t i = 0; i + 1 < xml.size(); ++i)
			if(xml[i] == '=' && xml[i+1] == '"') {
				auto const end = xml.find('"', i + 2);
				if(end != std::string::npos) v.emplace_back(i + 2, end - i - 2);
			}
		for(long k = r.in(1, 4); k--;) {
			auto const [at, n] = r.pick(v);
			if(at + n > xml.size()) continue;
			xml.replace(at, n, hostile_number(r));
			v.clear();
			for(std::size_t i = 0; i + 1 < xml.size(); ++i)
				if(xml[i] == '=' && xml[i+1] == '"') {
					auto const end = xml.find('"', i + 2);
					if(end != std::string::npos) v.emplace_back(i + 2, end - i - 2);
				}
		}
		break;
	}
	case 5: { // An element less.
		what = "elements";
		std::regex const re("<(P1|P2|Vertex|Center|StartP|EndP|Property|RectilinearGrid)[^>]*/>");
		std::string out;
		auto it = std::sregex_iterator(xml.begin(), xml.end(), re);
		std::size_t at = 0;
		for(; it != std::sregex_iterator(); ++it) {
			out += xml.substr(at, (std::size_t)it->position() - at);
			if(!r.chance(30)) out += it->str();
			at = (std::size_t)(it->position() + it->length());
		}
		xml = out + xml.substr(at);
		break;
	}
	case 6: { // A line that is not a number.
		what = "lines";
		auto const where = xml.find("<RectilinearGrid>");
		auto const text = r.pick({ "1,,2", "1,x", "nan", "inf", "1 2", "1;2", ",", "1e999", "--1", "0x1" });
		if(r.chance(50) && where != std::string::npos) {
			xml.insert(where + 17, cat("<YLines>", text, "</YLines>"));
			// Only the first list of an axis is read.
			expect_error = keep;
		} else {
			auto const at = xml.find("<openEMS>") != std::string::npos ? xml.find("<openEMS>") : xml.find("<ContinuousStructure");
			auto const old = xml.find("<OpenEMSH>");
			if(old != std::string::npos) xml.erase(old, at - old);
			xml.insert(old != std::string::npos ? old : at, cat("<OpenEMSH><FixedMeshlines><ZLines>", text, "</ZLines></FixedMeshlines></OpenEMSH>"));
			expect_error = true;
		}
		break;
	}
	case 7: { // Other documents.
		what = "documents";
		xml = r.pick({ "", " ", "<", "<a/>", "<openEMS/>", "<openEMS><ContinuousStructure/></openEMS>", "<ContinuousStructure/>", "<x><openEMS><ContinuousStructure/></openEMS></x>", "<openEMS><ContinuousStructure CoordSystem=\"1\"/></openEMS>", "<ContinuousStructure><Properties/></ContinuousStructure>", "<OpenEMSH/>", "<openEMS><ContinuousStructure>&bogus;</ContinuousStructure></openEMS>", "plain text" });
		expect_error = xml.find("CoordSystem=\"1\"") != std::string::npos || xml.find("<ContinuousStructure") == std::string::npos || xml.starts_with("<x>");
		break;
	}
	case 8: { // Params that cannot be.
		what = "params";
		auto const at = xml.find("<openEMS>") != std::string::npos ? xml.find("<openEMS>") : xml.find("<ContinuousStructure");
		auto const old = xml.find("<OpenEMSH>");
		if(old != std::string::npos) xml.erase(old, at - old);
		xml.insert(old != std::string::npos ? old : at, cat("<OpenEMSH><GlobalParams ", r.pick({ "Smoothness=\"0.9\"", "Smoothness=\"-1\"", "Smoothness=\"inf\"", "dmax=\"0\"", "dmax=\"-3\"", "dmax=\"nan\"", "ProximityLimit=\"nan\"", "ProximityLimit=\"inf\"", "Smoothness=\"nan\"", "Smoothness=\"\"" }), "/></OpenEMSH>"));
		expect_error = true;
		break;
	}
	case 10: { // Coordinates that are not cartesian.
		what = "coordinates";
		std::string const it = "CoordSystem=\"0\"";
		auto const at = xml.find(it);
		xml.replace(at, it.size(), cat("CoordSystem=\"", r.pick({ 1l, 1l, 2l, 3l, 7l, 65536l, r.in(1, 1000) }), "\""));
		expect_error = true;
		break;
	}
	case 11: { // An end tag that is missing, moved, doubled or not the one of what it ends.
		what = "end tags";
		std::vector<std::pair<std::size_t, std::size_t>> v;
		for(std::size_t i = xml.find("</"); i != std::string::npos; i = xml.find("</", i + 1)) v.emplace_back(i, xml.find('>', i) + 1 - i);
		auto const [at, n] = r.pick(v);
		auto const tag = xml.substr(at, n);
		switch(r.in(0, 3)) {
		case 0: xml.erase(at, n); break;
		case 1: xml.replace(at, n, r.pick({ std::string("</Other>"), std::string("</>"), "</" + tag.substr(2, tag.size() - 3) + "x>", "<" + tag.substr(2) })); break;
		case 2: xml.insert(at, tag); break;
		case 3: {
			auto const [other, m] = r.pick(v);
			auto const t = xml.substr(other, m);
			if(t == tag) xml.insert(at, "</x>");
			else xml.replace(at, n, t);
			break;
		}
		}
		expect_error = true;
		break;
	}
	case 9: what = "nothing"; break; // No file at all, or a directory.
	}
	c.count(cat("form_", what));
	c.input = cat(what, keep ? " (old mesh kept)\n" : "\n", xml);
	c.sample(c.input);
	auto a = open(c, first, [&](auto& p) { p.keep_old_mesh = keep; });
	if(!a.parse()) { c.fail("parse", "a well-formed file is refused"); return; }
	if(r.chance(50)) a.run({ app::Step::ADJUST_EDGE_TO_MATERIAL, app::Step::DETECT_DIAG_ANGLES });
	if(how == 9) {
		a.set_input(r.chance(50) ? c.scratch / "absent.csx" : c.scratch);
		expect_error = true;
	} else {
		write_file(c.scratch / "bad.csx", xml);
		a.set_input(c.scratch / "bad.csx");
	}
	record();
	auto const res = a.parse();
	c.count(res ? "accepted" : "refused");
	if(!res) c.check(!res.error().empty(), "error-message", "refused without a reason");
	if(expect_error && res) c.fail("accepted", cat("accepted: ", what));
	// Whatever happened, the application goes on with a good file.
	auto const expected = [&] {
		Session s(c, first, "again.csx");
		return s.parsed ? snapshot(s.board()) : std::string();
	}();
	a.set_input(c.scratch / "again.csx");
	if(auto again = a.parse(); !again) c.fail("afterwards", cat("a good file is refused afterwards: ", again.error()));
	else c.check(snapshot(a.get_board()) == expected, "afterwards", [&] { return "differs afterwards: " + first_difference(expected, snapshot(a.get_board())); });
	c.nontrivial(hash_bytes(xml));
}

//------------------------------------------------------------------------ I04
void i04(Ctx& c, Rng& r) {
	auto const s = any_scene(r);
	auto const xml = csx::xml(s);
	std::array<bool, 3> with { r.chance(50), r.chance(50), r.chance(50) };
	c.input = cat("yz ", with[0], " zx ", with[1], " xy ", with[2], "\n", xml);
	c.sample(c.input);
	auto a = open(c, xml, [&](auto& p) { p.with_yz = with[0]; p.with_zx = with[1]; p.with_xy = with[2]; });
	if(auto res = a.parse(); !res) { c.fail("parse", cat("a well-formed file is refused: ", res.error())); return; }
	auto const e = expect_of(s, with, false);
	compare_shapes(c, a.get_board(), e);
	for(int n = 0; n < 3; ++n) c.count(with[n] ? "planes_on" : "planes_off");
	compare_lines(c, a, e);
	c.nontrivial(hash_bytes(c.input));
}

//------------------------------------------------------------------------ I05
void i05(Ctx& c, Rng& r) {
	csx::Options o;
	o.extent = 8;
	o.max_prims = 3;
	o.fixed = true;
	o.any_unit = true;
	auto s = csx::random_scene(r, o);
	s.write_oemsh = r.chance(85);
	if(r.chance(40)) s.fixed_delta_unit = r.pick({ 0.001, 0.5, 2.0, 25.4 });
	for(int a = 0; a < 3; ++a) {
		for(long k = r.chance(50) ? r.in(1, 6) : 0; k--;) s.grid[a].push_back(r.chance(60) ? (double)r.in(-10, 20) * s.unit : r.real(-10, 20));
		for(long k = r.chance(30) ? r.in(1, 3) : 0; k--;) s.fixed[a].push_back(r.real(-10, 20));
	}
	bool const read = r.chance(80), keep = r.chance(50);
	auto xml = with_rival(r, s, csx::xml(s));
	// Blanks and line ends around numbers are harmless.
	if(r.chance(30))
		xml = std::regex_replace(xml, std::regex("Lines>([-0-9.])"), "Lines>\n\t $1"), xml = std::regex_replace(xml, std::regex(",([-0-9])"), " , $1");
	domain::Params over;
	struct Over { bool proximity = false, smoothness = false, dmax = false, lmin = false, diag = false, angle = false; } w {
		r.chance(40), r.chance(40), r.chance(40), r.chance(40), r.chance(40), r.chance(40) };
	over.proximity_limit = r.pick({ 0.0, 0.1, 3.0 });
	over.smoothness = r.pick({ 1.05, 1.4, 1.9 });
	over.dmax = r.pick({ 0.3, 4.0, 100.0 });
	over.lmin = (std::size_t)r.in(0, 9);
	over.diagonal_dmax = r.pick({ 0.05, 0.7 });
	over.consecutive_diagonal_minimal_angle = r.pick({ 5.0, 45.0 });
	for(long k = r.chance(40) ? r.in(1, 4) : 0; k--;) over.input_fixed_meshlines.emplace_back(axes[r.next() % 3], r.real(-5, 15));
	if(r.chance(20) && !over.input_fixed_meshlines.empty()) over.input_fixed_meshlines.push_back(over.input_fixed_meshlines.front());
	c.input = cat("read ", read, " keep ", keep, " overrides ", w.proximity, w.smoothness, w.dmax, w.lmin, w.diag, w.angle, " lines ", over.input_fixed_meshlines.size(), "\n", xml);
	c.sample(c.input);
	auto a = open(c, xml, [&](auto& p) {
		p.read_oemsh_params = read;
		p.keep_old_mesh = keep;
		p.override_from_cli = [&](domain::Params& d) {
			if(w.proximity) d.proximity_limit = over.proximity_limit;
			if(w.smoothness) d.smoothness = over.smoothness;
			if(w.dmax) d.dmax = over.dmax;
			if(w.lmin) d.lmin = over.lmin;
			if(w.diag) d.diagonal_dmax = over.diagonal_dmax;
			if(w.angle) d.consecutive_diagonal_minimal_angle = over.consecutive_diagonal_minimal_angle;
			d.input_fixed_meshlines = over.input_fixed_meshlines;
		};
	});
	int const times = r.chance(30) ? 2 : 1; // Parsing again gives the same.
	for(int t = 0; t < times; ++t)
		if(auto res = a.parse(); !res) { c.fail("parse", cat("a well-formed file is refused: ", res.error())); return; }
	auto const& g = a.get_board().global_params->get_current_state();
	domain::Params const d;
	bool const in = read && s.write_oemsh;
	auto want = [&](bool o, auto ov, auto const& file, auto def) { return o ? ov : in && file ? (decltype(def))*file : def; };
	auto is = [&](char const* what, double got, double want) {
		c.check(got == want, "param", [&] { return cat(what, " is ", got, " instead of ", want); });
	};
	is("proximity limit", g.proximity_limit, want(w.proximity, over.proximity_limit, s.globals.proximity, d.proximity_limit));
	is("smoothness", g.smoothness, want(w.smoothness, over.smoothness, s.globals.smoothness, d.smoothness));
	is("dmax", g.dmax, want(w.dmax, over.dmax, s.globals.dmax, d.dmax));
	is("lmin", (double)g.lmin, (double)want(w.lmin, over.lmin, s.globals.lmin, d.lmin));
	is("diagonal dmax", g.diagonal_dmax, w.diag ? over.diagonal_dmax : d.diagonal_dmax);
	is("minimal angle", g.consecutive_diagonal_minimal_angle, w.angle ? over.consecutive_diagonal_minimal_angle : d.consecutive_diagonal_minimal_angle);
	c.check(g.has_grid_already == (!s.grid[0].empty() || !s.grid[1].empty() || !s.grid[2].empty()), "has-grid", "the presence of a former mesh is not what the file has");
	auto e = expect_of(s, { true, true, true }, keep);
	if(!read && s.write_oemsh)
		for(int x = 0; x < 3; ++x) {
			e.lines[x].clear();
			if(keep) e.lines[x] = s.grid[x];
		}
	if(!read && s.write_oemsh) { // Lines of flat polygons and points stay.
		auto t = s;
		t.write_oemsh = false;
		e = expect_of(t, { true, true, true }, keep);
	}
	for(auto const& [axis, v] : over.input_fixed_meshlines) e.lines[axis == domain::X ? 0 : axis == domain::Y ? 1 : 2].push_back(v);
	// Places closer than the tolerance could be one or two: not to be judged.
	for(int x = 0; x < 3; ++x) {
		auto v = e.lines[x];
		std::ranges::sort(v);
		for(std::size_t i = 1; i < v.size(); ++i)
			if(v[i] != v[i-1] && v[i] - v[i-1] < 1e-7) { c.count("too_near_to_tell"); return; }
	}
	compare_lines(c, a, e);
	c.count(keep ? "old_kept" : "old_left");
	c.count(read ? "params_read" : "params_left");
	if(w.dmax || w.lmin) c.count("overridden");
	c.nontrivial(hash_bytes(c.input));
}

//-------------------------------------------------------------- output files
std::vector<double> numbers(char const* s) {
	std::vector<double> v;
	while(*s) {
		char* end;
		double const x = strtod(s, &end);
		if(end == s) { v.push_back(NAN); return v; }
		v.push_back(x);
		s = end;
		if(*s == ',' && !*++s) v.push_back(NAN); // Nothing after the separator.
	}
	return v;
}

// Elements, attributes and texts, but the lists of lines and the parameters.
void dump(pugi::xml_node const& n, std::string const& path, bool with_params, std::string& o, int depth = 0) {
	for(auto const& k : n.children()) {
		auto const p = path + "/" + k.name();
		if(k.type() == pugi::node_element) {
			if(depth == 0 && std::string_view(k.name()) == "OpenEMSH" && !with_params) continue;
			o += std::string((std::size_t)depth, ' ') + k.name();
			if(!(depth == 1 && p == "/OpenEMSH/GlobalParams"))
				for(auto const& a : k.attributes()) o += cat(" ", a.name(), "=[", a.value(), "]");
			o += "\n";
			bool const grid = (p == "/openEMS/ContinuousStructure/RectilinearGrid" || p == "/ContinuousStructure/RectilinearGrid");
			if(!grid) dump(k, p, with_params, o, depth + 1);
		} else if(k.type() == pugi::node_pcdata || k.type() == pugi::node_cdata) {
			std::string t = k.value();
			if(t.find_first_not_of(" \t\r\n") != std::string::npos) o += std::string((std::size_t)depth, ' ') + "[" + t + "]\n";
		}
	}
}

csx::Scene output_scene(Rng& r) {
	csx::Options o;
	o.extent = r.pick({ 4L, 8L });
	o.diagonals = r.chance(20);
	o.max_prims = 3;
	o.any_unit = true;
	o.globals = true;
	auto s = csx::random_scene(r, o);
	if(s.globals.dmax && *s.globals.dmax < 1) s.globals.dmax = 1;
	s.globals.lmin = r.in(0, 4);
	s.under_openems = r.chance(70);
	s.write_oemsh = r.chance(60);
	if(r.chance(60))
		for(int a = 0; a < 3; ++a)
			for(long k = r.in(0, 4); k--;) s.grid[a].push_back(r.real(-5, 9));
	s.fdtd = r.chance(70) ? "<FDTD NumberOfTimesteps=\"30000\" endCriteria=\"1e-4\" f_max=\"2e9\"><Excitation Type=\"0\" f0=\"2.5e+09\" fc=\"1e9\"></Excitation><BoundaryCond xmin=\"MUR\" xmax=\"PML_8\"/></FDTD>\n" : "";
	if(r.chance(60)) s.csx_extra = "<ParameterSet><ConstParameter Name=\"a\" value=\"1.5\"/></ParameterSet><Note lang=\"&#956;\">x &lt; y &amp; \"z\"</Note>\n";
	return s;
}

// Writes what a document of users may hold beside what the mesher knows.
std::string decorate(Rng& r, csx::Scene const& s, std::string xml) {
	auto replace = [&](std::string const& from, std::string const& to) {
		auto const k = xml.find(from);
		if(k != std::string::npos) xml.replace(k, from.size(), to);
	};
	if(r.chance(50)) replace("<RectilinearGrid>", "<RectilinearGrid DeltaUnit=\"0.001\" CoordSystem=\"0\">");
	if(r.chance(20)) { // No grid yet.
		auto const a = xml.find("<RectilinearGrid"), b = xml.find("</RectilinearGrid>");
		if(a != std::string::npos && b != std::string::npos) xml.erase(a, b + 18 - a);
	}
	if(r.chance(40)) replace("<Properties>", "<Properties Extra=\"a &lt; b\">");
	if(r.chance(40)) replace("<GlobalParams", "<Other k=\"v\"/><GlobalParams");
	if(r.chance(40) && s.under_openems) replace("</openEMS>", "<PostProcess><nf2ff freq=\"1e9\"/> text &amp; more </PostProcess></openEMS>");
	if(r.chance(20)) replace("<Properties", "<RectilinearGrids><XLines>7</XLines></RectilinearGrids><Properties");
	if(r.chance(20)) xml += "<Trailer><RectilinearGrid><XLines>1,2,3</XLines></RectilinearGrid></Trailer>\n";
	if(r.chance(20)) replace("<openEMS>", "<openEMS version=\"0.0.36\"><Deep><ContinuousStructure><RectilinearGrid>kept</RectilinearGrid></ContinuousStructure></Deep>");
	if(r.chance(15)) replace("<Properties", "<Data><![CDATA[a <b> & c]]></Data><Properties");
	return with_rival(r, s, xml);
}

struct Written {
	app::OpenEMSH app;
	bool ok = false;
	std::string in, out;
};

Written write_out(Ctx& c, std::string const& xml, std::function<void (app::OpenEMSH::Params&)> const& tune, bool meshed = true) {
	Written w { open(c, xml, tune) };
	if(auto res = w.app.parse(); !res) { c.fail("parse", cat("a well-formed file is refused: ", res.error())); return w; }
	if(meshed) w.app.run_all_steps();
	if(auto res = w.app.write(); !res) { c.fail("write", cat("writing fails: ", res.error())); return w; }
	w.in = xml;
	w.out = read_file(w.app.get_params().output);
	w.ok = true;
	return w;
}

struct Toggles { bool x, y, z, lines, policies, params; };
Toggles toggles(Rng& r) { return { r.chance(80), r.chance(80), r.chance(80), r.chance(80), r.chance(30), r.chance(50) }; }
void apply(app::OpenEMSH::Params& p, Toggles const& t) {
	p.with_axis_x = t.x; p.with_axis_y = t.y; p.with_axis_z = t.z;
	p.with_meshlines = t.lines; p.with_meshline_policies = t.policies; p.with_oemsh_params = t.params;
}
std::string say(Toggles const& t) { return cat("x ", t.x, " y ", t.y, " z ", t.z, " lines ", t.lines, " policies ", t.policies, " params ", t.params, "\n"); }

//------------------------------------------------------------------------ O01
void o01(Ctx& c, Rng& r) {
	auto const s = output_scene(r);
	auto const xml = decorate(r, s, csx::xml(s));
	auto const t = toggles(r);
	bool const in_place = r.chance(40);
	c.input = cat(say(t), in_place ? "in place\n" : "", xml);
	c.sample(c.input);
	auto w = write_out(c, xml, [&](auto& p) { apply(p, t); if(in_place) p.output = p.input; }, r.chance(80));
	if(!w.ok) return;
	pugi::xml_document a, b;
	if(!a.load_string(xml.c_str())) { c.fail("harness", "cannot read the input back"); return; }
	if(!b.load_string(w.out.c_str())) { c.fail("not-xml", "what is written is not well-formed"); return; }
	if(!in_place) c.check(read_file(w.app.get_params().input) == xml, "input-touched", "the input is changed");
	std::string da, db;
	dump(a, "", t.params, da);
	dump(b, "", t.params, db);
	// What the output adds where it is missing: a grid, parameters.
	auto grid_a = s.under_openems ? a.child("openEMS").child("ContinuousStructure").child("RectilinearGrid") : a.child("ContinuousStructure").child("RectilinearGrid");
	auto grid_b = s.under_openems ? b.child("openEMS").child("ContinuousStructure").child("RectilinearGrid") : b.child("ContinuousStructure").child("RectilinearGrid");
	c.check((bool)grid_b, "no-grid", "no grid is written");
	if(!grid_a) {
		auto copy = s.under_openems ? a.child("openEMS").child("ContinuousStructure") : a.child("ContinuousStructure");
		copy.append_child("RectilinearGrid");
		c.count("grid_added");
	}
	if(t.params) {
		if(!a.child("OpenEMSH")) { a.prepend_child("OpenEMSH"); c.count("params_added"); }
		if(!a.child("OpenEMSH").child("GlobalParams")) a.child("OpenEMSH").append_child("GlobalParams");
	} else {
		c.check(!b.child("OpenEMSH"), "params-left", "parameters are in the output though not asked for");
	}
	da.clear();
	dump(a, "", t.params, da);
	c.check(da == db, "other-content", [&] { return "something else changed: " + first_difference(da, db); });
	// One list per axis asked for, nothing else in the grid.
	std::map<std::string, int> lists;
	for(auto const& k : grid_b.children()) lists[k.name()]++;
	for(auto const& [n, on] : { std::pair { "XLines", t.x }, { "YLines", t.y }, { "ZLines", t.z } }) {
		c.check(lists[n] == (on ? 1 : 0), "lists", [&] { return cat(lists[n], " lists ", n); });
		lists.erase(n);
	}
	for(auto const& [n, k] : lists) c.fail("lists", "something else in the grid: " + n);
	c.count(s.under_openems ? "under_openems" : "at_root");
	if(s.under_openems && a.child("ContinuousStructure")) c.count("two_structures");
	c.count(in_place ? "in_place" : "beside");
	c.nontrivial(hash_bytes(c.input));
}

//------------------------------------------------------------------------ O02
void o02(Ctx& c, Rng& r) {
	auto const s = output_scene(r);
	auto const xml = decorate(r, s, csx::xml(s));
	auto const t = toggles(r);
	c.input = say(t) + xml;
	c.sample(c.input);
	auto w = write_out(c, xml, [&](auto& p) { apply(p, t); });
	if(!w.ok) return;
	pugi::xml_document b;
	if(!b.load_string(w.out.c_str())) { c.fail("not-xml", "what is written is not well-formed"); return; }
	auto const grid = (s.under_openems ? b.child("openEMS") : b).child("ContinuousStructure").child("RectilinearGrid");
	static char const* const names[] = { "XLines", "YLines", "ZLines" };
	bool const on[] = { t.x, t.y, t.z };
	for(int x = 0; x < 3; ++x) {
		if(!on[x]) continue;
		auto const text = grid.child_value(names[x]);
		auto const got = numbers(text);
		std::vector<double> want;
		if(t.lines) for(auto const& m : w.app.get_board().get_meshlines(axes[x])) want.push_back(m->coord.value());
		if(t.policies) {
			std::vector<double> p;
			for(auto const& m : w.app.get_board().get_meshline_policies(axes[x]))
				if(m->get_current_state().is_enabled) p.push_back(m->coord.value());
			// Their order is not told.
			auto part = std::vector<double>(got.begin() + (long)std::min(want.size(), got.size()), got.end());
			std::ranges::sort(part);
			std::ranges::sort(p);
			c.check(part == p, "policies", [&] { return cat(part.size(), " policy places in ", names[x], " instead of ", p.size(), ": ", text); });
			c.count("policy_places", (long)p.size());
		} else {
			c.check(got.size() == want.size(), "count", [&] { return cat(got.size(), " lines in ", names[x], " instead of ", want.size(), ": ", text); });
		}
		for(std::size_t i = 0; i < std::min(want.size(), got.size()); ++i)
			c.check(got[i] == want[i], "value", [&] { return cat("line ", i, " of ", names[x], " is ", got[i], " instead of ", want[i]); });
		if(t.lines) for(std::size_t i = 1; i < std::min(want.size(), got.size()); ++i)
			c.check(got[i] > got[i-1], "order", [&] { return cat("lines ", i - 1, " and ", i, " of ", names[x], " are not in order"); });
		c.count("lines_compared", (long)want.size());
	}
	c.nontrivial(hash_bytes(c.input));
}

//------------------------------------------------------------------------ O03
void o03(Ctx& c, Rng& r) {
	auto s = output_scene(r);
	s.under_openems = r.chance(80);
	auto const xml = csx::xml(s);
	bool const far = r.chance(20); // Odd values: parameters only, no mesh.
	domain::Params over;
	over.proximity_limit = r.chance(50) ? r.pick({ 0.0, 0.1, 1.0 / 3 }) : r.real(0, 2);
	over.smoothness = r.chance(50) ? r.pick({ 1.1, 1.5, 2.0 }) : r.real(1.05, 2);
	over.dmax = r.chance(50) ? r.pick({ 1.0, 2.5, 10.0 / 3 }) : r.real(1, 9);
	over.lmin = (std::size_t)r.in(0, 4);
	if(far) {
		over.proximity_limit = r.pick({ 1e-12, 1e12, 123456789.123456789, -1.0 });
		over.dmax = r.pick({ 1e-9, 1e15, 0.1 + 0.2 });
		over.lmin = r.pick({ 1000ul, 65535ul, 4000000000ul });
	}
	c.input = cat("limit ", over.proximity_limit, " smoothness ", over.smoothness, " dmax ", over.dmax, " lmin ", over.lmin, "\n", xml);
	c.sample(c.input);
	auto w = write_out(c, xml, [&](auto& p) {
		p.with_oemsh_params = true;
		p.override_from_cli = [&](domain::Params& d) {
			d.proximity_limit = over.proximity_limit;
			d.smoothness = over.smoothness;
			d.dmax = over.dmax;
			d.lmin = over.lmin;
		};
	}, !far);
	if(!w.ok) return;
	auto again = open(c, w.out, [](auto& p) { p.with_oemsh_params = true; p.output = p.input.parent_path() / "out2.csx"; });
	if(auto res = again.parse(); !res) { c.fail("reparse", cat("what is written is refused: ", res.error())); return; }
	auto const& g = again.get_board().global_params->get_current_state();
	c.check(g.proximity_limit == over.proximity_limit, "param", [&] { return cat("proximity limit comes back as ", g.proximity_limit); });
	c.check(g.smoothness == over.smoothness, "param", [&] { return cat("smoothness comes back as ", g.smoothness); });
	c.check(g.dmax == over.dmax, "param", [&] { return cat("dmax comes back as ", g.dmax); });
	c.check(g.lmin == over.lmin, "param", [&] { return cat("lmin comes back as ", g.lmin); });
	c.count("params_back", 4);
	if(far) { c.count("far"); c.nontrivial(hash_bytes(c.input)); return; }
	again.run_all_steps();
	for(int x = 0; x < 3; ++x) {
		std::vector<double> p, q;
		for(auto const& m : w.app.get_board().get_meshlines(axes[x])) p.push_back(m->coord.value());
		(void)p;
	}
	if(auto res = again.write(); !res) { c.fail("write", res.error()); return; }
	auto const out2 = read_file(again.get_params().output);
	c.check(out2 == w.out, "fixpoint", [&] { return "processing the output again gives something else: " + first_difference(w.out, out2); });
	c.count("fixpoints");
	c.nontrivial(hash_bytes(c.input));
}

//------------------------------------------------------------------------ O04
void o04(Ctx& c, Rng& r) {
	csx::Options o;
	o.extent = 8;
	o.max_prims = 5;
	o.min_prims = 0;
	o.diagonals = r.chance(50);
	auto s = csx::random_scene(r, o);
	if(s.globals.dmax && *s.globals.dmax < 2) s.globals.dmax = 2;
	s.globals.lmin = r.in(0, 3);
	// Far from the origin, what a value loses by being shortened shows.
	if(r.chance(40)) {
		double const far = r.pick({ 1000.0, 54321.0, -65536.0, 123456.0 });
		for(auto& p : s.props)
			for(auto& q : p.prims) {
				for(auto& v : q.pts) for(auto& k : v) k += far;
				for(auto& v : q.outline) for(auto& k : v) k += far;
				q.elevation += far;
			}
		for(auto& f : s.fixed) for(auto& k : f) k += far;
		c.count("far");
	}
	auto const xml = csx::xml(s);
	std::size_t const steps = r.chance(50) ? all_steps.size() : (std::size_t)r.in(0, (long)all_steps.size());
	c.input = cat(steps, " steps\n", xml);
	c.sample(c.input);
	auto a = open(c, xml, [](auto& p) { p.output_format = app::OpenEMSH::Params::OutputFormat::PLANTUML; });
	if(auto res = a.parse(); !res) { c.fail("parse", res.error()); return; }
	a.run(std::set<app::Step>(all_steps.begin(), all_steps.begin() + (long)steps));
	auto const before = snapshot(a.get_board());
	if(auto res = a.write(); !res) { c.fail("write", res.error()); return; }
	c.check(snapshot(a.get_board()) == before, "const", "writing changes the state");
	auto const text = read_file(a.get_params().output);
	// A diagram: delimited, blocks closed, each name declared once, arrows between declared names.
	std::istringstream in(text);
	std::string l;
	long depth = 0, n = 0;
	std::set<std::string> declared;
	std::vector<std::pair<std::string, std::string>> arrows;
	std::map<std::string, long> kinds;
	std::map<std::string, std::map<std::string, std::string>> told;
	std::vector<std::string> policy_names; // As they come.
	bool ended = false;
	while(std::getline(in, l)) {
		++n;
		if(n == 1) { c.check(l == "@startuml", "start", "does not start as a diagram"); continue; }
		if(ended) { if(!l.empty()) c.fail("end", "text after the end"); continue; }
		if(l == "@enduml") { ended = true; continue; }
		if(l == "}") { --depth; if(depth < 0) c.fail("blocks", cat("a block too many is closed at line ", n)); continue; }
		if(l.starts_with("state \"")) {
			auto const q = l.find("\" as ");
			if(q == std::string::npos) { c.fail("state", l); continue; }
			auto const kind = l.substr(7, q - 7);
			auto name = l.substr(q + 5);
			name = name.substr(0, name.find(' '));
			if(!declared.insert(name).second) c.fail("twice", "declared twice: " + l);
			if(l.ends_with("{")) ++depth;
			if(kind == "MeshlinePolicy") policy_names.push_back(name);
			kinds[kind.starts_with("Polygon ") ? "Polygon" : kind.substr(0, 40)]++;
			continue;
		}
		if(auto const arrow = l.find("-> "); arrow != std::string::npos) {
			auto from = l.substr(0, l.find(' ')), to = l.substr(arrow + 3);
			while(!to.empty() && to.back() == ' ') to.pop_back();
			arrows.emplace_back(from, to);
			continue;
		}
		auto const colon = l.find(" : ");
		if(colon == std::string::npos) { c.fail("line", "unknown line: " + l); continue; }
		if(auto const equal = l.find(" = ", colon); equal != std::string::npos)
			told[l.substr(0, colon)][l.substr(colon + 3, equal - colon - 3)] = l.substr(equal + 3);
	}
	c.check(ended, "end", "no end");
	c.check(depth == 0, "blocks", [&] { return cat(depth, " blocks left open"); });
	for(auto const& [from, to] : arrows)
		for(auto const& x : { from, to })
			c.check(declared.contains(x), "arrow", [&] { return cat("an arrow from ", from, " to ", to, " joins something undeclared"); });
	c.count("arrows", (long)arrows.size());
	auto const& b = a.get_board();
	long polygons = 0, edges = 0, policies = 0, intervals = 0, lines = 0, eip = 0, ce = 0, tc = 0;
	for(auto p : planes) {
		polygons += (long)b.get_polygons(p).size();
		for(auto const& q : b.get_polygons(p)) edges += (long)q->edges.size();
		eip += (long)b.get_conflicts_edge_in_polygons(p).size();
	}
	for(auto x : axes) {
		policies += (long)b.get_meshline_policies(x).size();
		intervals += (long)b.get_intervals(x).size();
		lines += (long)b.get_meshlines(x).size();
		ce += (long)b.get_conflicts_colinear_edges(x).size();
		tc += (long)b.get_conflicts_too_close_meshline_policies(x).size();
	}
	for(auto const& [k, want] : std::map<std::string, long> { { "Polygon", polygons }, { "Edge", edges }, { "MeshlinePolicy", policies }, { "Interval", intervals }, { "Meshline", lines },
			{ "Conflict EdgeInPolygon", eip }, { "Conflict ColinearEdges", ce }, { "Conflict TooCloseMeshlinePolicies", tc } }) {
		c.check(kinds[k] == want, "missing", [&] { return cat(kinds[k], " ", k, " in the diagram instead of ", want); });
		c.count(k, want);
	}
	// What each thing comes from and leads to, and what is told of it.
	using Arrows = std::multiset<std::pair<std::string, std::string>>;
	Arrows drawn, wanted;
	auto const plain = [](std::string x) { return x.substr(0, x.find('_')); };
	for(auto const& [from, to] : arrows) drawn.emplace(plain(from), plain(to));
	auto arrow = [&](auto const* from, auto const* to) { if(from && to) wanted.emplace(std::to_string(from->id), std::to_string(to->id)); };
	auto tells = [&](auto const& e, std::string const& what, auto const& want) {
		auto const at = told[std::to_string(e.id)];
		auto const it = at.find(what);
		if constexpr(std::is_same_v<std::decay_t<decltype(want)>, bool>)
			c.check(it != at.end() && it->second == (want ? "true" : "false"), "told", [&] { return cat(what, " of ", e.id, " is told ", it == at.end() ? "nothing" : it->second, " instead of ", want); });
		else
			c.check(it != at.end() && std::abs(std::strtod(it->second.c_str(), nullptr) - (double)want) <= 1.01e-6 + 1e-12 * std::abs((double)want), "told", [&] {
				return cat(what, " of ", e.id, " is told ", it == at.end() ? "nothing" : it->second, " instead of ", want); });
		c.count("values");
	};
	for(auto p : planes) {
		for(auto const& q : b.get_polygons(p)) for(auto const& e : q->edges) tells(*e, "To mesh", e->get_current_state().to_mesh);
		for(auto const& q : b.get_conflicts_edge_in_polygons(p)) {
			arrow(q->edge, q.get());
			arrow(q.get(), q->edge);
			for(auto const& [polygon, range, edge] : q->get_current_state().overlaps) {
				arrow(polygon, q.get());
				if(edge) arrow(edge.value(), q.get());
			}
		}
	}
	{
		// By increasing coordinate, one axis after the other.
		std::map<std::string, std::pair<int, double>> place;
		for(int x = 0; x < 3; ++x) for(auto const& q : b.get_meshline_policies(axes[x])) place[std::to_string(q->id)] = { x, q->coord.value() };
		for(std::size_t i = 1; i < policy_names.size(); ++i) {
			auto const [x, at] = place[policy_names[i - 1]];
			auto const [y, to] = place[policy_names[i]];
			c.check(x != y || at <= to + 1e-6, "order", [&] { return cat("policies are not by increasing coordinate: ", at, " before ", to); });
		}
	}
	for(auto x : axes) {
		for(auto const& q : b.get_meshline_policies(x)) {
			auto const& st = q->get_current_state();
			tells(*q, "Is enabled", st.is_enabled);
			tells(*q, "d", st.d);
			if(st.origins.size() == 1) arrow(dynamic_cast<domain::Edge*>(st.origins.front()), q.get());
		}
		for(auto const& q : b.get_intervals(x)) {
			tells(*q, "dmax", q->get_current_state().dmax);
			arrow(q->get_current_state().before.meshline_policy, q.get());
			arrow(q->get_current_state().after.meshline_policy, q.get());
		}
		for(auto const& q : b.get_meshlines(x)) {
			tells(*q, "Coord", q->coord.value());
			arrow(q->interval, q.get());
			arrow(q->policy, q.get());
		}
		for(auto const& q : b.get_conflicts_colinear_edges(x)) {
			for(auto const& e : q->get_current_state().edges) arrow(e, q.get());
			arrow(q.get(), dynamic_cast<domain::MeshlinePolicy*>(q->get_current_state().solution));
		}
		for(auto const& q : b.get_conflicts_too_close_meshline_policies(x)) {
			for(auto const& e : q->meshline_policies) arrow(e, q.get());
			arrow(q.get(), dynamic_cast<domain::MeshlinePolicy*>(q->get_current_state().solution));
		}
	}
	for(auto const& [from, to] : wanted)
		c.check(drawn.count({ from, to }) >= wanted.count({ from, to }), "no-arrow", [&] { return cat("no arrow from ", from, " to ", to); });
	for(auto const& [from, to] : drawn)
		c.check(drawn.count({ from, to }) <= wanted.count({ from, to }), "spare-arrow", [&] { return cat("an arrow from ", from, " to ", to, " means nothing"); });
	// Parts that are left aside, and those only.
	SerializerToPlantuml::Params parts;
	parts.with_conflict_edge_in_polygon = r.chance(50);
	parts.with_conflict_colinear_edges = r.chance(50);
	parts.with_conflict_too_close_meshline_policies = r.chance(50);
	parts.with_axis_part = r.chance(70);
	parts.with_geometric_part = r.chance(70);
	auto const partial = SerializerToPlantuml::run(const_cast<domain::Board&>(b), parts);
	auto shown = [&](std::string const& kind) {
		long k = 0;
		for(std::size_t i = partial.find("state \"" + kind); i != std::string::npos; i = partial.find("state \"" + kind, i + 1)) ++k;
		return k;
	};
	for(auto const& [kind, count, on] : std::vector<std::tuple<std::string, long, bool>> {
			{ "Polygon ", polygons, parts.with_geometric_part }, { "Edge\"", edges, parts.with_geometric_part },
			{ "MeshlinePolicy", policies, parts.with_axis_part }, { "Interval", intervals, parts.with_axis_part }, { "Meshline\"", lines, parts.with_axis_part },
			{ "Conflict EdgeInPolygon", eip, parts.with_conflict_edge_in_polygon },
			{ "Conflict ColinearEdges", ce, parts.with_axis_part && parts.with_conflict_colinear_edges },
			{ "Conflict TooCloseMeshlinePolicies", tc, parts.with_axis_part && parts.with_conflict_too_close_meshline_policies } })
		c.check(shown(kind) == (on ? count : 0), "parts", [&] { return cat(shown(kind), " ", kind, " in a diagram that ", on ? "has" : "leaves aside", " that part, of ", count); });
	c.check(partial.starts_with("@startuml\n") && partial.ends_with("@enduml\n"), "parts", "a partial diagram is not delimited");
	c.count("partial_diagrams");
	// The text form, to standard error.
	a.set_output_format(app::OpenEMSH::Params::OutputFormat::PRETTYPRINT);
	std::ostringstream caught;
	auto* const old = std::cerr.rdbuf(caught.rdbuf());
	auto const res = a.write();
	std::cerr.rdbuf(old);
	c.check(res.has_value(), "prettyprint", "the text form fails");
	auto count = [&](std::string const& what) { long k = 0; for(std::size_t i = 0; (i = caught.str().find(what, i)) != std::string::npos; ++i) ++k; return k; };
	std::string const t = caught.str();
	c.check(count("Conflict EdgeInPolygon between:") == eip && count("Conflict ColinearEdges between:") == ce, "prettyprint", "the text form does not list every conflict");
	{
		using Segments = std::multiset<std::string>;
		using Block = std::tuple<bool, long, std::string, Segments>;
		auto const plain_segment = [](double x0, double y0, double x1, double y1) {
			char t[400];
			snprintf(t, sizeof t, "%f %f %f %f", x0 + 0.0, y0 + 0.0, x1 + 0.0, y1 + 0.0);
			return std::string(t);
		};
		auto const segment = [&](domain::Segment const& s) { return plain_segment(s.p0().x.value(), s.p0().y.value(), s.p1().x.value(), s.p1().y.value()); };
		std::multiset<Block> listed, due;
		auto const in_plane = std::string("Conflict EdgeInPolygon between:"), in_line = std::string("Conflict ColinearEdges between:"), other = std::string("CONFLICT: ");
		for(std::size_t i = t.find("Conflict "); i != std::string::npos;) {
			std::size_t const end = std::min(t.find("Conflict ", i + 1), t.find(other, i + 1));
			auto const block = t.substr(i, end - i);
			auto times = [&](std::string const& what) { long k = 0; for(std::size_t j = 0; (j = block.find(what, j)) != std::string::npos; ++j) ++k; return k; };
			bool const edge = block.starts_with(in_plane);
			std::string outcome;
			if(auto const at = block.find("Solution: "); at != std::string::npos)
				for(std::string const w : { "don't mesh", "to mesh", "ONELINE", "HALFS", "THIRDS" })
					if(block.find(w, at) != std::string::npos && outcome.empty()) outcome = w;
			Segments segments;
			for(std::size_t j = block.find("{ "); j != std::string::npos; j = block.find("{ ", j + 1)) {
				double v[4];
				if(sscanf(block.c_str() + j, "{ %lf, %lf } -> { %lf, %lf }", v, v + 1, v + 2, v + 3) == 4) segments.insert(plain_segment(v[0], v[1], v[2], v[3]));
			}
			if(edge || block.starts_with(in_line)) listed.emplace(edge, times(edge ? "\tPolygon: " : "\tEdge: "), outcome, segments);
			i = t.find("Conflict ", i + 1);
		}
		for(auto p : planes) for(auto const& q : b.get_conflicts_edge_in_polygons(p)) {
			auto const& st = q->get_current_state();
			Segments segments { segment(*q->edge) };
			for(auto const& [polygon, range, edge] : st.overlaps) {
				segments.insert(segment(range));
				if(edge) segments.insert(segment(*edge.value()));
				for(auto const& x : polygon->edges) segments.insert(segment(*x));
			}
			c.count("told_segments", (long)segments.size());
			due.emplace(true, (long)st.overlaps.size(), !st.solution ? "" : q->edge->get_current_state().to_mesh ? "to mesh" : "don't mesh", segments);
		}
		for(auto x : axes) for(auto const& q : b.get_conflicts_colinear_edges(x)) {
			auto const& st = q->get_current_state();
			auto const* const policy = dynamic_cast<domain::MeshlinePolicy*>(st.solution);
			std::string kind;
			if(policy) switch(policy->get_current_state().policy) {
			case domain::MeshlinePolicy::Policy::ONELINE: kind = "ONELINE"; break;
			case domain::MeshlinePolicy::Policy::HALFS: kind = "HALFS"; break;
			case domain::MeshlinePolicy::Policy::THIRDS: kind = "THIRDS"; break;
			}
			Segments segments;
			for(auto const* e : st.edges) segments.insert(segment(*e));
			due.emplace(false, (long)st.edges.size(), kind, segments);
		}
		c.check(listed == due, "prettyprint-conflicts", [&] {
			std::string m = "the text form has";
			for(auto const& [e, n, w, g] : listed) m += cat(" ", e ? "E" : "C", n, w, "/", g.size());
			m += " instead of";
			for(auto const& [e, n, w, g] : due) m += cat(" ", e ? "E" : "C", n, w, "/", g.size());
			for(auto const& x : due) if(listed.count(x) < due.count(x)) { m += "\nmissing with segments"; for(auto const& k : std::get<3>(x)) m += cat(" [", k, "]"); }
			return m; });
		c.count("listed conflicts", (long)listed.size());
	}
	c.check(snapshot(a.get_board()) == before, "const", "writing changes the state");
	c.count("prettyprints");
	c.nontrivial(hash_bytes(c.input));
}

//------------------------------------------------------------------------ A01
void a01(Ctx& c, Rng& r) {
	auto s = output_scene(r);
	if(r.chance(50)) for(auto& g : s.grid) g.clear();
	auto const xml = csx::xml(s);
	bool const force = r.chance(30), same = r.chance(40), parsed = r.chance(80), exists = r.chance(50);
	using F = app::OpenEMSH::Params::OutputFormat;
	F const format = r.pick({ F::CSX, F::CSX, F::PLANTUML, F::PRETTYPRINT });
	auto const out = c.scratch / cat("target-", r.in(0, 3), ".csx");
	std::filesystem::remove(out);
	if(exists) write_file(out, "something precious\n");
	c.input = cat("force ", force, " same ", same, " parsed ", parsed, " exists ", exists, " format ", (int)format, "\n", xml);
	c.sample(c.input);
	auto a = open(c, xml, [&](auto& p) { p.force = force; p.output = same ? p.input : out; p.output_format = format; });
	if(parsed && !a.parse()) { c.fail("parse", "a well-formed file is refused"); return; }
	bool has_grid = !s.grid[0].empty() || !s.grid[1].empty() || !s.grid[2].empty();
	auto target_exists = [&] { return std::filesystem::exists(a.get_params().output); };
	auto verify = [&](char const* when) {
		bool const want = !a.get_params().force && a.get_params().output_format != F::PRETTYPRINT
			&& (target_exists() || (a.get_params().input == a.get_params().output && parsed && has_grid));
		c.check(a.is_about_overwriting() == want, "overwriting", [&] { return cat(when, ": overwriting is ", a.is_about_overwriting() ? "announced" : "not announced", " wrongly"); });
		c.count(want ? "would_overwrite" : "would_not");
	};
	verify("at first");
	auto const other = c.scratch / "elsewhere.csx";
	std::filesystem::remove(other);
	for(long k = r.in(1, 4); k--;) {
		switch(r.in(0, 4)) {
		case 4: if(r.chance(70)) std::filesystem::remove(a.get_params().input); else write_file(a.get_params().input, xml); break;
		case 0: a.set_output(r.chance(50) ? other : r.chance(50) ? out : a.get_params().input); break;
		case 1: a.set_output_format(r.pick({ F::CSX, F::PLANTUML, F::PRETTYPRINT })); break;
		case 2: r.chance(50) ? write_file(other, "x") : (void)std::filesystem::remove(other); break;
		case 3: if(r.chance(50)) std::filesystem::remove(out); else write_file(out, "y"); break;
		}
		verify("later");
	}
	// The text form writes no file at all.
	if(parsed) {
		std::map<std::filesystem::path, std::string> files;
		for(auto const& f : std::filesystem::directory_iterator(c.scratch)) if(f.is_regular_file()) files[f.path()] = read_file(f.path());
		a.set_output_format(F::PRETTYPRINT);
		std::ostringstream caught;
		auto* const old = std::cerr.rdbuf(caught.rdbuf());
		auto const res = a.write();
		std::cerr.rdbuf(old);
		c.check(res.has_value(), "prettyprint", "the text form fails");
		std::map<std::filesystem::path, std::string> after;
		for(auto const& f : std::filesystem::directory_iterator(c.scratch)) if(f.is_regular_file()) after[f.path()] = read_file(f.path());
		c.check(after == files, "prettyprint-writes", "the text form changes a file");
		c.count("text_forms");
	}
	c.nontrivial(hash_bytes(c.input));
}

//------------------------------------------------------------------------ A03
void a03(Ctx& c, Rng& r) {
	auto const s = output_scene(r);
	auto const xml = csx::xml(s);
	using F = app::OpenEMSH::Params::OutputFormat;
	F const format = r.pick({ F::CSX, F::CSX, F::PLANTUML });
	int const how = (int)r.in(0, 4);
	static char const* const hows[] = { "full device", "missing directory", "directory", "input gone", "input spoiled" };
	c.input = cat(hows[how], " format ", (int)format, "\n", xml);
	c.sample(c.input);
	auto a = open(c, xml, [&](auto& p) { p.output_format = format; p.force = true; });
	if(!a.parse()) { c.fail("parse", "a well-formed file is refused"); return; }
	a.run_all_steps();
	auto const before = snapshot(a.get_board());
	auto const in = a.get_params().input;
	auto const dir = c.scratch / "some-directory";
	std::filesystem::create_directories(dir);
	bool fails = true;
	auto const good = c.scratch / "good.csx";
	switch(how) {
	case 0: a.set_output("/dev/full"); break;
	case 1: a.set_output(c.scratch / "no-such-directory" / "out.csx"); break;
	case 2: a.set_output(dir); break;
	case 3: std::filesystem::remove(in); a.set_output(good); std::filesystem::remove(good); fails = format == F::CSX; break;
	case 4: write_file(in, "<openEMS><Contin"); a.set_output(good); std::filesystem::remove(good); fails = format == F::CSX; break;
	}
	auto const res = a.write();
	c.check(res.has_value() != fails, "undetected", [&] { return cat("writing (", hows[how], ") ", res ? "is said to succeed" : "fails: " + res.error()); });
	if(!res) {
		c.check(!res.error().empty(), "no-reason", "a failure without a reason");
		if(how >= 3) c.check(!std::filesystem::exists(good), "partial", "a file is left by a failed writing");
	}
	c.count(cat(hows[how], res ? " ok" : " failed"));
	c.check(snapshot(a.get_board()) == before, "state", "a failed writing changes the state");
	// Then it is possible to write elsewhere.
	write_file(in, xml);
	a.set_output(c.scratch / "out.csx");
	if(auto again = a.write(); !again) c.fail("afterwards", cat("writing fails afterwards: ", again.error()));
	else {
		auto const got = read_file(c.scratch / "out.csx");
		auto b = open(c, xml, [&](auto& p) { p.output_format = format; p.output = c.scratch / "ref.csx"; });
		if(format == F::CSX && b.parse()) {
			b.run_all_steps();
			if(b.write()) c.check(read_file(c.scratch / "ref.csx") == got, "afterwards", "what is written afterwards differs");
		}
	}
	c.nontrivial(hash_bytes(c.input));
}

} // namespace

int main(int argc, char** argv) {
	return run_main(argc, argv, { {
		{ "I01", i01 }, { "I02", i02 }, { "I03", i03 }, { "I04", i04 }, { "I05", i05 },
		{ "O01", o01 }, { "O02", o02 }, { "O03", o03 }, { "O04", o04 }, { "A01", a01 }, { "A03", a03 } }, {} });
}
