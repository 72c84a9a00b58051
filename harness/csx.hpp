// CSX scenes: a small model of the input file, its random generation and its XML form.
#pragma once

#include <array>
#include <cstdio>
#include <string>
#include <vector>

#include "common.hpp"
#include "ref.hpp"

namespace csx {

using vf::Rng;
using vf::cat;

inline std::string num(double v) {
	char b[64];
	snprintf(b, sizeof b, "%.17g", v);
	return b;
}

enum Kind { BOX, MULTIBOX, LINPOLY, POLYGON, SPHERE, CYLINDER, POINT, CURVE, OTHER };
enum Type { PORT, CONDUCTOR, DIELECTRIC, AIR }; // As the mesher should see them.

using V3 = std::array<double, 3>;

struct Prim {
	Kind kind = BOX;
	unsigned priority = 0;
	int normal = 2;              // LINPOLY, POLYGON.
	double elevation = 0, length = 0;
	std::vector<std::array<double, 2>> outline; // LINPOLY, POLYGON: X1, X2.
	std::vector<V3> pts;         // BOX 2, MULTIBOX 2n, SPHERE 1, CYLINDER 2, POINT 1, CURVE n.
	double radius = 0;
	std::string other;           // OTHER: its tag.
	bool transformed = false;
	std::string transformation = "<Transformation><Translate Argument=\"1,2,3\"/></Transformation>"; // If transformed.
	bool void_transformation = false; // Says nothing: as if not there.
};

struct Prop {
	std::string tag = "Metal";
	std::string name = "p";
	double epsilon = 1, mue = 1, kappa = 0;
	bool has_property_node = false;
	std::string extra;           // Verbatim children.
	std::vector<Prim> prims;
};

struct Globals {
	std::optional<double> proximity, smoothness, dmax;
	std::optional<long> lmin;
};

struct Scene {
	double unit = 0.25;          // Lattice step of the coordinates, when they are on one.
	bool under_openems = true;
	std::optional<std::array<double, 3>> background; // epsilon, mue, kappa
	std::vector<Prop> props;
	Globals globals;
	bool write_oemsh = true;
	double fixed_delta_unit = 1;
	std::array<std::vector<double>, 3> fixed;
	double grid_delta_unit = 1;
	std::array<std::vector<double>, 3> grid;
	std::string fdtd;            // Verbatim.
	std::string csx_extra;       // Verbatim, inside ContinuousStructure.

	std::size_t n_prims() const { std::size_t n = 0; for(auto const& p : props) n += p.prims.size(); return n; }
};

inline std::string join(std::vector<double> const& v) {
	std::string s;
	for(std::size_t i = 0; i < v.size(); ++i)
		s += (i ? "," : "") + num(v[i]);
	return s;
}

inline std::string xyz(V3 const& v) { return " X=\"" + num(v[0]) + "\" Y=\"" + num(v[1]) + "\" Z=\"" + num(v[2]) + "\""; }

inline std::string xml(Prim const& p) {
	static char const* const tags[] = { "Box", "MultiBox", "LinPoly", "Polygon", "Sphere", "Cylinder", "Point", "Curve", "" };
	std::string const tag = p.kind == OTHER ? p.other : tags[p.kind];
	std::string s = "<" + tag + " Priority=\"" + std::to_string(p.priority) + "\"";
	std::string body;
	switch(p.kind) {
	case BOX: body = "<P1" + xyz(p.pts[0]) + "/><P2" + xyz(p.pts[1]) + "/>"; break;
	case MULTIBOX:
		for(std::size_t i = 0; i + 1 < p.pts.size(); i += 2)
			body += "<StartP" + xyz(p.pts[i]) + "/><EndP" + xyz(p.pts[i+1]) + "/>";
		break;
	case LINPOLY:
		s += " Length=\"" + num(p.length) + "\"";
		[[fallthrough]];
	case POLYGON:
		s += " NormDir=\"" + std::to_string(p.normal) + "\" Elevation=\"" + num(p.elevation) + "\" QtyVertices=\"" + std::to_string(p.outline.size()) + "\"";
		for(auto const& v : p.outline)
			body += "<Vertex X1=\"" + num(v[0]) + "\" X2=\"" + num(v[1]) + "\"/>";
		break;
	case SPHERE:
		s += " Radius=\"" + num(p.radius) + "\"";
		body = "<Center" + xyz(p.pts[0]) + "/>";
		break;
	case CYLINDER:
		s += " Radius=\"" + num(p.radius) + "\"";
		body = "<P1" + xyz(p.pts[0]) + "/><P2" + xyz(p.pts[1]) + "/>";
		break;
	case POINT: s += xyz(p.pts[0]); break;
	case CURVE:
		for(auto const& v : p.pts)
			body += "<Vertex" + xyz(v) + "/>";
		break;
	case OTHER:
		body = "<P1 X=\"0\" Y=\"0\" Z=\"0\"/><P2 X=\"9\" Y=\"9\" Z=\"9\"/>";
		break;
	}
	if(p.transformed)
		body += p.transformation;
	else if(p.void_transformation)
		body += "<Transformation/>";
	return s + ">" + body + "</" + tag + ">\n";
}

inline std::string xml(Scene const& s) {
	std::string o = "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\" ?>\n";
	if(s.write_oemsh) {
		o += "<OpenEMSH><GlobalParams";
		if(s.globals.proximity) o += " ProximityLimit=\"" + num(*s.globals.proximity) + "\"";
		if(s.globals.smoothness) o += " Smoothness=\"" + num(*s.globals.smoothness) + "\"";
		if(s.globals.dmax) o += " dmax=\"" + num(*s.globals.dmax) + "\"";
		if(s.globals.lmin) o += " lmin=\"" + std::to_string(*s.globals.lmin) + "\"";
		o += "/>\n";
		if(!s.fixed[0].empty() || !s.fixed[1].empty() || !s.fixed[2].empty()) {
			o += "<FixedMeshlines";
			if(s.fixed_delta_unit != 1) o += " DeltaUnit=\"" + num(s.fixed_delta_unit) + "\"";
			o += ">";
			for(int a = 0; a < 3; ++a)
				if(!s.fixed[a].empty())
					o += cat("<", "XYZ"[a], "Lines>") + join(s.fixed[a]) + cat("</", "XYZ"[a], "Lines>");
			o += "</FixedMeshlines>\n";
		}
		o += "</OpenEMSH>\n";
	}
	if(s.under_openems)
		o += "<openEMS>\n" + s.fdtd;
	o += "<ContinuousStructure CoordSystem=\"0\"";
	if(s.grid_delta_unit != 1) o += " DeltaUnit=\"" + num(s.grid_delta_unit) + "\"";
	o += ">\n<RectilinearGrid";
	o += ">";
	for(int a = 0; a < 3; ++a)
		if(!s.grid[a].empty())
			o += cat("<", "XYZ"[a], "Lines>") + join(s.grid[a]) + cat("</", "XYZ"[a], "Lines>");
	o += "</RectilinearGrid>\n";
	if(s.background)
		o += "<BackgroundMaterial Epsilon=\"" + num((*s.background)[0]) + "\" Mue=\"" + num((*s.background)[1]) + "\" Kappa=\"" + num((*s.background)[2]) + "\" Sigma=\"0\"/>\n";
	o += s.csx_extra;
	o += "<Properties>\n";
	for(std::size_t i = 0; i < s.props.size(); ++i) {
		auto const& p = s.props[i];
		o += "<" + p.tag + " ID=\"" + std::to_string(i) + "\" Name=\"" + p.name + "\">";
		if(p.has_property_node)
			o += "<Property Epsilon=\"" + num(p.epsilon) + "\" Mue=\"" + num(p.mue) + "\" Kappa=\"" + num(p.kappa) + "\" Sigma=\"0\"/>";
		o += p.extra + "<Primitives>\n";
		for(auto const& q : p.prims)
			o += xml(q);
		o += "</Primitives></" + p.tag + ">\n";
	}
	o += "</Properties>\n</ContinuousStructure>\n";
	if(s.under_openems)
		o += "</openEMS>\n";
	return o;
}

//---------------------------------------------------------------- generation
struct Options {
	bool diagonals = false;   // Polygons with diagonal edges.
	bool round = false;       // Spheres and cylinders.
	bool curves = false;
	bool fixed = true;
	bool globals = true;
	long extent = 12;         // Lattice.
	int min_prims = 1, max_prims = 6;
	bool flat = true;         // Shapes without thickness.
	bool any_unit = false;    // Coordinates that are not exact in binary.
};

inline Prop random_prop(Rng& r, int i) {
	Prop p;
	p.name = "prop" + std::to_string(i);
	switch(r.in(0, 9)) {
	case 0: case 1: case 2: p.tag = "Metal"; break;
	case 3: p.tag = "ConductingSheet"; break;
	case 4: p.tag = r.pick({ "LumpedElement", "Excitation", "ProbeBox" }); break;
	case 5: p.tag = "Material"; p.has_property_node = true; p.kappa = 50000000; break; // Conductor.
	case 6: p.tag = "Material"; p.has_property_node = true; break;                    // Air.
	default: p.tag = "Material"; p.has_property_node = true; p.epsilon = r.pick({ 2.2, 4.6, 9.8 }); break;
	}
	return p;
}

inline Prim random_prim(Rng& r, double u, Options const& o) {
	long const E = o.extent;
	Prim p;
	p.priority = (unsigned)r.pick({ 0L, 1L, 1L, 2L, 5L });
	auto lat = [&] { return (double)r.in(0, E) * u; };
	int const k = (int)r.in(0, 99);
	auto outline = [&](ref::Poly const& q) {
		for(auto v : q)
			p.outline.push_back({ (double)v.x * u, (double)v.y * u });
	};
	if(o.curves && k >= 94) {
		p.kind = k % 2 ? CURVE : POINT;
		for(long n = p.kind == POINT ? 1 : r.in(2, 4); n--;)
			p.pts.push_back({ lat(), lat(), lat() });
	} else if(o.round && k >= 82) {
		p.kind = k % 2 ? SPHERE : CYLINDER;
		p.radius = (double)r.in(1, E / 2) * u;
		p.pts.push_back({ lat(), lat(), lat() });
		if(p.kind == CYLINDER) {
			V3 q = p.pts[0];
			q[r.next() % 3] += (double)r.in(1, E) * u;
			p.pts.push_back(q);
		}
	} else if(k < 35) {
		p.kind = r.chance(85) ? BOX : MULTIBOX;
		for(long n = p.kind == BOX ? 1 : r.in(1, 3); n--;) {
			V3 a { lat(), lat(), lat() }, b { lat(), lat(), lat() };
			int const flat = o.flat && r.chance(20) ? (int)r.in(0, 2) : -1;
			for(int i = 0; i < 3; ++i) {
				while(i != flat && b[i] == a[i]) b[i] = lat();
				if(i == flat) b[i] = a[i];
			}
			p.pts.push_back(a);
			p.pts.push_back(b);
		}
	} else {
		p.kind = r.chance(70) ? LINPOLY : POLYGON;
		p.normal = r.chance(70) ? 2 : (int)r.in(0, 1);
		p.elevation = lat();
		p.length = o.flat && r.chance(10) ? 0 : (double)r.in(1, E / 2) * u * (r.chance(20) ? -1 : 1);
		outline(ref::random_simple(r, 0, E, !o.diagonals || r.chance(40)));
	}
	return p;
}

inline Scene random_scene(Rng& r, Options const& o) {
	Scene s;
	s.unit = o.any_unit && r.chance(50) ? r.pick({ 0.1, 0.3, 0.7, 1.1, 3.3 }) : r.pick({ 0.25, 0.5, 1.0, 2.0, 4.0 });
	if(r.chance(80))
		s.background = r.chance(70) ? std::array<double, 3> { 1, 1, 0 } : r.chance(50) ? std::array<double, 3> { 1, 1, 50000000 } : std::array<double, 3> { 3, 1, 0 };
	int const np = (int)r.in(1, 4);
	for(int i = 0; i < np; ++i)
		s.props.push_back(random_prop(r, i));
	int const n = (int)r.in(o.min_prims, o.max_prims);
	for(int i = 0; i < n; ++i) {
		auto& prop = s.props[r.next() % s.props.size()];
		// Twins: same place, same outline, other material or priority.
		if(i && r.chance(10)) {
			auto const& from = s.props[r.next() % s.props.size()].prims;
			if(!from.empty()) {
				Prim twin = r.pick(from);
				twin.priority = (unsigned)r.in(0, 3);
				prop.prims.push_back(twin);
				continue;
			}
		}
		prop.prims.push_back(random_prim(r, s.unit, o));
	}
	if(o.globals) {
		if(r.chance(60)) s.globals.proximity = r.pick({ 0.0, 0.25, 0.5, 1.0, 2.0, 4.0 });
		if(r.chance(60)) s.globals.smoothness = r.pick({ 1.0, 1.1, 1.2, 1.3, 1.5, 2.0, 3.0 });
		if(r.chance(60)) s.globals.dmax = r.pick({ 0.5, 1.0, 2.5, 5.0, 20.0 });
		if(r.chance(60)) s.globals.lmin = r.in(0, 10);
	}
	if(o.fixed && r.chance(40))
		for(int a = 0; a < 3; ++a)
			for(long k = r.in(0, 3); k--;)
				s.fixed[a].push_back((double)r.in(-4, o.extent + 4) * s.unit);
	return s;
}

} // namespace csx
