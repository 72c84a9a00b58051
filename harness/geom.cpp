// Monitors of the geometry the mesher decides with.
#include <memory>
#include <numbers>

#include "domain/geometrics/angle.hpp"
#include "domain/geometrics/bounding.hpp"
#include "domain/geometrics/edge.hpp"
#include "domain/geometrics/point.hpp"
#include "domain/geometrics/polygon.hpp"
#include "domain/geometrics/range.hpp"
#include "domain/geometrics/segment.hpp"
#include "utils/state_management.hpp"

#include "common.hpp"
#include "ref.hpp"

using namespace vf;
using ref::P;
using ref::S;
using ref::Poly;

namespace {

// Lattice coordinates k become k * scale + offset: exact comparisons keep their
// meaning because equal lattice coordinates become the same double.
struct Frame {
	double scale = 0.25, ox = 0, oy = 0;
	double x(long k) const { return (double)k * scale + ox; }
	double y(long k) const { return (double)k * scale + oy; }
	domain::Point pt(P p) const { return { x(p.x), y(p.y) }; }
	domain::Range seg(S s) const { return { pt(s.a), pt(s.b) }; }
	double tol() const { return 1e-9 * (1 + std::abs(scale) * 200 + std::abs(ox) + std::abs(oy)); }
	bool near(double a, double b) const { return std::abs(a - b) <= tol(); }
	std::string str() const { return cat("scale ", scale, " offset ", ox, ",", oy); }
};

Frame random_frame(Rng& r) {
	switch(r.in(0, 5)) {
	case 0: return { 1, 0, 0 };
	case 1: return { 0.1, 0, 0 };
	case 2: return { 1000, 0, 0 };
	case 3: return { 0.25, (double)r.in(-4000, 4000) / 4, (double)r.in(-4000, 4000) / 4 };
	case 4: return { 0.001, 0, 0 };
	default: return { 0.25, 0, 0 };
	}
}

S random_segment(Rng& r, long m) {
	for(;;) {
		S s { { r.in(-m, m), r.in(-m, m) }, { r.in(-m, m), r.in(-m, m) } };
		switch(r.in(0, 4)) {
		case 0: s.b.y = s.a.y; break;
		case 1: s.b.x = s.a.x; break;
		case 2: { long const k = r.in(-m, m); s.b = { s.a.x + k, s.a.y + (r.chance(50) ? k : -k) }; break; }
		default: break;
		}
		if(s.a != s.b)
			return s;
	}
}

// Pairs that meet in particular ways, as often as pairs that do not.
S random_partner(Rng& r, S s, long m) {
	P const d { s.b.x - s.a.x, s.b.y - s.a.y };
	long const g = std::gcd(std::abs(d.x), std::abs(d.y));
	P const u { d.x / g, d.y / g };
	auto at = [&](long k) { return P { s.a.x + k * u.x, s.a.y + k * u.y }; };
	for(;;) {
		S t;
		switch(r.in(0, 5)) {
		case 0: t = { at(r.in(-g - 2, 2 * g + 2)), at(r.in(-g - 2, 2 * g + 2)) }; break; // Colinear.
		case 1: t = { at(r.in(0, g)), { r.in(-m, m), r.in(-m, m) } }; break;             // From a point of it.
		case 2: t = { r.chance(50) ? s.a : s.b, { r.in(-m, m), r.in(-m, m) } }; break;   // From an end of it.
		case 3: { P const o { r.in(-2, 2), r.in(-2, 2) };                                // Parallel.
			t = { { s.a.x + o.x, s.a.y + o.y }, { s.b.x + o.x, s.b.y + o.y } }; break; }
		case 4: t = { at(g + r.in(0, 2)), { r.in(-m, m), r.in(-m, m) } }; break;         // From its extension.
		default: t = random_segment(r, m); break;
		}
		if(r.chance(50))
			std::swap(t.a, t.b);
		if(t.a != t.b)
			return t;
	}
}

char const* name(domain::relation::SegmentSegment v) {
	switch(v) {
	case domain::relation::SegmentSegment::APART: return "APART";
	case domain::relation::SegmentSegment::CROSSING: return "CROSSING";
	case domain::relation::SegmentSegment::COLINEAR: return "COLINEAR";
	default: return "OVERLAPPING";
	}
}
domain::relation::SegmentSegment to(ref::Rel r) {
	switch(r) {
	case ref::Rel::APART: return domain::relation::SegmentSegment::APART;
	case ref::Rel::CROSSING: return domain::relation::SegmentSegment::CROSSING;
	case ref::Rel::COLINEAR: return domain::relation::SegmentSegment::COLINEAR;
	default: return domain::relation::SegmentSegment::OVERLAPPING;
	}
}
domain::relation::PolygonPoint to(ref::In r) {
	return r == ref::In::IN ? domain::relation::PolygonPoint::IN
	     : r == ref::In::ON ? domain::relation::PolygonPoint::ON
	     : domain::relation::PolygonPoint::OUT;
}

long random_extent(Rng& r) { return r.pick({ 3L, 6L, 12L, 40L }); }

//------------------------------------------------------------------------ G01
void g01(Ctx& c, Rng& r) {
	for(int n = 0; n < 40; ++n) {
		Frame const f = random_frame(r);
		long const m = random_extent(r);
		S const s = random_segment(r, m), t = random_partner(r, s, m);
		c.input = cat("segments ", ref::str(s), " ", ref::str(t), " ", f.str());
		auto const a = f.seg(s), b = f.seg(t);
		auto const expected = to(ref::relation(s, t));
		auto const ab = a.relation_to(b), ba = b.relation_to(a);
		c.check(ab == expected, "segment-segment", [&] { return cat("relation is ", name(ab), ", expected ", name(expected)); });
		c.check(ba == expected, "segment-segment-symmetry", [&] { return cat("reverse relation is ", name(ba), ", expected ", name(expected)); });
		c.count(cat("seen_", name(expected)));
		c.nontrivial(hash_bytes(c.input));

		auto const axis = s.a.x == s.b.x ? domain::Segment::Axis::V : s.a.y == s.b.y ? domain::Segment::Axis::H : domain::Segment::Axis::DIAGONAL;
		c.check(a.axis == axis, "axis", "wrong axis");

		P const p = r.chance(50) ? t.a : P { r.in(-m, m), r.in(-m, m) };
		bool const on = ref::on_segment(p, s);
		auto const pp = f.pt(p);
		c.check((a.relation_to(pp) == domain::relation::SegmentPoint::ON) == on, "segment-point", [&] { return cat("point (", p.x, ",", p.y, ") expected ", on ? "ON" : "OUT"); });
		c.count(on ? "points_on" : "points_out");
		if(n == 0)
			c.sample(cat(c.input, " -> ", name(ab)));
	}
}

//------------------------------------------------------------------------ G02
void g02(Ctx& c, Rng& r) {
	for(int n = 0; n < 40; ++n) {
		Frame const f = random_frame(r);
		long const m = random_extent(r);
		S const s = random_segment(r, m), t = random_partner(r, s, m);
		c.input = cat("segments ", ref::str(s), " ", ref::str(t), " ", f.str());
		auto const a = f.seg(s), b = f.seg(t);
		auto const rel = ref::relation(s, t);
		auto same = [&](std::optional<domain::Range> const& got, P p, P q) {
			if(!got)
				return false;
			auto eq = [&](domain::Point const& g, P e) { return f.near(g.x.value(), f.x(e.x)) && f.near(g.y.value(), f.y(e.y)); };
			return (eq(got->p0(), p) && eq(got->p1(), q)) || (eq(got->p0(), q) && eq(got->p1(), p));
		};
		auto show = [](std::optional<domain::Range> const& g) {
			return g ? cat("(", g->p0().x.value(), ",", g->p0().y.value(), ")-(", g->p1().x.value(), ",", g->p1().y.value(), ")") : std::string("nothing");
		};
		if(rel == ref::Rel::CROSSING) {
			auto const [ex, ey] = ref::crossing_point(s, t);
			double const x = ex * f.scale + f.ox, y = ey * f.scale + f.oy;
			for(auto const& [u, v] : { std::pair(&a, &b), std::pair(&b, &a) }) {
				auto const p = domain::intersection(*u, *v);
				c.check(p.has_value(), "intersection-missing", "crossing segments have no intersection");
				if(p)
					c.check(f.near(p->x.value(), x) && f.near(p->y.value(), y), "intersection", [&] {
						return cat("intersection at (", p->x.value(), ",", p->y.value(), "), expected (", x, ",", y, ")"); });
			}
			c.count("intersections");
			c.nontrivial(hash_bytes(c.input));
		} else if(rel == ref::Rel::OVERLAPPING) {
			std::vector<P> v { s.a, s.b, t.a, t.b };
			bool const by_x = s.a.x != s.b.x;
			std::sort(v.begin(), v.end(), [&](P p, P q) { return by_x ? p.x < q.x : p.y < q.y; });
			for(auto const& [u, w] : { std::pair(&a, &b), std::pair(&b, &a) }) {
				auto const o = domain::overlap(*u, *w), h = domain::merge(*u, *w);
				c.check(same(o, v[1], v[2]), "overlap", [&] { return cat("overlap is ", show(o), ", expected ", show(f.seg({ v[1], v[2] }))); });
				c.check(same(h, v[0], v[3]), "merge", [&] { return cat("merge is ", show(h), ", expected ", show(f.seg({ v[0], v[3] }))); });
			}
			c.count(v[1] == v[2] ? "overlaps_touching" : "overlaps");
			c.nontrivial(hash_bytes(c.input));
		} else if(rel == ref::Rel::COLINEAR) {
			c.check(!domain::overlap(a, b).has_value(), "overlap-none", "disjoint colinear segments have an overlap");
			c.count("colinear_disjoint");
		}
		auto const mid = domain::mid(a);
		c.check(f.near(mid.x.value(), (f.x(s.a.x) + f.x(s.b.x)) / 2) && f.near(mid.y.value(), (f.y(s.a.y) + f.y(s.b.y)) / 2), "mid", "wrong middle");
		auto const bnd = domain::bounding(a);
		c.check(bnd[domain::XMIN].value() == f.x(std::min(s.a.x, s.b.x)) && bnd[domain::XMAX].value() == f.x(std::max(s.a.x, s.b.x))
			&& bnd[domain::YMIN].value() == f.y(std::min(s.a.y, s.b.y)) && bnd[domain::YMAX].value() == f.y(std::max(s.a.y, s.b.y)), "bounding", "wrong bounding");
		if(n == 0)
			c.sample(c.input);
	}
}

//------------------------------------------------------------------- polygons
std::unique_ptr<domain::Polygon> make(Frame const& f, Poly const& p, domain::Polygon::RangeZ z = { 0, 0 }) {
	std::vector<std::unique_ptr<domain::Point const>> pts;
	for(auto v : p)
		pts.push_back(std::make_unique<domain::Point const>(f.pt(v)));
	return std::make_unique<domain::Polygon>(domain::XY, std::shared_ptr<domain::Material>(), "p", 1, z, std::move(pts), Caretaker::singleton().get_history_root());
}

struct Reset { ~Reset() { Caretaker::singleton().reset(); } };

Poly random_any(Rng& r, long m) {
	if(r.chance(70))
		return ref::random_simple(r, -m, m, r.chance(30));
	// Whatever outline: crossing itself, going back on itself, repeating vertices.
	Poly p;
	for(int n = (int)r.in(3, 9); n--;)
		p.push_back(!p.empty() && r.chance(8) ? p[r.next() % p.size()] : P { r.in(-m, m), r.in(-m, m) });
	return p;
}

//------------------------------------------------------------------------ G03
void g03(Ctx& c, Rng& r) {
	for(int n = 0; n < 4; ++n) {
		Reset reset;
		Frame f = random_frame(r);
		long const m = r.pick({ 4L, 8L, 20L });
		Poly p = random_any(r, m);
		for(auto& v : p) { v.x *= 2; v.y *= 2; } // So that points lie between vertices too.
		f.scale /= 2;
		auto const poly = make(f, p);
		std::vector<P> pts;
		for(int i = 0; i < 12; ++i)
			pts.push_back({ r.in(-2 * m - 2, 2 * m + 2), r.in(-2 * m - 2, 2 * m + 2) });
		for(int i = 0; i < 4; ++i) { // Level with vertices.
			pts.push_back({ r.pick(p).x, r.in(-2 * m, 2 * m) });
			pts.push_back({ r.in(-2 * m, 2 * m), r.pick(p).y });
			pts.push_back({ r.pick(p).x, r.pick(p).y });
		}
		for(std::size_t i = 0; i < p.size(); ++i) {
			P const a = p[i], b = p[(i + 1) % p.size()];
			pts.push_back({ (a.x + b.x) / 2, (a.y + b.y) / 2 });
			pts.push_back(a);
		}
		for(auto q : pts) {
			c.input = cat("polygon ", ref::str(p), " point (", q.x, ",", q.y, ") ", f.str());
			auto const expected = ref::locate(q, p);
			auto const got = poly->relation_to(f.pt(q));
			c.check(got == to(expected), "polygon-point", [&] { return cat("got ", (int)got, " expected ", (int)to(expected), " (0 IN, 1 ON, 2 OUT)"); });
			c.count(expected == ref::In::IN ? "points_in" : expected == ref::In::ON ? "points_on" : "points_out");
		}
		c.nontrivial(hash_bytes(ref::str(p)));
		c.count(ref::is_simple(p) ? "simple_polygons" : "other_polygons");
		if(n == 0)
			c.sample(cat("polygon ", ref::str(p), ": ", pts.size(), " points"));
	}
}

//------------------------------------------------------------------------ G04
void g04(Ctx& c, Rng& r) {
	using domain::Edge;
	using domain::Polygon;
	for(int n = 0; n < 8; ++n) {
		Reset reset;
		Frame const f = random_frame(r);
		long const m = r.pick({ 4L, 8L, 30L });
		Poly const p = random_any(r, m);
		long const z0 = r.in(-9, 9), z1 = r.in(-9, 9);
		c.input = cat("polygon ", ref::str(p), " z ", z0, " ", z1, " ", f.str());
		auto const poly = make(f, p, { f.x(z0), f.x(z1) });
		c.check(poly->z_placement.min.value() == f.x(std::min(z0, z1)) && poly->z_placement.max.value() == f.x(std::max(z0, z1)), "z-placement", "z range is not sorted");
		int const w = ref::sgn(ref::area2(p));
		auto const rot = w > 0 ? Polygon::Rotation::CCW : w < 0 ? Polygon::Rotation::CW : Polygon::Rotation::COLINEAR;
		c.check(poly->rotation == rot, "rotation", [&] { return cat("rotation ", (int)poly->rotation, " expected ", (int)rot); });
		auto [xmin, xmax] = std::minmax_element(p.begin(), p.end(), [](P a, P b) { return a.x < b.x; });
		auto [ymin, ymax] = std::minmax_element(p.begin(), p.end(), [](P a, P b) { return a.y < b.y; });
		c.check(poly->bounding[domain::XMIN].value() == f.x(xmin->x) && poly->bounding[domain::XMAX].value() == f.x(xmax->x)
			&& poly->bounding[domain::YMIN].value() == f.y(ymin->y) && poly->bounding[domain::YMAX].value() == f.y(ymax->y), "bounding", "wrong bounding");
		c.check(poly->points.size() == p.size() && poly->edges.size() == p.size(), "outline-size", "not as many edges as points");
		if(poly->edges.size() != p.size())
			continue;
		bool const simple = ref::is_simple(p);
		for(std::size_t i = 0; i < p.size(); ++i) {
			P const a = p[(i + p.size() - 1) % p.size()], b = p[i];
			Edge const& e = *poly->edges[i];
			auto at = [&](domain::Point const& q, P v) { return q.x.value() == f.x(v.x) && q.y.value() == f.y(v.y); };
			c.check(at(e.p0(), a) && at(e.p1(), b), "edge-ends", [&] { return cat("edge ", i, " does not join consecutive points"); });
			c.check(e.plane == domain::XY, "edge-plane", "edge is on an other plane");
			c.check(f.near(e.vec.x.value(), f.x(b.x) - f.x(a.x)) && f.near(e.vec.y.value(), f.y(b.y) - f.y(a.y)), "edge-vector", "wrong vector");
			auto const axis = a == b ? domain::Segment::Axis::POINT : a.x == b.x ? domain::Segment::Axis::V : a.y == b.y ? domain::Segment::Axis::H : domain::Segment::Axis::DIAGONAL;
			c.check(e.axis == axis, "edge-axis", "wrong axis");
			if(axis == domain::Segment::Axis::H)
				c.check(e.direction == (b.x > a.x ? Edge::Direction::XMAX : Edge::Direction::XMIN), "edge-direction", "wrong direction");
			if(axis == domain::Segment::Axis::V)
				c.check(e.direction == (b.y > a.y ? Edge::Direction::YMAX : Edge::Direction::YMIN), "edge-direction", "wrong direction");
			if(axis == domain::Segment::Axis::DIAGONAL || axis == domain::Segment::Axis::POINT) {
				c.check(e.normal == domain::Normal::NONE, "normal-diagonal", "a diagonal edge has a normal");
				continue;
			}
			if(!simple)
				continue;
			// The normal goes out of the polygon: look at both sides of the middle.
			long constexpr K = 1l << 20;
			Poly big;
			for(auto v : p) big.push_back({ v.x * K, v.y * K });
			P const mid { (a.x + b.x) * K / 2, (a.y + b.y) * K / 2 };
			P step;
			switch(e.normal) {
			case domain::Normal::XMIN: step = { -1, 0 }; break;
			case domain::Normal::XMAX: step = { 1, 0 }; break;
			case domain::Normal::YMIN: step = { 0, -1 }; break;
			case domain::Normal::YMAX: step = { 0, 1 }; break;
			default: break;
			}
			bool const perpendicular = axis == domain::Segment::Axis::H ? step.y != 0 : step.x != 0;
			c.check(perpendicular, "normal-perpendicular", [&] { return cat("edge ", i, " has a normal that is not perpendicular"); });
			if(perpendicular)
				c.check(ref::locate({ mid.x + step.x, mid.y + step.y }, big) == ref::In::OUT
					&& ref::locate({ mid.x - step.x, mid.y - step.y }, big) == ref::In::IN,
					"normal-outward", [&] { return cat("the normal of edge ", i, " does not go outward"); });
			c.count("normals");
		}
		c.nontrivial(hash_bytes(ref::str(p)));
		c.count(simple ? "simple_polygons" : "other_polygons");
		c.count(w > 0 ? "ccw" : w < 0 ? "cw" : "colinear");
		if(n == 0)
			c.sample(c.input);
	}
	// Circles.
	double const radius = r.real(0.01, 50), cx = r.real(-50, 50), cy = r.real(-50, 50);
	std::size_t const q = (std::size_t)r.in(0, 20), slices = std::max<std::size_t>(q, 1);
	c.input = cat("circle ", cx, ",", cy, " radius ", radius, " slices ", q);
	auto const pts = domain::circle_to_points({ cx, cy }, radius, q);
	c.check(pts.size() == slices * 4, "circle-size", [&] { return cat(pts.size(), " points"); });
	double const t = 1e-9 * (1 + radius + std::abs(cx) + std::abs(cy));
	for(std::size_t i = 0; i < pts.size(); ++i) {
		double const a = std::numbers::pi / 2 * (double)i / (double)slices;
		c.check(std::abs(pts[i]->x.value() - (cx + radius * std::cos(a))) < t && std::abs(pts[i]->y.value() - (cy + radius * std::sin(a))) < t,
			"circle-point", [&] { return cat("point ", i, " at (", pts[i]->x.value(), ",", pts[i]->y.value(), ")"); });
	}
	c.count("circles");
}

//------------------------------------------------------------------------ G05
void g05(Ctx& c, Rng& r) {
	for(int n = 0; n < 30; ++n) {
		Frame const f = random_frame(r);
		long const m = random_extent(r);
		S const s = random_segment(r, m), t = random_segment(r, m);
		c.input = cat("vectors ", ref::str(s), " ", ref::str(t), " ", f.str());
		domain::Point const u = f.pt(s.b) - f.pt(s.a), v = f.pt(t.b) - f.pt(t.a);
		double const got = domain::angle(u, v).value();
		double ux = (double)(s.b.x - s.a.x), uy = (double)(s.b.y - s.a.y), vx = (double)(t.b.x - t.a.x), vy = (double)(t.b.y - t.a.y);
		long double const cs = (long double)(ux * vx + uy * vy) / std::sqrt((long double)(ux * ux + uy * uy)) / std::sqrt((long double)(vx * vx + vy * vy));
		double const expected = (double)(std::acos(std::clamp<long double>(cs, -1, 1)) * 180 / std::numbers::pi_v<long double>);
		c.check(got >= 0 && got <= 180 && std::abs(got - expected) < 1e-5, "angle", [&] { return cat("angle ", got, " expected ", expected); });
		c.nontrivial(hash_bytes(c.input));

		// One dimension, two dimensions.
		long b[8];
		for(auto& k : b) k = r.in(-6, 6);
		for(int i = 0; i < 8; i += 2) if(b[i] > b[i+1]) std::swap(b[i], b[i+1]);
		auto c1 = [&](int i) { return domain::Bounding1D { f.x(b[i]), f.x(b[i+1]) }; };
		auto c2 = [&](int i) { return domain::Bounding2D { f.x(b[i]), f.x(b[i+1]), f.y(b[i+2]), f.y(b[i+3]) }; };
		auto touch = [&](int i, int j) { return b[i] <= b[j+1] && b[j] <= b[i+1]; };
		auto strict = [&](int i, int j) { return b[i] < b[j+1] && b[j] < b[i+1]; };
		c.input = cat("ranges ", b[0], "..", b[1], " ", b[2], "..", b[3], " ", b[4], "..", b[5], " ", b[6], "..", b[7], " ", f.str());
		c.check(domain::does_overlap(c1(0), c1(4)) == touch(0, 4), "overlap-1d", "wrong 1D overlap");
		c.check(domain::does_overlap(c2(0), c2(4)) == (touch(0, 4) && touch(2, 6)), "overlap-2d", "wrong 2D overlap");
		bool const extended = b[0] < b[1] && b[2] < b[3] && b[4] < b[5] && b[6] < b[7];
		if(extended)
			c.check(domain::does_overlap_strict(c2(0), c2(4)) == (strict(0, 4) && strict(2, 6)), "overlap-2d-strict", "wrong strict 2D overlap");
		c.check(domain::does_overlap(domain::Polygon::RangeZ(f.x(b[0]), f.x(b[1])), domain::Polygon::RangeZ(f.x(b[5]), f.x(b[4]))) == touch(0, 4), "overlap-z", "wrong Z overlap");
		c.count(touch(0, 4) ? "z_overlapping" : "z_apart");
		if(n == 0)
			c.sample(c.input);
	}
}

} // namespace

int main(int argc, char** argv) {
	return run_main(argc, argv, { { { "G01", g01 }, { "G02", g02 }, { "G03", g03 }, { "G04", g04 }, { "G05", g05 } }, {} });
}
