// Reference geometry in exact integer arithmetic, and random generators of lattice
// shapes. Nothing here comes from the code under test.
#pragma once

#include <algorithm>
#include <cstdlib>
#include <numeric>
#include <optional>
#include <vector>

#include "common.hpp"

namespace ref {

using I = long;
using W = __int128;

struct P {
	I x = 0, y = 0;
	bool operator==(P const&) const = default;
	auto operator<=>(P const&) const = default;
};
struct S { P a, b; bool operator==(S const&) const = default; };
using Poly = std::vector<P>;

inline int sgn(W v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
inline W cross(P a, P b, P c) { return (W)(b.x - a.x) * (c.y - a.y) - (W)(b.y - a.y) * (c.x - a.x); }
inline int orient(P a, P b, P c) { return sgn(cross(a, b, c)); }

inline bool in_box(P p, S s) {
	return std::min(s.a.x, s.b.x) <= p.x && p.x <= std::max(s.a.x, s.b.x)
	    && std::min(s.a.y, s.b.y) <= p.y && p.y <= std::max(s.a.y, s.b.y);
}
inline bool on_segment(P p, S s) { return orient(s.a, s.b, p) == 0 && in_box(p, s); }

enum class Rel { APART, CROSSING, COLINEAR, OVERLAPPING };
// Both segments have a length.
inline Rel relation(S s, S t) {
	int const a = orient(s.a, s.b, t.a), b = orient(s.a, s.b, t.b);
	int const c = orient(t.a, t.b, s.a), d = orient(t.a, t.b, s.b);
	if(!a && !b) {
		bool const touch = in_box(t.a, s) || in_box(t.b, s) || in_box(s.a, t) || in_box(s.b, t);
		return touch ? Rel::OVERLAPPING : Rel::COLINEAR;
	}
	// They share a point iff neither lies strictly on one side of the other.
	return a * b <= 0 && c * d <= 0 ? Rel::CROSSING : Rel::APART;
}

// Of segments known as CROSSING.
inline std::pair<double, double> crossing_point(S s, S t) {
	W const rx = s.b.x - s.a.x, ry = s.b.y - s.a.y, qx = t.b.x - t.a.x, qy = t.b.y - t.a.y;
	W const den = rx * qy - ry * qx;
	W const num = (W)(t.a.x - s.a.x) * qy - (W)(t.a.y - s.a.y) * qx;
	return { (double)s.a.x + (double)(num * rx) / (double)den, (double)s.a.y + (double)(num * ry) / (double)den };
}

enum class In { OUT, ON, IN };
// Even-odd rule, half-open ray: exact whatever the polygon.
inline In locate(P p, Poly const& poly) {
	bool in = false;
	std::size_t const n = poly.size();
	for(std::size_t i = 0; i < n; ++i) {
		P const a = poly[(i + n - 1) % n], b = poly[i];
		if(on_segment(p, { a, b }))
			return In::ON;
		if((a.y > p.y) != (b.y > p.y)) {
			int const o = orient(a, b, p);
			if((b.y > a.y) == (o > 0))
				in = !in;
		}
	}
	return in ? In::IN : In::OUT;
}

inline W area2(Poly const& poly) {
	W s = 0;
	std::size_t const n = poly.size();
	for(std::size_t i = 0; i < n; ++i) {
		P const a = poly[i], b = poly[(i + 1) % n];
		s += (W)a.x * b.y - (W)b.x * a.y;
	}
	return s;
}

inline bool is_simple(Poly const& poly) {
	std::size_t const n = poly.size();
	if(n < 3 || area2(poly) == 0)
		return false;
	auto seg = [&](std::size_t i) { return S { poly[i], poly[(i + 1) % n] }; };
	for(std::size_t i = 0; i < n; ++i)
		if(poly[i] == poly[(i + 1) % n])
			return false;
	for(std::size_t i = 0; i < n; ++i)
		for(std::size_t j = i + 1; j < n; ++j) {
			Rel const r = relation(seg(i), seg(j));
			bool const adjacent = j == i + 1 || (i == 0 && j == n - 1);
			if(!adjacent) {
				if(r == Rel::CROSSING || r == Rel::OVERLAPPING)
					return false;
			} else if(r == Rel::OVERLAPPING) {
				// Straight continuation is fine, a spike is not.
				S const a = j == i + 1 ? seg(i) : seg(j), b = j == i + 1 ? seg(j) : seg(i);
				if((W)(a.b.x - a.a.x) * (b.b.x - b.a.x) + (W)(a.b.y - a.a.y) * (b.b.y - b.a.y) < 0)
					return false;
			}
		}
	return true;
}

//---------------------------------------------------------------- generators
using vf::Rng;

inline Poly box(P a, P b) { return { a, { a.x, b.y }, b, { b.x, a.y } }; }

inline Poly random_box(Rng& r, I lo, I hi) {
	P a { r.in(lo, hi), r.in(lo, hi) }, b { r.in(lo, hi), r.in(lo, hi) };
	while(b.x == a.x) b.x = r.in(lo, hi);
	while(b.y == a.y) b.y = r.in(lo, hi);
	return box(a, b);
}

// L, T, U, staircase, comb... : the outline of the histogram of a few columns.
inline Poly random_histogram(Rng& r, I lo, I hi) {
	int const cols = (int)r.in(2, 5);
	I const w = std::max<I>(1, (hi - lo) / (cols * 2));
	I x = r.in(lo, lo + w);
	I const base = r.in(lo, (lo + hi) / 2);
	Poly p { { x, base } };
	I h = 0;
	for(int i = 0; i < cols; ++i) {
		I nh = r.in(1, std::max<I>(1, hi - base));
		if(nh == h)
			nh = nh > 1 ? nh - 1 : nh + 1;
		h = nh;
		p.push_back({ x, base + h });
		x += r.in(1, w + 1);
		p.push_back({ x, base + h });
	}
	p.push_back({ x, base });
	return p;
}

// Around a centre, vertices by increasing angle.
inline Poly random_star(Rng& r, I lo, I hi) {
	for(int attempt = 0; attempt < 50; ++attempt) {
		int const n = (int)r.in(3, 8);
		P const c { r.in(lo, hi), r.in(lo, hi) };
		Poly p;
		for(int i = 0; i < n; ++i)
			p.push_back({ r.in(lo, hi), r.in(lo, hi) });
		std::sort(p.begin(), p.end(), [&](P a, P b) {
			double const aa = atan2((double)(a.y - c.y), (double)(a.x - c.x)), ab = atan2((double)(b.y - c.y), (double)(b.x - c.x));
			return aa != ab ? aa < ab : a < b;
		});
		if(is_simple(p))
			return p;
	}
	return box({ lo, lo }, { hi, hi });
}

inline void transform(Rng& r, Poly& p, I lo, I hi) {
	if(r.chance(50))
		for(auto& v : p) std::swap(v.x, v.y);
	if(r.chance(50))
		for(auto& v : p) v.x = lo + hi - v.x;
	if(r.chance(50))
		for(auto& v : p) v.y = lo + hi - v.y;
	if(r.chance(50))
		std::reverse(p.begin(), p.end());
	std::rotate(p.begin(), p.begin() + (long)(r.next() % p.size()), p.end());
	if(r.chance(8)) { // A vertex in the middle of an edge.
		std::size_t const i = r.next() % p.size();
		P const a = p[i], b = p[(i + 1) % p.size()];
		if((a.x + b.x) % 2 == 0 && (a.y + b.y) % 2 == 0 && P { (a.x + b.x) / 2, (a.y + b.y) / 2 } != a)
			p.insert(p.begin() + (long)i + 1, P { (a.x + b.x) / 2, (a.y + b.y) / 2 });
	}
}

// Simple polygons; rectilinear only if so asked.
inline Poly random_simple(Rng& r, I lo, I hi, bool rectilinear) {
	for(;;) {
		int const k = (int)r.in(0, rectilinear ? 1 : 3);
		Poly p = k == 0 ? random_box(r, lo, hi) : k == 1 ? random_histogram(r, lo, hi) : random_star(r, lo, hi);
		transform(r, p, lo, hi);
		if(is_simple(p))
			return p;
	}
}

inline std::string str(Poly const& p) {
	std::string s;
	for(auto v : p)
		s += vf::cat("(", v.x, ",", v.y, ")");
	return s;
}
inline std::string str(S s) { return vf::cat("(", s.a.x, ",", s.a.y, ")-(", s.b.x, ",", s.b.y, ")"); }

} // namespace ref
