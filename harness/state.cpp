// State management: random operation histories against a model; trees against a naive one.
#include <algorithm>
#include <memory>
#include <optional>

#include "common.hpp"
#include "utils/state_management.hpp"
#include "utils/tree_node.hpp"

using namespace vf;

namespace {

//------------------------------------------------------------------------ S01
struct Obj;
struct St {
	long v = 0;
	std::vector<std::shared_ptr<Obj>> kids; // Objects that exist only where this state does.
};
struct Obj : Originator<St> {
	std::size_t const id;
	Obj(std::size_t id, Timepoint* t, long v, Caretaker& c) : Originator<St>(t, St { v, {} }, c), id(id) {}
};
struct Fix : Originator<long const> {
	std::size_t const id;
	Fix(std::size_t id, Timepoint* t, long v, Caretaker& c) : Originator<long const>(t, v, c), id(id) {}
};
struct Note : IAnnotation {
	long n;
	explicit Note(long n) : n(n) {}
};

constexpr std::size_t none = (std::size_t)-1;

struct MNode {
	std::size_t parent = none;
	bool alive = true;
	Timepoint* ptr = nullptr;
	std::optional<long> note;
};
struct MState { std::size_t at; long v; std::vector<std::size_t> kids; };
struct MObj {
	bool is_const = false;
	std::size_t owner = none;   // Object whose states hold it.
	bool alive = true;
	std::size_t init;
	std::vector<MState> states; // In order of insertion.
	std::weak_ptr<Obj> obj;
	std::weak_ptr<Fix> fix;
};

struct Machine {
	Ctx& c;
	Rng& r;
	std::unique_ptr<Caretaker> ct = std::make_unique<Caretaker>();
	std::vector<MNode> nodes;
	std::map<Timepoint*, std::size_t> of; // Living nodes.
	std::vector<std::shared_ptr<Obj>> owned;
	std::vector<std::shared_ptr<Fix>> owned_fix;
	std::vector<MObj> objs;
	std::vector<std::size_t> history, pins;
	std::optional<std::size_t> browser;
	std::size_t current = 0;
	bool auto_gc = true;
	long values = 0;
	std::ostringstream log;
	std::uint64_t h = 0;

	Machine(Ctx& c, Rng& r) : c(c), r(r) {
		nodes.push_back({ none, true, ct->get_history_root(), {} });
		of[nodes[0].ptr] = 0;
		history = { 0 };
		int const n = (int)r.in(1, 4);
		for(int i = 0; i < n; ++i) create(none);
	}
	void bad(std::string const& key, std::string const& m) { c.input = log.str(); c.fail(key, m); }
	void say(std::string const& s) { log << s << "\n"; h = hash_bytes(s, h ^ 1469598103934665603ull); }

	bool is_ancestor_or_self(std::size_t a, std::size_t t) const {
		for(; t != none; t = nodes[t].parent)
			if(t == a) return true;
		return false;
	}
	std::size_t depth(std::size_t t) const { std::size_t d = 0; for(; nodes[t].parent != none; t = nodes[t].parent) ++d; return d; }

	MState const& value(MObj const& o) const {
		MState const* best = nullptr;
		for(auto const& s : o.states)
			if(is_ancestor_or_self(s.at, current) && (!best || depth(s.at) > depth(best->at)))
				best = &s;
		if(best) return *best;
		for(auto const& s : o.states)
			if(s.at == o.init) return s;
		std::abort();
	}
	std::size_t add_node() {
		std::size_t const id = nodes.size();
		auto* p = ct->make_next_timepoint();
		model_stop_browsing();
		nodes.push_back({ current, true, p, {} });
		current = id;
		if(of.contains(p)) bad("timepoint-reused", "a new timepoint is an existing one");
		of[p] = id;
		c.check(ct->get_current_timepoint() == p, "make-next", "the new timepoint is not the current one");
		return id;
	}
	// An object created at the current timepoint.
	std::size_t create(std::size_t owner) {
		MObj m;
		m.init = current;
		m.owner = owner;
		m.is_const = owner == none && r.chance(20);
		long const v = ++values;
		m.states.push_back({ current, v, {} });
		std::size_t const id = objs.size();
		if(m.is_const) {
			auto p = std::make_shared<Fix>(id, nodes[current].ptr, v, *ct);
			m.fix = p;
			owned_fix.push_back(p);
			ct->take_care_of(p);
		} else {
			auto p = std::make_shared<Obj>(id, nodes[current].ptr, v, *ct);
			m.obj = p;
			ct->take_care_of(p);
			if(owner == none) owned.push_back(p);
			else kid = p;
		}
		objs.push_back(m);
		say(cat("object ", id, " created at ", current, owner == none ? "" : " in a state"));
		return id;
	}
	std::shared_ptr<Obj> kid;

	void drop(std::size_t id) {
		objs[id].alive = false;
		std::erase_if(owned, [&](auto const& p) { return p->id == id; });
		std::erase_if(owned_fix, [&](auto const& p) { return p->id == id; });
		reap_kids();
	}
	// What no state holds anymore no longer exists.
	void reap_kids() {
		for(bool again = true; again;) {
			again = false;
			std::set<std::size_t> held;
			for(auto const& o : objs)
				if(o.alive)
					for(auto const& s : o.states) held.insert(s.kids.begin(), s.kids.end());
			for(std::size_t i = 0; i < objs.size(); ++i)
				if(objs[i].alive && objs[i].owner != none && !held.contains(i)) {
					objs[i].alive = false;
					again = true;
				}
		}
	}
	void model_gc() {
		std::set<std::size_t> keep;
		auto k = [&](std::size_t t) { for(; t != none; t = nodes[t].parent) keep.insert(t); };
		for(auto t : history) k(t);
		for(auto t : pins) k(t);
		k(current);
		bool any = false;
		for(std::size_t i = 0; i < nodes.size(); ++i)
			if(nodes[i].alive && !keep.contains(i)) {
				nodes[i].alive = false;
				nodes[i].note.reset();
				of.erase(nodes[i].ptr);
				any = true;
			}
		for(auto& o : objs)
			if(o.alive)
				std::erase_if(o.states, [&](auto const& s) { return !nodes[s.at].alive && s.at != o.init; });
		reap_kids();
		// An object that was born in a timepoint that is no more is to be dropped by who owns it.
		for(std::size_t i = 0; i < objs.size(); ++i)
			if(objs[i].alive && !nodes[objs[i].init].alive) {
				if(objs[i].owner != none) {
					bad("kid", cat("object ", i, " outlives its birth"));
					return;
				}
				drop(i);
				c.count("dropped_by_gc");
			}
		c.count(any ? "collections_that_reclaim" : "collections");
	}
	void model_stop_browsing() {
		if(browser) {
			history.resize(*browser + 1);
			browser.reset();
			if(auto_gc) model_gc();
		}
	}
	bool m_can_undo(std::size_t n) const {
		if(!n) return false;
		if(browser) return n <= *browser;
		return n <= (history.back() == current ? history.size() - 1 : history.size());
	}
	bool m_can_redo(std::size_t n) const { return n && browser && n <= history.size() - 1 - *browser; }

	std::vector<std::size_t> alive_objs(bool with_kids = true) const {
		std::vector<std::size_t> v;
		for(std::size_t i = 0; i < objs.size(); ++i)
			if(objs[i].alive && (with_kids || objs[i].owner == none)) v.push_back(i);
		return v;
	}
	std::vector<std::size_t> alive_nodes() const {
		std::vector<std::size_t> v;
		for(std::size_t i = 0; i < nodes.size(); ++i) if(nodes[i].alive) v.push_back(i);
		return v;
	}
	// Kids are visible only where their owner's state that holds them is.
	bool visible(std::size_t id) const {
		auto const& o = objs[id];
		if(o.owner == none) return true;
		if(!objs[o.owner].alive || !visible(o.owner)) return false;
		auto const& s = value(objs[o.owner]);
		return std::ranges::find(s.kids, id) != s.kids.end();
	}

	void set(std::size_t id, std::size_t t) {
		auto& o = objs[id];
		long const v = ++values;
		say(cat("set ", id, " at ", t, " = ", v));
		auto existing = std::ranges::find_if(o.states, [&](auto const& s) { return s.at == t; });
		if(o.is_const) {
			auto p = o.fix.lock();
			if(!p) { bad("lifetime", cat("object ", id, " is gone")); return; }
			p->set_state(nodes[t].ptr, v);
			if(existing == o.states.end()) o.states.push_back({ t, v, {} });
			else c.count("refused_replacements");
			return;
		}
		auto p = o.obj.lock();
		if(!p) { bad("lifetime", cat("object ", id, " is gone")); return; }
		St s;
		s.v = v;
		std::vector<std::size_t> kids;
		// Kids of the present state are inherited, or not; sometimes a new one comes.
		if(r.chance(70)) {
			auto const& now = value(o);
			if(existing == o.states.end() || r.chance(50)) kids = now.kids;
			for(auto k : kids) {
				auto q = objs[k].obj.lock();
				if(!q) { bad("lifetime", cat("object ", k, " is gone")); return; }
				s.kids.push_back(q);
			}
		}
		if(t == current && r.chance(25) && objs.size() < 30) {
			auto const k = create(id);
			s.kids.push_back(kid);
			kid.reset();
			kids.push_back(k);
			c.count("kids");
		}
		p->set_state(nodes[t].ptr, s);
		auto& o2 = objs[id];
		existing = std::ranges::find_if(o2.states, [&](auto const& s) { return s.at == t; });
		if(existing == o2.states.end()) o2.states.push_back({ t, v, kids });
		else { existing->v = v; existing->kids = kids; c.count("replacements"); }
		s.kids.clear();
		p.reset();
		reap_kids();
	}
	bool can_set(std::size_t id, std::size_t t) const {
		auto const& o = objs[id];
		if(!visible(id) || !is_ancestor_or_self(o.init, t) || !is_ancestor_or_self(t, current)) return false;
		for(auto const& s : o.states)
			if(s.at != t && is_ancestor_or_self(t, s.at)) return false; // A later state is there already.
		return true;
	}

	void look(bool all) {
		c.check(ct->get_current_timepoint() == nodes[current].ptr, "current", "wrong current timepoint");
		for(std::size_t i = 0; i < objs.size(); ++i) {
			auto const& o = objs[i];
			bool const exists = o.is_const ? !o.fix.expired() : !o.obj.expired();
			if(exists != o.alive) {
				bad("lifetime", cat("object ", i, exists ? " still exists" : " is gone"));
				return;
			}
			if(!o.alive || !visible(i) || !(all || r.chance(30))) continue;
			auto const& want = value(o);
			c.count("states_compared");
			auto compare = [&](auto& p, auto const& state, auto v) {
				if(v(state) != want.v) bad("state", cat("object ", i, " has ", v(state), " instead of ", want.v, " at ", current));
				if(p.get_current_timepoint() != nodes[want.at].ptr) bad("state-timepoint", cat("object ", i, " is at the wrong timepoint"));
				auto const av = p.get_available_states();
				bool ok = av.size() == o.states.size();
				for(std::size_t k = 0; ok && k < av.size(); ++k)
					ok = av[k].first == nodes[o.states[k].at].ptr && v(av[k].second) == o.states[k].v;
				if(!ok) bad("available-states", cat("object ", i, " has ", av.size(), " states, expected ", o.states.size()));
			};
			if(o.is_const) {
				auto p = o.fix.lock();
				compare(*p, p->get_current_state(), [](long const& s) { return s; });
			} else {
				auto p = o.obj.lock();
				auto const& s = p->get_current_state();
				compare(*p, s, [](St const& s) { return s.v; });
				std::vector<std::size_t> kids;
				for(auto const& k : s.kids) kids.push_back(k->id);
				if(kids != want.kids) bad("state", cat("object ", i, " holds other objects"));
			}
		}
		if(!all) return;
		std::set<Timepoint*> got, want;
		for(auto* t : ct->get_history_root()->cluster(true)) got.insert(t);
		for(auto const& n : nodes) if(n.alive) want.insert(n.ptr);
		if(got != want) { bad("nodes", cat(got.size(), " timepoints, expected ", want.size())); return; }
		for(auto const& n : nodes)
			if(n.alive && n.parent != none && n.ptr->parent() != nodes[n.parent].ptr) bad("nodes", "wrong parent");
		for(auto const& n : nodes)
			if(n.alive) {
				auto const* a = dynamic_cast<Note const*>(ct->get_annotation(n.ptr));
				if((bool)a != n.note.has_value() || (a && a->n != *n.note)) bad("annotation", "wrong annotation");
			}
		for(std::size_t n = 0; n <= history.size() + 2; ++n) {
			if(ct->can_undo(n) != m_can_undo(n)) bad("can-undo", cat("can_undo(", n, ") is ", ct->can_undo(n)));
			if(ct->can_redo(n) != m_can_redo(n)) bad("can-redo", cat("can_redo(", n, ") is ", ct->can_redo(n)));
		}
		std::vector<Timepoint*> wp;
		for(auto p : pins) wp.push_back(nodes[p].ptr);
		if(ct->get_pinned_timepoints() != wp) bad("pins", "wrong pinned timepoints");
		for(bool self : { false, true }) {
			for(int odd = 0; odd < 2; ++odd) {
				std::size_t t = self ? current : nodes[current].parent;
				while(t != none && !(nodes[t].note && (!odd || *nodes[t].note % 2))) t = nodes[t].parent;
				auto* w = t == none ? nullptr : nodes[t].ptr;
				auto* g = odd ? ct->find_first_ancestor_with_annotation_that([](IAnnotation const* a) { return dynamic_cast<Note const*>(a)->n % 2 != 0; }, self)
					: ct->find_first_ancestor_with_annotation(self);
				if(g != w) bad("annotated-ancestor", "wrong annotated ancestor");
			}
		}
		c.count("full_looks");
	}

	void step() {
		auto const pick_obj = [&]() -> std::optional<std::size_t> {
			std::vector<std::size_t> v;
			for(auto i : alive_objs()) if(visible(i)) v.push_back(i);
			if(v.empty()) return {};
			return r.pick(v);
		};
		switch(r.in(0, 19)) {
		case 0: case 1: { // A next state, as edits do.
			auto o = pick_obj();
			if(!o) break;
			auto const t = add_node();
			say(cat("next timepoint ", t));
			if(objs[*o].alive && can_set(*o, t)) set(*o, t);
			c.count("op_next");
			break;
		}
		case 2: case 3: { // Several objects at once, as steps do.
			auto const t = add_node();
			say(cat("next timepoint ", t));
			for(auto i : alive_objs())
				if(objs[i].alive && r.chance(50) && can_set(i, t)) set(i, t);
			if(r.chance(40)) create(none);
			c.count("op_next");
			break;
		}
		case 4: { // A timepoint on the way to the present one.
			auto o = pick_obj();
			if(!o) break;
			std::size_t t = current;
			for(long k = r.in(0, 3); k > 0 && nodes[t].parent != none; --k) t = nodes[t].parent;
			if(can_set(*o, t)) { set(*o, t); c.count(t == current ? "op_set_here" : "op_set_before"); }
			break;
		}
		case 5: {
			auto v = alive_objs(false);
			if(v.size() > 1 && r.chance(30)) { auto const d = r.pick(v); say(cat("drop ", d)); drop(d); c.count("op_drop"); }
			break;
		}
		case 6: case 7: case 8:
			if(browser) break;
			say(cat("remember ", current));
			ct->remember_current_timepoint();
			if(history.back() != current) history.push_back(current);
			c.count("op_remember");
			break;
		case 9: case 10: case 11: {
			std::size_t const n = r.chance(80) ? 1 : (std::size_t)r.in(0, (long)history.size() + 1);
			say(cat("undo ", n));
			ct->undo(n);
			if(m_can_undo(n)) {
				std::size_t b = browser ? *browser : history.size() - 1;
				std::size_t k = n;
				if(!browser && history.back() != current) --k;
				b -= k;
				current = history[b];
				browser = b;
				if(b == history.size() - 1) browser.reset();
				c.count("op_undo");
			} else c.count("op_undo_refused");
			break;
		}
		case 12: case 13: {
			std::size_t const n = r.chance(80) ? 1 : (std::size_t)r.in(0, (long)history.size() + 1);
			say(cat("redo ", n));
			ct->redo(n);
			if(m_can_redo(n)) {
				browser = *browser + n;
				current = history[*browser];
				if(*browser == history.size() - 1) browser.reset();
				c.count("op_redo");
			} else c.count("op_redo_refused");
			break;
		}
		case 14:
			say(cat("pin ", current));
			ct->pin_current_timepoint();
			if(std::ranges::find(pins, current) == pins.end()) pins.push_back(current);
			c.count("op_pin");
			break;
		case 15: {
			if(pins.empty()) break;
			auto const t = r.pick(pins);
			say(cat("unpin ", t));
			ct->unpin(nodes[t].ptr);
			std::erase(pins, t);
			if(auto_gc) model_gc();
			c.count("op_unpin");
			break;
		}
		case 16: {
			if(r.chance(10)) {
				Timepoint foreign;
				c.check(!ct->go_without_remembering(&foreign) && !ct->go_without_remembering(nullptr) && !ct->go_and_remember(&foreign),
					"foreign", "going to a timepoint of nowhere succeeds");
				c.count("op_go_foreign");
				break;
			}
			auto const t = r.pick(alive_nodes());
			bool const remember = !browser && r.chance(40);
			say(cat("go to ", t, remember ? " and remember" : ""));
			bool const ok = remember ? ct->go_and_remember(nodes[t].ptr) : ct->go_without_remembering(nodes[t].ptr);
			c.check(ok, "go", "going to a timepoint is refused");
			current = t;
			if(remember && history.back() != current) history.push_back(current);
			c.count("op_go");
			break;
		}
		case 17:
			say("annotate");
			ct->annotate_current_timepoint(std::make_unique<Note>(++values));
			if(!nodes[current].note) nodes[current].note = values;
			c.count("op_annotate");
			break;
		case 18:
			if(r.chance(50)) {
				auto_gc = !auto_gc;
				ct->set_auto_gc(auto_gc);
				c.check(ct->get_auto_gc() == auto_gc, "auto-gc", "the setting is lost");
				say(cat("automatic collection ", auto_gc));
			} else {
				say("collect");
				ct->garbage_collector();
				model_gc();
				c.count("op_collect");
			}
			break;
		case 19:
			if(r.chance(8)) {
				say("reset");
				ct->reset();
				current = 0;
				pins.clear();
				history.resize(1);
				browser.reset();
				owned.clear();
				owned_fix.clear();
				for(auto& o : objs) o.alive = false;
				model_gc();
				for(auto& n : nodes) n.note.reset();
				int const n = (int)r.in(1, 3);
				for(int i = 0; i < n; ++i) create(none);
				c.count("op_reset");
			}
			break;
		}
	}
};

void s01(Ctx& c, Rng& r) {
	Machine m(c, r);
	long const n = r.in(5, c.thorough ? 250 : 90);
	for(long i = 0; i < n && c.violations.size() < 10; ++i) {
		auto const before = c.violations.size();
		m.step();
		c.count("operations");
		m.look(r.chance(25));
		if(c.violations.size() != before) return;
	}
	m.look(true);
	c.input = m.log.str();
	c.sample(c.input);
	c.nontrivial(m.h);
	// The caretaker goes last.
	m.owned.clear();
	m.owned_fix.clear();
}

//------------------------------------------------------------------------ S02
struct N { std::size_t parent; std::vector<std::size_t> children; bool alive = true; TreeNode* p; };

void s02(Ctx& c, Rng& r) {
	TreeNode root;
	std::vector<N> ns { { none, {}, true, &root } };
	std::ostringstream log;
	auto alive = [&] { std::vector<std::size_t> v; for(std::size_t i = 0; i < ns.size(); ++i) if(ns[i].alive) v.push_back(i); return v; };
	auto chain = [&](std::size_t t, bool self) { std::vector<TreeNode*> v; if(self) v.push_back(ns[t].p); while(ns[t].parent != none) { t = ns[t].parent; v.push_back(ns[t].p); } return v; };
	std::function<void (std::size_t, std::vector<std::size_t>&)> sub = [&](std::size_t t, auto& v) { v.push_back(t); for(auto k : ns[t].children) sub(k, v); };
	auto set_of = [](auto const& v) { return std::set<TreeNode*>(v.begin(), v.end()); };
	auto bad = [&](char const* key, std::string const& m) { c.input = log.str(); c.fail(key, m); };
	int const shape = (int)r.in(0, 2); // Deep, wide or mixed.
	long const ops = r.in(1, 60);
	for(long i = 0; i < ops; ++i) {
		auto const live = alive();
		if(r.chance(88)) {
			std::size_t const t = shape == 0 ? live.back() : shape == 1 && r.chance(80) ? live[(std::size_t)r.in(0, (long)live.size() / 2)] : r.pick(live);
			auto& k = ns[t].p->add_child();
			ns[t].children.push_back(ns.size());
			ns.push_back({ t, {}, true, &k });
			log << "child of " << t << "\n";
			c.count("op_add");
		} else {
			// Some nodes go, with all that descends from them.
			std::size_t const from = r.pick(live);
			std::set<TreeNode*> gone;
			std::vector<std::size_t> tops, under;
			sub(from, under);
			for(auto t : under)
				if(r.chance(25)) { gone.insert(ns[t].p); if(t != from) tops.push_back(t); }
			log << "erase under " << from << ":";
			for(auto t : tops) log << " " << t;
			log << "\n";
			ns[from].p->erase_from_descendants(gone);
			for(auto t : tops)
				if(ns[t].alive) {
					std::vector<std::size_t> v;
					sub(t, v);
					for(auto k : v) ns[k].alive = false;
					std::erase(ns[ns[t].parent].children, t);
				}
			c.count("op_erase");
		}
	}
	std::set<std::size_t> ids;
	for(auto a : alive()) {
		auto& n = ns[a];
		if(!ids.insert(n.p->id).second) bad("id", "two nodes have the same identifier");
		if(n.p->parent() != (n.parent == none ? nullptr : ns[n.parent].p)) bad("parent", "wrong parent");
		if(n.p->is_root() != (n.parent == none)) bad("root", "wrong root status");
		if(n.p->is_leaf() != n.children.empty()) bad("leaf", "wrong leaf status");
		if(n.p->root() != &root) bad("root", "wrong root");
		for(bool self : { false, true }) {
			if(n.p->ancestors(self) != chain(a, self)) bad("ancestors", cat("wrong ancestors of ", a));
			std::vector<std::size_t> under;
			sub(a, under);
			std::set<TreeNode*> all, leafs;
			for(auto t : under) {
				if(self || t != a) all.insert(ns[t].p);
				if(ns[t].children.empty() && (self || t != a)) leafs.insert(ns[t].p);
			}
			auto const cl = n.p->cluster(self), lf = n.p->leafs(self);
			if(set_of(cl) != all || cl.size() != all.size()) bad("cluster", cat("wrong descendants of ", a));
			if(set_of(lf) != leafs || lf.size() != leafs.size()) bad("leafs", cat("wrong leaves of ", a));
			c.count("sets_compared", 3);
		}
		for(auto b : alive()) {
			auto const ca = chain(a, true), cb = chain(b, true);
			bool const desc = a != b && std::ranges::find(ca, ns[b].p) != ca.end();
			if(n.p->is_descendant_of(*ns[b].p) != desc) bad("descendant", cat("wrong descent of ", a, " from ", b));
			if(ns[b].p->is_ancestor_of(*n.p) != desc) bad("ancestor", cat("wrong ancestry of ", b, " over ", a));
			if((*n.p == *ns[b].p) != (a == b)) bad("equality", "wrong equality");
			for(bool self : { false, true }) {
				TreeNode* want = nullptr;
				auto const xa = chain(a, self), xb = chain(b, self);
				for(auto* t : xa) if(std::ranges::find(xb, t) != xb.end()) { want = t; break; }
				if(n.p->common_ancestor(*ns[b].p, self) != want || common_ancestor(*n.p, *ns[b].p, self) != want) bad("common-ancestor", cat("wrong common ancestor of ", a, " and ", b));
			}
			c.count("pairs_compared");
		}
		TreeNode other;
		if(n.p->common_ancestor(other, true) != nullptr) bad("common-ancestor", "a common ancestor with a node of another tree");
	}
	c.input = log.str();
	c.sample(c.input);
	if(alive().size() > 3) c.nontrivial(hash_bytes(log.str()));
}

} // namespace

int main(int argc, char** argv) {
	return run_main(argc, argv, { { { "S01", s01 }, { "S02", s02 } }, {} });
}
