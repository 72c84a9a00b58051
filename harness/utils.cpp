// Messages and progress: who is told what, and whose answer counts. Small containers.
#include <algorithm>
#include <memory>

#include "utils/down_up_cast.hpp"
#include "utils/logger.hpp"
#include "utils/map_utils.hpp"
#include "utils/progress.hpp"
#include "utils/signum.hpp"
#include "utils/vector_utils.hpp"

#include "common.hpp"

using namespace vf;

namespace {

//------------------------------------------------------------------------ U01
struct Sink;
struct Heard { int sink; Logger::LogEvent event; bool interactive; };
bool same(Logger::LogEvent const& a, Logger::LogEvent const& b) {
	return a.destination == b.destination && a.level == b.level && a.user_actions == b.user_actions && a.default_user_action == b.default_user_action
	    && a.message == b.message && a.informative == b.informative && a.details == b.details;
}
std::vector<Heard>* g_heard = nullptr;
int g_alive = 0;
struct Sink : Logger::ISink {
	int const id;
	Logger::UserAction const answer;
	Sink(int id, Logger::UserAction answer) : id(id), answer(answer) { ++g_alive; }
	~Sink() override { --g_alive; }
	Logger::UserAction log(Logger::LogEvent const& e) const override {
		g_heard->push_back({ id, e, is_interactive });
		return answer;
	}
};

void u01(Ctx& c, Rng& r) {
	std::vector<Heard> heard;
	g_heard = &heard;
	g_alive = 0;
	std::ostringstream say;
	using A = Logger::UserAction;
	std::vector<A> const actions { A::NOTHING, A::CANCEL, A::OK, A::SAVE, A::CLOSE, A::ABORT };
	{
		Logger l;
		struct M { int id; A answer; };
		std::map<Logger::Id, M> sinks;
		std::optional<Logger::Id> interactive;
		std::vector<Logger::Id> ids;
		for(int i = 0; i < 4; ++i) ids.push_back(Logger::id(cat("sink", i)));
		c.check(Logger::id("Qt") == Logger::id(std::string("Q") + "t") && Logger::id("Qt") != Logger::id("Cli"), "id", "identifiers do not follow names");
		int made = 0;
		for(long n = r.in(3, 40); n--;) {
			switch(r.in(0, 5)) {
			case 0: case 1: {
				auto const id = r.pick(ids);
				bool const in = r.chance(40);
				auto const a = r.pick(actions);
				int const k = ++made;
				say << "register " << k << " as " << id % 1000 << (in ? " interactive\n" : "\n");
				l.register_sink(id, std::make_unique<Sink>(k, a), in);
				sinks.try_emplace(id, M { k, a });
				if(in) interactive = id;
				c.count("registered");
				break;
			}
			case 2: {
				auto const id = r.chance(25) ? 0 : r.pick(ids);
				say << "interactive " << id % 1000 << "\n";
				l.set_as_the_interactive(id);
				if(id == 0) interactive.reset();
				else if(sinks.contains(id)) interactive = id;
				c.count("set_interactive");
				break;
			}
			default: {
				Logger::LogEvent e { .level = r.pick({ Logger::Level::QUESTION, Logger::Level::INFO, Logger::Level::WARNING, Logger::Level::ERROR }), .message = r.chance(90) ? cat("message ", r.in(0, 1000000)) : "" };
				for(auto x : actions) if(r.chance(25)) e.user_actions.insert(x);
				if(r.chance(30)) e.default_user_action = r.pick(actions);
				if(r.chance(40)) e.informative = cat("more ", r.in(0, 1000));
				if(r.chance(40)) e.details = cat("details ", r.in(0, 1000));
				if(!e.user_actions.empty()) c.count("with_choices");
				if(r.chance(40)) e.destination = r.chance(20) ? 12345 : r.pick(ids);
				heard.clear();
				say << "log to " << e.destination % 1000 << " with " << e.user_actions.size() << " choices\n";
				auto const got = l.log(e);
				A want = A::NOTHING;
				std::set<int> to;
				if(e.destination && sinks.contains(e.destination)) {
					to.insert(sinks.at(e.destination).id);
					want = sinks.at(e.destination).answer;
					c.count("to_one");
				} else {
					for(auto const& [id, m] : sinks) {
						to.insert(m.id);
						if(interactive == id) want = m.answer;
					}
					c.count("to_all");
				}
				c.input = say.str();
				c.check(got == want, "answer", [&] { return cat("answer ", (int)got, " instead of ", (int)want); });
				std::multiset<int> by;
				for(auto const& h : heard) {
					by.insert(h.sink);
					c.check(same(h.event, e), "message", "another message is received");
					bool const in = interactive && sinks.at(*interactive).id == h.sink;
					c.check(h.interactive == in, "interactive", [&] { return cat("sink ", h.sink, h.interactive ? " believes" : " does not know", " it is the interactive one"); });
				}
				c.check(std::multiset<int>(to.begin(), to.end()) == by, "receivers", [&] { return cat(by.size(), " receptions instead of ", to.size()); });
				c.count("messages");
				break;
			}
			}
			c.check(g_alive == (int)sinks.size(), "lifetime", "sinks are lost or kept");
		}
	}
	c.check(g_alive == 0, "lifetime", "sinks outlive their logger");
	c.input = say.str();
	c.sample(c.input);
	c.nontrivial(hash_bytes(say.str()));
}

//------------------------------------------------------------------------ U02
struct Base { virtual ~Base() = default; };
struct Up { virtual ~Up() = default; };
struct D1 : Base, Up {};
struct D2 : Base, Up {};
struct D3 : Base {};

struct Tick { int bar; int kind; std::size_t i, j; auto operator<=>(Tick const&) const = default; };
struct Bar : Progress::IBar {
	int id;
	std::vector<Tick>* to;
	Bar(int id, std::vector<Tick>* to) : id(id), to(to) {}
	void tick(std::size_t i) override { to->push_back({ id, 1, i, 0 }); }
	void tick(std::size_t i, std::size_t j) override { to->push_back({ id, 2, i, j }); }
	void complete() override { to->push_back({ id, 3, 0, 0 }); }
};

void u02(Ctx& c, Rng& r) {
	std::ostringstream say;
	// Progress: everyone who registered is told everything.
	static std::vector<Tick> told;
	static std::vector<std::pair<std::size_t, std::string>> made;
	static int builders = 0;
	if(builders < 4 && r.chance(10)) {
		int const id = builders++;
		Progress::singleton().register_impl_builder([id](std::size_t max, std::string const& m) {
			made.emplace_back(max, m);
			return std::make_unique<Bar>(id, &told);
		});
	}
	told.clear();
	made.clear();
	{
		std::size_t const max = (std::size_t)r.in(0, 1000);
		std::string const m = cat("task ", r.in(0, 99));
		auto [bar, i, j] = Progress::Bar::build(max, m);
		c.check(i == 0 && j == 0, "progress-start", "counters do not start at zero");
		c.check((int)made.size() == builders, "progress-made", "not one bar per builder");
		for(auto const& [x, y] : made) c.check(x == max && y == m, "progress-made", "a bar is built for something else");
		std::vector<Tick> want;
		for(long k = r.in(0, 10); k--;) {
			Tick t { 0, (int)r.in(1, 3), (std::size_t)r.in(0, 99), (std::size_t)r.in(0, 99) };
			if(t.kind == 1) { bar.tick(t.i); t.j = 0; }
			else if(t.kind == 2) bar.tick(t.i, t.j);
			else { bar.complete(); t.i = t.j = 0; }
			for(int b = 0; b < builders; ++b) { t.bar = b; want.push_back(t); }
			c.count("ticks");
		}
		auto by_bar = [](auto const& v) { std::map<int, std::vector<Tick>> o; for(auto const& t : v) o[t.bar].push_back(t); return o; };
		c.check(by_bar(told) == by_bar(want), "progress", "a bar is not told everything in order");
	}
	// Containers.
	std::vector<int> v;
	for(long n = r.in(0, 20); n--;) v.push_back((int)r.in(0, 5));
	for(int x : v) say << x << " ";
	c.input = say.str();
	int const limit = (int)r.in(0, 5);
	auto const runs = find_consecutive_matches(v, [&](int x) { return x < limit; });
	std::vector<std::vector<int>> want;
	for(std::size_t i = 0; i < v.size();) {
		if(v[i] >= limit) { ++i; continue; }
		std::vector<int> run;
		while(i < v.size() && v[i] < limit) run.push_back(v[i++]);
		want.push_back(run);
	}
	c.check(runs == want, "consecutive", "wrong runs of consecutive matches");
	c.check(contains(v, limit) == (std::ranges::count(v, limit) > 0), "contains", "wrong membership");
	c.check(contains_that(v, [&](int x) { return x > limit; }) == std::ranges::any_of(v, [&](int x) { return x > limit; }), "contains", "wrong membership");
	std::vector<std::shared_ptr<int>> sp;
	for(int x : v) sp.push_back(r.chance(10) ? nullptr : std::make_shared<int>(x));
	auto const view = create_view(sp);
	bool same = view.size() == sp.size();
	for(std::size_t i = 0; same && i < sp.size(); ++i) same = view[i] == sp[i].get();
	c.check(same, "view", "a view differs from what it views");
	std::map<int, int> m;
	for(std::size_t i = 0; i < v.size(); ++i) m.emplace((int)i, v[i]);
	auto const back = reverse_kv(m);
	std::set<int> const values(v.begin(), v.end());
	bool ok = back.size() == values.size();
	for(auto const& [k, i] : back) ok = ok && m.at(i) == k;
	c.check(ok, "reverse", "a reversed map is not the reverse");
	double const d = r.pick({ -0.0, 0.0, 1e-300, -1e-300, 5.0, -7.5, (double)INFINITY, -(double)INFINITY, (double)NAN });
	c.check(signum(d) == (d > 0) - (d < 0), "signum", [&] { return cat("sign of ", d); });
	long const l = r.in(-3, 3);
	c.check(signum(l) == (l > 0) - (l < 0) && signum((unsigned)(l + 3)) == (l + 3 > 0), "signum", "wrong sign");
	D1 d1; D2 d2; D3 d3;
	c.check((down_up_cast<Up, D1, D2>((Base*)&d1) == (Up*)&d1) && (down_up_cast<Up, D1, D2>((Base*)&d2) == (Up*)&d2)
		&& (down_up_cast<Up, D1>((Base*)&d2) == nullptr) && (down_up_cast<Up, D1, D2>((Base*)&d3) == nullptr), "cast", "a cast finds the wrong object");
	c.sample(c.input);
	c.count("runs_compared", (long)want.size());
	if(!v.empty()) c.nontrivial(hash_bytes(say.str(), (std::uint64_t)limit));
}

} // namespace

int main(int argc, char** argv) {
	return run_main(argc, argv, { { { "U01", u01 }, { "U02", u02 } }, {} });
}
