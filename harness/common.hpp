// Shared plumbing of the monitors: seeded generation, verdict collection, watchdog.
#pragma once

#include <sys/resource.h>
#include <sys/time.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>

#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace vf {

//------------------------------------------------------------------ random
inline std::uint64_t mix(std::uint64_t x) {
	x += 0x9e3779b97f4a7c15ull;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
	return x ^ (x >> 31);
}

inline std::uint64_t hash_bytes(std::string_view s, std::uint64_t h = 1469598103934665603ull) {
	for(unsigned char c : s) {
		h ^= c;
		h *= 1099511628211ull;
	}
	return mix(h);
}

struct Rng {
	std::uint64_t s;
	explicit Rng(std::uint64_t seed) : s(mix(seed)) {}
	std::uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
	// Inclusive bounds.
	long in(long a, long b) { return a + (long)(next() % (std::uint64_t)(b - a + 1)); }
	bool chance(int percent) { return in(0, 99) < percent; }
	double unit() { return (double)(next() >> 11) / 9007199254740992.0; }
	double real(double a, double b) { return a + (b - a) * unit(); }
	template<class T> T const& pick(std::vector<T> const& v) { return v[next() % v.size()]; }
	template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + next() % v.size()); }
	template<class T> void shuffle(std::vector<T>& v) {
		for(std::size_t i = v.size(); i > 1; --i)
			std::swap(v[i-1], v[next() % i]);
	}
};

//-------------------------------------------------------------------- json
inline std::string jstr(std::string_view s) {
	std::string o = "\"";
	for(unsigned char c : s) {
		if(c == '"' || c == '\\') { o += '\\'; o += (char)c; }
		else if(c == '\n') o += "\\n";
		else if(c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += (char)c;
	}
	return o + "\"";
}

//------------------------------------------------------------------- verdict
struct Violation {
	long index;
	std::string key;     // Stable identification of what failed.
	std::string message;
	std::string input;   // The failing input, written out.
};

struct Ctx {
	std::string prop;
	std::uint64_t seed = 1;
	long index = 0;
	bool thorough = false;
	std::filesystem::path scratch;
	std::map<std::string, long> counters;
	std::unordered_set<std::uint64_t> distinct;
	std::vector<std::string> samples;
	std::vector<Violation> violations;
	std::string input; // Description of the current case.
	bool verbose = false;

	void count(std::string const& name, long n = 1) { counters[name] += n; }
	// The current case is worth counting, h identifies what was observed.
	void nontrivial(std::uint64_t h) { if(distinct.size() < 200000) distinct.insert(h); }
	void sample(std::string const& s) {
		if(samples.size() < 3)
			samples.push_back(s);
	}
	void fail(std::string const& key, std::string const& message) {
		if(verbose)
			std::cerr << "FAIL case " << index << " [" << key << "] " << message << "\n" << input << "\n";
		for(auto const& v : violations)
			if(v.index == index && v.key == key)
				return;
		if(violations.size() < 20)
			violations.push_back({ index, key, message, input });
	}
	void check(bool ok, std::string const& key, auto const& message) {
		count("assertions");
		if(!ok) {
			if constexpr(requires { message(); })
				fail(key, message());
			else
				fail(key, message);
		}
	}
};

template<class... A>
std::string cat(A const&... a) {
	std::ostringstream o;
	o.precision(17);
	((o << a), ...);
	return o.str();
}

//------------------------------------------------------------------ watchdog
inline char g_progress[4096];
inline long volatile g_index = -1;

inline void on_watchdog(int) {
	char b[64];
	int n = snprintf(b, sizeof b, "\nVF-HANG case %ld\n", g_index);
	[[maybe_unused]] auto r = write(2, b, (size_t)n);
	_exit(97);
}

// CPU time, not wall clock: a loaded machine does not matter.
inline void arm(double cpu_seconds) {
	itimerval t {};
	t.it_value.tv_sec = (time_t)cpu_seconds;
	t.it_value.tv_usec = (suseconds_t)((cpu_seconds - (double)t.it_value.tv_sec) * 1e6);
	setitimer(ITIMER_PROF, &t, nullptr);
}

//---------------------------------------------------------------------- main
using CaseFn = std::function<void (Ctx&, Rng&)>;
struct Suite {
	std::map<std::string, CaseFn> cases;
	std::function<void (Ctx&)> finish; // Optional, once per shard.
};

inline int run_main(int argc, char** argv, Suite const& suite) {
	Ctx ctx;
	long from = 0, to = 100, step = 1;
	double cpu = 20;
	std::string out;
	for(int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if(a == "--prop") ctx.prop = val();
		else if(a == "--seed") ctx.seed = std::stoull(val());
		else if(a == "--from") from = std::stol(val());
		else if(a == "--to") to = std::stol(val());
		else if(a == "--step") step = std::stol(val());
		else if(a == "--cpu") cpu = std::stod(val());
		else if(a == "--out") out = val();
		else if(a == "--scratch") ctx.scratch = val();
		else if(a == "--thorough") ctx.thorough = true;
		else if(a == "--verbose") ctx.verbose = true;
	}
	auto it = suite.cases.find(ctx.prop);
	if(it == suite.cases.end()) {
		std::cerr << "unknown property " << ctx.prop << "\n";
		return 3;
	}
	if(ctx.scratch.empty())
		ctx.scratch = std::filesystem::temp_directory_path() / cat("vf-", getpid());
	std::filesystem::create_directories(ctx.scratch);
	signal(SIGPROF, on_watchdog);
	int progress = -1;
	if(!out.empty())
		progress = open((out + ".progress").c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
	for(long i = from; i < to; i += step) {
		ctx.index = i;
		g_index = i;
		ctx.input.clear();
		if(progress >= 0) {
			int n = snprintf(g_progress, sizeof g_progress, "%-20ld", i);
			[[maybe_unused]] auto r = pwrite(progress, g_progress, (size_t)n, 0);
		}
		arm(cpu);
		Rng rng(mix(ctx.seed * 1000003ull + hash_bytes(ctx.prop)) ^ mix((std::uint64_t)i));
		it->second(ctx, rng);
		ctx.count("cases");
	}
	if(suite.finish)
		suite.finish(ctx);
	arm(0);
	std::ostringstream o;
	o << "{\"counters\":{";
	bool first = true;
	for(auto const& [k, v] : ctx.counters) {
		o << (first ? "" : ",") << jstr(k) << ":" << v;
		first = false;
	}
	o << "},\"distinct\":[";
	first = true;
	for(auto h : ctx.distinct) {
		o << (first ? "" : ",") << "\"" << std::hex << h << std::dec << "\"";
		first = false;
	}
	o << "],\"samples\":[";
	first = true;
	for(auto const& s : ctx.samples) {
		o << (first ? "" : ",") << jstr(s);
		first = false;
	}
	o << "],\"violations\":[";
	first = true;
	for(auto const& v : ctx.violations) {
		o << (first ? "" : ",") << "{\"index\":" << v.index << ",\"key\":" << jstr(v.key)
		  << ",\"message\":" << jstr(v.message) << ",\"input\":" << jstr(v.input) << "}";
		first = false;
	}
	o << "]}";
	if(out.empty())
		std::cout << o.str() << std::endl;
	else {
		std::ofstream f(out);
		f << o.str();
		if(!f.flush())
			return 3;
	}
	return 0;
}

} // namespace vf
