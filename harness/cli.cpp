// The command line: the real executable, run with generated arguments, against the same
// run made from the library.
#include <algorithm>

#include <fcntl.h>
#include <sys/resource.h>
#include <sys/wait.h>

#include "session.hpp"

using namespace vf;
using namespace std::string_literals;

namespace {

std::string app_path() {
	char const* const p = getenv("VF_APP");
	if(!p) { std::cerr << "VF_APP is not set\n"; _exit(3); }
	return p;
}

struct Ran { int rc; std::string out, err, bars; };

// rc: exit status, or minus the signal.
Ran run(Ctx& c, std::vector<std::string> args) {
	auto const out = c.scratch / "stdout", err = c.scratch / "stderr", bars = c.scratch / "bars";
	std::filesystem::remove(bars);
	args.insert(args.begin(), app_path());
	std::vector<char*> argv;
	for(auto& a : args) argv.push_back(a.data());
	argv.push_back(nullptr);
	setenv("VF_BARS", bars.c_str(), 1);
	pid_t const pid = fork();
	if(pid < 0) { perror("fork"); _exit(3); }
	if(pid == 0) {
		rlimit const lim { 60, 61 };
		setrlimit(RLIMIT_CPU, &lim);
		signal(SIGPROF, SIG_DFL);
		int const in = open("/dev/null", O_RDONLY), o = open(out.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644), e = open(err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644);
		dup2(in, 0); dup2(o, 1); dup2(e, 2);
		if(chdir(c.scratch.c_str())) _exit(126);
		execv(argv[0], argv.data());
		_exit(127);
	}
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	Ran r { WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st), read_file(out), read_file(err), read_file(bars) };
	if(r.rc == 127 || r.rc == 126) { std::cerr << "cannot run " << args[0] << "\n"; _exit(3); }
	return r;
}

bool sane(Ctx& c, Ran const& r) {
	if(r.rc == 0 || r.rc == 1) {
		if(r.err.find("Sanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos) { c.fail("sanitizer", r.err.substr(0, 3000)); return false; }
		return true;
	}
	c.fail(r.rc == -SIGXCPU ? "hang" : "crash", cat("the application ends with ", r.rc, ": ", r.err.substr(0, 3000)));
	return false;
}

std::string shown(std::vector<std::string> const& v) {
	std::string o;
	for(auto const& a : v) o += "'" + a + "' ";
	return o;
}

csx::Scene scene_of(Rng& r) {
	csx::Options o;
	o.extent = r.pick({ 4L, 8L });
	o.diagonals = r.chance(25);
	o.max_prims = 4;
	o.min_prims = 0;
	o.globals = true;
	auto s = csx::random_scene(r, o);
	if(s.globals.dmax && *s.globals.dmax < 1) s.globals.dmax = 1;
	s.globals.lmin = r.in(0, 4);
	s.under_openems = r.chance(80);
	s.write_oemsh = r.chance(60);
	if(r.chance(60))
		for(int a = 0; a < 3; ++a)
			for(long k = r.in(0, 4); k--;) s.grid[a].push_back(r.real(-5, 9));
	return s;
}

struct Asked {
	std::vector<std::string> args;
	app::OpenEMSH::Params p;
	domain::Params over;
	bool proximity = false, smoothness = false, dmax = false, lmin = false, diag = false, angle = false, lines = false;
};

Asked ask(Ctx&, Rng& r) {
	Asked a;
	std::vector<std::vector<std::string>> opts;
	auto value = [&](std::string const& name, std::string const& v) {
		if(r.chance(50)) opts.push_back({ name + "=" + v });
		else opts.push_back({ name, v });
	};
	auto boolean = [&](bool b) { return r.pick(b ? std::vector<std::string> { "true", "1", "on", "yes", "True" } : std::vector<std::string> { "false", "0", "off", "no", "FALSE" }); };
	if(r.chance(15)) { opts.push_back({ "--no-yz" }); a.p.with_yz = false; }
	if(r.chance(15)) { opts.push_back({ "--no-zx" }); a.p.with_zx = false; }
	if(r.chance(15)) { opts.push_back({ "--no-xy" }); a.p.with_xy = false; }
	if(r.chance(15)) { opts.push_back({ "--no-x" }); a.p.with_axis_x = false; }
	if(r.chance(15)) { opts.push_back({ "--no-y" }); a.p.with_axis_y = false; }
	if(r.chance(15)) { opts.push_back({ "--no-z" }); a.p.with_axis_z = false; }
	if(r.chance(30)) { opts.push_back({ "--save-oemsh-params" }); a.p.with_oemsh_params = true; }
	if(r.chance(30)) { a.p.read_oemsh_params = r.chance(50); value("--read-oemsh-params", boolean(a.p.read_oemsh_params)); }
	if(r.chance(30)) { a.p.keep_old_mesh = r.chance(60); value("--integrate-old-mesh", boolean(a.p.keep_old_mesh)); }
	if(r.chance(20)) { a.p.with_meshlines = r.chance(50); value("--meshlines", boolean(a.p.with_meshlines)); }
	if(r.chance(20)) { a.p.with_meshline_policies = r.chance(60); value("--policy-lines", boolean(a.p.with_meshline_policies)); }
	if(r.chance(30)) { a.proximity = true; a.over.proximity_limit = r.pick({ 0.0, 0.125, 0.7, 3.0 }); value("--proximity-limit", csx::num(a.over.proximity_limit)); }
	if(r.chance(30)) { a.smoothness = true; a.over.smoothness = r.pick({ 1.1, 1.5, 2.0, 1.9999999 }); value("--smoothness", csx::num(a.over.smoothness)); }
	if(r.chance(30)) { a.dmax = true; a.over.dmax = r.pick({ 1.0, 2.5, 1e1, 100.0 }); value("--dmax", csx::num(a.over.dmax)); }
	if(r.chance(30)) { a.lmin = true; a.over.lmin = (std::size_t)r.in(0, 6); value("--lmin", std::to_string(a.over.lmin)); }
	if(r.chance(20)) { a.diag = true; a.over.diagonal_dmax = r.pick({ 0.4, 1.0, 3.0, 200.0 }); value("--diag-dmax", csx::num(a.over.diagonal_dmax)); }
	if(r.chance(20)) { a.angle = true; a.over.consecutive_diagonal_minimal_angle = r.pick({ 5.0, 45.0, 90.0 }); value("--diag-minimal-angle", csx::num(a.over.consecutive_diagonal_minimal_angle)); }
	if(r.chance(10)) value("--diag-lmin", std::to_string(r.in(0, 5)));
	for(long k = r.chance(30) ? r.in(1, 3) : 0; k--;) {
		a.lines = true;
		auto const axis = (int)r.in(0, 2);
		double const v = r.chance(60) ? (double)r.in(-4, 9) : r.real(-4, 9);
		a.over.input_fixed_meshlines.emplace_back(axis == 0 ? domain::X : axis == 1 ? domain::Y : domain::Z, v);
		// A leading minus after a blank would be another option.
		opts.push_back({ cat("--add-fixed-meshline=", r.chance(70) ? "xyz"[axis] : "XYZ"[axis], ",", csx::num(v)) });
	}
	if(r.chance(40)) { opts.push_back({ r.chance(50) ? "-v" : "--verbose" }); a.p.verbose = true; }
	// Lines keep their order, others go anywhere.
	std::vector<std::vector<std::string>> others, lines;
	for(auto& o : opts) (o[0].starts_with("--add-fixed") ? lines : others).push_back(o);
	r.shuffle(others);
	for(auto& l : lines) others.insert(others.end(), l);
	for(auto& o : others) a.args.insert(a.args.end(), o.begin(), o.end());
	return a;
}

std::function<void (domain::Params&)> overrider(Asked const& a) {
	return [a](domain::Params& d) {
		if(a.proximity) d.proximity_limit = a.over.proximity_limit;
		if(a.smoothness) d.smoothness = a.over.smoothness;
		if(a.dmax) d.dmax = a.over.dmax;
		if(a.lmin) d.lmin = a.over.lmin;
		if(a.diag) d.diagonal_dmax = a.over.diagonal_dmax;
		if(a.angle) d.consecutive_diagonal_minimal_angle = a.over.consecutive_diagonal_minimal_angle;
		if(a.lines) d.input_fixed_meshlines = a.over.input_fixed_meshlines;
	};
}

std::map<std::filesystem::path, std::string> files(Ctx& c) {
	std::map<std::filesystem::path, std::string> o;
	for(auto const& f : std::filesystem::recursive_directory_iterator(c.scratch)) {
		auto const n = f.path().filename();
		if(f.is_regular_file() && n != "stdout" && n != "stderr" && n != "bars") o[f.path()] = read_file(f.path());
	}
	return o;
}

// The bars that were shown: each one goes forward, never beyond its end, and ends.
void check_bars(Ctx& c, Ran const& r, bool verbose, bool meshed) {
	if(!verbose) { c.check(r.bars.empty(), "bars", "progress is shown though not asked for"); return; }
	struct B { std::size_t at = 0; int state = 0; };
	std::map<std::string, B> live;
	std::istringstream in(r.bars);
	std::string l;
	long bars = 0, ticks = 0, step = 0, top = -1;
	while(std::getline(in, l)) {
		std::vector<std::string> f(1);
		for(char ch : l) if(ch == '\t') f.emplace_back(); else f.back() += ch;
		if(f.size() != 7) { c.fail("bars", "unreadable: " + l); return; }
		auto const at = std::stoul(f[2]), max = std::stoul(f[3]), width = std::stoul(f[4]);
		c.check(width <= 100, "bar-width", [&] { return cat("a bar is ", width, " wide: ", l); });
		long const s = std::stol(f[5]), m = std::stol(f[5].substr(f[5].find('/') + 1));
		c.check(top < 0 || m == top, "bar-step", "the number of steps changes");
		top = m;
		c.check(s >= step && s <= m, "bar-step", [&] { return cat("step ", s, " is shown after step ", step); });
		step = s;
		if(f[0] == "new") { c.check(!live.contains(f[1]), "bars", "two bars in one"); live[f[1]] = {}; ++bars; }
		else if(!live.contains(f[1])) c.fail("bars", "unknown bar");
		else if(f[0] == "at") {
			++ticks;
			c.check(live[f[1]].state == 0, "bar-late", [&] { return cat("progress after the end: ", l); });
			c.check(at <= max, "bar-beyond", [&] { return cat("progress beyond the end: ", l); });
			c.check(at >= live[f[1]].at, "bar-back", [&] { return cat("progress goes back: ", l); });
			live[f[1]].at = at;
		} else if(f[0] == "done") { c.check(live[f[1]].state++ == 0, "bar-late", "completed twice: " + l); }
		else if(f[0] == "end") { c.check(live[f[1]].state == 1, "bar-unended", [&] { return cat("a bar is left before its end: ", l); }); live.erase(f[1]); }
	}
	c.check(live.empty(), "bar-unended", "bars are left");
	if(meshed) c.check(step == top && top > 0, "bar-step", [&] { return cat("the last step shown is ", step, " of ", top); });
	c.count("bars", bars);
	c.count("ticks", ticks);
}

// Diagrams number what they show from a count that goes on as long as the process.
std::string renumbered(std::string const& t) {
	if(!t.starts_with("@startuml")) return t;
	std::map<std::string, std::string> ids;
	std::string o, l;
	std::istringstream in(t);
	auto id = [&](std::size_t from) {
		std::size_t n = from;
		while(n < l.size() && isdigit((unsigned char)l[n])) ++n;
		if(n == from) return;
		auto const [k, _] = ids.try_emplace(l.substr(from, n - from), cat("#", ids.size()));
		l.replace(from, n - from, k->second);
	};
	while(std::getline(in, l)) {
		if(auto const k = l.find("\" as "); k != std::string::npos) id(k + 5);
		else {
			if(auto const a = l.find("-> "); a != std::string::npos) id(a + 3);
			id(0);
		}
		o += l + "\n";
	}
	return o;
}

//------------------------------------------------------------------------ A02
void a02(Ctx& c, Rng& r) {
	std::filesystem::remove_all(c.scratch);
	std::filesystem::create_directories(c.scratch);
	auto const s = scene_of(r);
	auto const xml = csx::xml(s);
	auto const in_name = r.pick({ "in.csx", "a b.csx", "δοκιμή.xml", "-in.csx", "in" });
	auto const in = c.scratch / in_name;
	write_file(in, xml);
	auto a = ask(c, r);
	using F = app::OpenEMSH::Params::OutputFormat;
	if(r.chance(30)) {
		auto const [f, n] = r.pick({ std::pair { F::CSX, "csx" }, { F::PLANTUML, "plantuml" }, { F::PRETTYPRINT, "prettyprint" }, { F::PLANTUML, "PlantUML" }, { F::CSX, "CSX" } });
		a.p.output_format = f;
		a.args.push_back(cat("--output-format=", n));
	}
	if(r.chance(40)) { a.p.force = true; a.args.insert(a.args.begin() + r.in(0, 0), r.chance(50) ? "-f" : "--force"); }
	bool const given = r.chance(70);
	auto out = in;
	int const target = (int)r.in(0, 9); // 0 full device, 1 missing directory, 2.. a file.
	if(given) {
		out = target == 0 ? "/dev/full" : target == 1 ? c.scratch / "none" / "out.csx" : target == 2 ? in : c.scratch / r.pick({ "out.csx", "o u t.csx", "exit", "in2.csx" });
		if(target > 2 && r.chance(40)) write_file(out, "something precious\n");
		if(r.chance(50)) a.args.push_back("--output=" + out.string());
		else { a.args.push_back("-o"); a.args.push_back(out.string()); }
	}
	if(r.chance(20) && std::string_view(in_name) != "-in.csx") a.args.insert(a.args.begin(), in.string());
	else if(r.chance(50)) { a.args.insert(a.args.begin(), "--input=" + in.string()); }
	else { a.args.insert(a.args.begin(), in.string()); a.args.insert(a.args.begin(), "-i"); }
	c.input = shown(a.args) + "\n" + xml;
	c.sample(c.input);

	// The same, by the library.
	a.p.input = in;
	a.p.output = out;
	a.p.override_from_cli = overrider(a);
	auto const before = files(c);
	std::optional<std::string> refusal;
	std::string want, want_text;
	auto const copy = c.scratch / "expected";
	{
		app::OpenEMSH lib(a.p);
		if(auto res = lib.parse(); !res) refusal = res.error();
		else if(lib.is_about_overwriting()) refusal = "overwriting";
		else {
			lib.run_all_steps();
			std::ostringstream caught;
			auto* const old = std::cerr.rdbuf(caught.rdbuf());
			bool const to_file = a.p.output_format != F::PRETTYPRINT;
			if(to_file && (target == 0 || target == 1) && given) refusal = "cannot write";
			lib.set_output(copy);
			if(auto res = lib.write(); !res) refusal = res.error();
			std::cerr.rdbuf(old);
			want_text = caught.str();
			if(to_file) want = read_file(copy);
			std::filesystem::remove(copy);
		}
	}
	auto const got = run(c, a.args);
	if(!sane(c, got)) return;
	c.check(got.out.empty(), "stdout", [&] { return "something on the standard output: " + got.out.substr(0, 300); });
	if(refusal) {
		c.check(got.rc == 1, "exit", [&] { return cat("ends with ", got.rc, " though: ", *refusal); });
		c.check(got.err.find("Error") != std::string::npos, "reason", "no reason is given");
		c.check(files(c) == before, "touched", "files changed though it failed");
		c.count(*refusal == "overwriting" ? "refused_overwriting" : *refusal == "cannot write" ? "cannot_write" : "other_refusals");
	} else {
		c.check(got.rc == 0, "exit", [&] { return cat("ends with ", got.rc, ": ", got.err.substr(0, 600)); });
		c.check(got.err.find("Error") == std::string::npos, "error", [&] { return "an error is told: " + got.err.substr(0, 600); });
		auto expected = before;
		if(a.p.output_format != F::PRETTYPRINT) expected[out] = want;
		auto const now = files(c);
		for(auto const& [f, t] : expected) {
			auto const k = now.find(f);
			c.check(k != now.end() && (k->second == t || renumbered(k->second) == renumbered(t)), "output", [&] { return cat(f.filename().string(), ": ", k == now.end() ? "missing" : first_difference(renumbered(t), renumbered(k->second))); });
		}
		for(auto const& [f, t] : now) c.check(expected.contains(f), "extra-file", [&] { return "an unexpected file: " + f.string(); });
		if(a.p.output_format == F::PRETTYPRINT) c.check(got.err.find(want_text) != std::string::npos, "text", "the text form is not told as it should");
		c.check((got.err.find("Saved file") != std::string::npos) == a.p.verbose, "saved", "success is told only if verbose");
		c.count(given ? "written_beside" : "written_in_place");
	}
	check_bars(c, got, a.p.verbose, !refusal || *refusal == "cannot write");
	for(auto const& x : a.args) if(x.starts_with("--")) c.count("option " + x.substr(0, x.find('=')));
	c.nontrivial(hash_bytes(c.input));
}

//------------------------------------------------------------------------ A04
void a04(Ctx& c, Rng& r) {
	std::filesystem::remove_all(c.scratch);
	std::filesystem::create_directories(c.scratch);
	csx::Options o;
	o.extent = 4;
	o.max_prims = 2;
	auto const s = csx::random_scene(r, o);
	auto const xml = csx::xml(s);
	auto const in = c.scratch / "in.csx";
	write_file(in, xml);
	if(r.chance(50)) write_file(c.scratch / "out.csx", "something precious\n");
	auto a = ask(c, r);
	a.args.insert(a.args.begin(), "--input=" + in.string());
	a.args.push_back("--output=" + (c.scratch / "out.csx").string());
	a.args.push_back("-f");
	auto drop = [&](std::string const& what) { std::erase_if(a.args, [&](auto const& x) { return x.starts_with(what); }); };
	auto add = [&](std::vector<std::string> const& v) { a.args.insert(a.args.end(), v.begin(), v.end()); };
	std::string what;
	bool asks = false; // Help or version: success, nothing else.
	switch(r.in(0, 13)) {
	case 0: what = "unknown option"; add({ r.pick({ "--dmaxx", "--nope=3", "-x", "--no", "-Z" }) }); break;
	case 1: what = "spare argument"; add({ r.pick({ "spare", "0", "in.csx" }) }); break;
	case 2: what = "smoothness"; a.args = { a.args[0], "-f" }; add({ "--smoothness="s + r.pick({ "1", "0", "-1.5", "2.0001", "abc", "", "inf", "nan", "1.5x" }) }); break;
	case 3: what = "dmax"; a.args = { a.args[0], "-f" }; add({ "--dmax="s + r.pick({ "0", "-1", "abc", "nan", "inf", "", "1,2", "3m" }) }); break;
	case 4: what = "lmin"; a.args = { a.args[0], "-f" }; add({ "--lmin="s + r.pick({ "-1", "1.5", "abc", "", "1e3", "99999999999999999999999" }) }); break;
	case 5: what = "no input"; drop("--input"); if(r.chance(50)) std::filesystem::remove(in); break;
	case 6: what = "missing input"; std::filesystem::remove(in); break;
	case 7: what = "directory"; std::filesystem::remove(in); std::filesystem::create_directory(in); break;
	case 8: what = "format"; add({ "--output-format="s + r.pick({ "foo", "", "csx2", "xml" }) }); break;
	case 9: what = "boolean"; a.args = { a.args[0], "-f" }; add({ r.pick({ "--meshlines=maybe", "--policy-lines=2x", "--read-oemsh-params=perhaps", "--integrate-old-mesh" }) }); break;
	case 10: what = "fixed line"; a.args = { a.args[0], "-f" }; add({ "--add-fixed-meshline="s + r.pick({ "w,1", "x", "x,", ",1", "x,1,y", "x,abc", "1", "x;1" }) }); break;
	case 11: what = "spoiled input"; write_file(in, r.pick({ std::string(), std::string("not xml"), xml.substr(0, xml.size() / 2), std::string("<a/>") })); break;
	case 12: what = "help"; asks = true; a.args.insert(a.args.begin() + r.in(0, 1), r.pick({ "-h", "--help" })); break;
	case 13: what = "version"; asks = true; a.args.insert(a.args.begin() + r.in(0, 1), "--version"); break;
	}
	c.input = what + ": " + shown(a.args);
	c.sample(c.input);
	auto const before = files(c);
	auto const got = run(c, a.args);
	c.count("form " + what);
	if(!sane(c, got)) return;
	c.check(got.rc == (asks ? 0 : 1), "exit", [&] { return cat("ends with ", got.rc, ": ", got.err.substr(0, 600)); });
	if(asks) {
		c.check(!got.out.empty() && got.err.empty(), "answer", "no answer");
		if(what == "help")
			for(auto const* x : { "--input", "--output", "--force", "--verbose", "--output-format", "--no-yz", "--no-zx", "--no-xy", "--read-oemsh-params", "--integrate-old-mesh", "--add-fixed-meshline",
					"--proximity-limit", "--dmax", "--lmin", "--smoothness", "--diag-dmax", "--diag-lmin", "--diag-minimal-angle", "--no-x", "--no-y", "--no-z", "--save-oemsh-params", "--meshlines", "--policy-lines", "--version" })
				c.check(got.out.find(x) != std::string::npos, "help", cat(x, " is not in the help"));
	} else {
		c.check(!got.err.empty(), "reason", "no reason is given");
		c.check(got.out.empty(), "stdout", [&] { return "something on the standard output: " + got.out.substr(0, 300); });
	}
	c.check(files(c) == before, "touched", "files changed");
	c.nontrivial(hash_bytes(c.input));
}

} // namespace

int main(int argc, char** argv) {
	return run_main(argc, argv, { { { "A02", a02 }, { "A04", a04 } }, {} });
}
