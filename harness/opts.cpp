// What the command line asks for: the real parsing of options, in processes of its own,
// against the parameters each option names.
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include "session.hpp"
#include "ui/cli/cli.hpp"

using namespace vf;
using namespace std::string_literals;

namespace {

std::string tell(double d) {
	char b[64];
	snprintf(b, sizeof b, "%a", d);
	return b;
}

std::string tell(domain::Params const& d) {
	auto o = cat("has grid ", d.has_grid_already, "\nproximity ", tell(d.proximity_limit), "\nsmoothness ", tell(d.smoothness), "\nlmin ", d.lmin, "\ndmax ", tell(d.dmax),
		"\ndiagonal lmin ", d.diagonal_lmin, "\ndiagonal dmax ", tell(d.diagonal_dmax), "\nangle ", tell(d.consecutive_diagonal_minimal_angle), "\nlines");
	for(auto const& [a, v] : d.input_fixed_meshlines) o += cat(" ", a == domain::X ? "x" : a == domain::Y ? "y" : "z", tell(v));
	return o + "\n";
}

std::string tell(app::OpenEMSH::Params const& p) {
	return cat("input ", p.input.string(), "\noutput ", p.output.string(), "\nforce ", p.force, "\nverbose ", p.verbose, "\ngui ", p.gui, "\nformat ", (int)p.output_format,
		"\nplanes ", p.with_yz, p.with_zx, p.with_xy, "\nread ", p.read_oemsh_params, "\nkeep ", p.keep_old_mesh,
		"\naxes ", p.with_axis_x, p.with_axis_y, p.with_axis_z, "\nsave ", p.with_oemsh_params, "\nmeshlines ", p.with_meshlines, "\npolicies ", p.with_meshline_policies, "\n");
}

// Something else than every default.
domain::Params any(Rng& r) {
	domain::Params d;
	d.has_grid_already = r.chance(50);
	d.proximity_limit = r.real(-3, 9);
	d.smoothness = r.real(1, 2);
	d.lmin = (std::size_t)r.in(0, 99);
	d.dmax = r.real(0, 50);
	d.diagonal_lmin = (std::size_t)r.in(0, 99);
	d.diagonal_dmax = r.real(0, 50);
	d.consecutive_diagonal_minimal_angle = r.real(0, 180);
	for(long k = r.in(0, 3); k--;) d.input_fixed_meshlines.emplace_back(r.pick({ domain::X, domain::Y, domain::Z }), r.real(-9, 9));
	return d;
}

//------------------------------------------------------------------------ A05
void a05(Ctx& c, Rng& r) {
	std::filesystem::create_directories(c.scratch);
	auto const in = c.scratch / r.pick({ "in.csx", "a b.csx", "δ.xml", "no-extension", "true", "0", "csx" });
	write_file(in, "<openEMS/>"); // Not read here, only looked for.
	app::OpenEMSH::Params want;
	std::vector<std::function<void (domain::Params&)>> over;
	std::vector<std::vector<std::string>> opts;
	auto value = [&](std::string const& name, std::string const& v) {
		if(r.chance(50) || v.starts_with("-")) opts.push_back({ name + "=" + v });
		else opts.push_back({ name, v });
	};
	auto flag = [&](int percent, std::vector<std::string> const& names, bool& b, bool to) {
		if(!r.chance(percent)) return;
		opts.push_back({ r.pick(names) });
		b = to;
	};
	auto boolean = [&](std::string const& name, bool& b) {
		if(!r.chance(30)) return;
		b = r.chance(50);
		value(name, r.pick(b ? std::vector<std::string> { "true", "1", "on", "yes", "True", "ON" } : std::vector<std::string> { "false", "0", "off", "no", "FALSE" }));
	};
	auto number = [&](std::string const& name, auto domain::Params::* m, auto v) {
		if(!r.chance(30)) return;
		over.push_back([=](domain::Params& d) { d.*m = v; });
		if constexpr(std::is_same_v<decltype(v), double>) value(name, csx::num(v));
		else value(name, std::to_string(v));
	};
	flag(20, { "-v", "--verbose" }, want.verbose, true);
	flag(20, { "-f", "--force" }, want.force, true);
	flag(20, { "--no-yz" }, want.with_yz, false);
	flag(20, { "--no-zx" }, want.with_zx, false);
	flag(20, { "--no-xy" }, want.with_xy, false);
	flag(20, { "--no-x" }, want.with_axis_x, false);
	flag(20, { "--no-y" }, want.with_axis_y, false);
	flag(20, { "--no-z" }, want.with_axis_z, false);
	flag(20, { "--save-oemsh-params" }, want.with_oemsh_params, true);
	bool const window = r.chance(25);
	if(window) { opts.push_back({ "-G" }); want.gui = true; }
	boolean("--read-oemsh-params", want.read_oemsh_params);
	boolean("--integrate-old-mesh", want.keep_old_mesh);
	boolean("--meshlines", want.with_meshlines);
	boolean("--policy-lines", want.with_meshline_policies);
	using F = app::OpenEMSH::Params::OutputFormat;
	if(r.chance(40)) {
		auto const [n, f] = r.pick({ std::pair { "csx", F::CSX }, { "CSX", F::CSX }, { "plantuml", F::PLANTUML }, { "PlantUml", F::PLANTUML }, { "prettyprint", F::PRETTYPRINT }, { "PRETTYPRINT", F::PRETTYPRINT } });
		value("--output-format", n);
		want.output_format = f;
	}
	auto positive = [&] { return r.chance(50) ? r.pick({ 1e-9, 0.1, 0.5, 1.0, 2.5, 3.0, 100.0, 1e12 }) : r.real(0, 30); };
	number("--proximity-limit", &domain::Params::proximity_limit, positive());
	number("--smoothness", &domain::Params::smoothness, r.chance(50) ? r.pick({ 1.1, 1.5, 2.0, 1.0000001 }) : r.real(1.001, 2));
	number("--dmax", &domain::Params::dmax, positive());
	number("--diag-dmax", &domain::Params::diagonal_dmax, positive());
	number("--diag-minimal-angle", &domain::Params::consecutive_diagonal_minimal_angle, r.pick({ 1e-3, 5.0, 45.0, 90.0, 179.5, 0.0 }));
	number("--lmin", &domain::Params::lmin, (std::size_t)r.pick({ 0l, 1l, 2l, 7l, 1000l, 4294967296l }));
	number("--diag-lmin", &domain::Params::diagonal_lmin, (std::size_t)r.pick({ 0l, 1l, 2l, 7l, 1000l, 4294967296l }));
	std::vector<std::vector<std::string>> lines;
	if(r.chance(40)) {
		decltype(domain::Params::input_fixed_meshlines) v;
		for(long k = r.in(1, 5); k--;) {
			int const axis = (int)r.in(0, 2);
			double const at = r.chance(50) ? (double)r.in(-9, 9) : r.real(-1e3, 1e3);
			v.emplace_back(axis == 0 ? domain::X : axis == 1 ? domain::Y : domain::Z, at);
			auto const t = cat(r.chance(70) ? "xyz"[axis] : "XYZ"[axis], ",", csx::num(at));
			if(r.chance(70)) lines.push_back({ "--add-fixed-meshline=" + t });
			else lines.push_back({ "--add-fixed-meshline", t });
		}
		over.push_back([v](domain::Params& d) { d.input_fixed_meshlines = v; });
	}
	// An input is needed without window only.
	if(!window || r.chance(60)) {
		want.input = in;
		switch(r.in(0, 2)) {
		case 0: opts.push_back({ "--input=" + in.string() }); break;
		case 1: opts.push_back({ "-i", in.string() }); break;
		case 2: opts.push_back({ "--input", in.string() }); break;
		}
		want.output = want.input;
	}
	if(r.chance(50)) {
		want.output = r.pick({ c.scratch / "out.csx", c.scratch / "no" / "where", std::filesystem::path("relative"), in });
		value(r.chance(50) ? "--output" : "-o", want.output.string());
		if(opts.back()[0].starts_with("-o=")) opts.back() = { "-o", want.output.string() };
	}
	r.shuffle(opts);
	// Fixed lines keep their order, anywhere between others.
	std::vector<long> at;
	for(std::size_t k = 0; k < lines.size(); ++k) at.push_back(r.in(0, (long)opts.size()));
	std::ranges::sort(at);
	for(std::size_t k = lines.size(); k--;) opts.insert(opts.begin() + at[k], lines[k]);
	std::vector<std::string> args { r.pick({ "openemsh", "/some where/OpenEMSH", "x" }) };
	bool const nothing = r.chance(3);
	if(nothing) { want = {}; want.gui = true; over.clear(); }
	else for(auto const& o : opts) args.insert(args.end(), o.begin(), o.end());
	for(auto const& a : args) c.input += "'" + a + "' ";
	c.sample(c.input);
	auto const other = any(r);
	int fd[2];
	if(pipe(fd)) { perror("pipe"); _exit(3); }
	pid_t const pid = fork();
	if(pid < 0) { perror("fork"); _exit(3); }
	if(pid == 0) {
		close(fd[0]);
		dup2(fd[1], 2);
		std::vector<char*> argv;
		for(auto& a : args) argv.push_back(a.data());
		argv.push_back(nullptr);
		auto const p = ui::cli::cli((int)args.size(), argv.data());
		domain::Params d0, d1 = other;
		p.override_from_cli(d0);
		p.override_from_cli(d1);
		auto const text = tell(p) + "on defaults:\n" + tell(d0) + "on others:\n" + tell(d1);
		for(std::size_t k = 0; k < text.size();) {
			auto const n = ::write(fd[1], text.data() + k, text.size() - k);
			if(n <= 0) _exit(9);
			k += (std::size_t)n;
		}
		_exit(0);
	}
	close(fd[1]);
	std::string got;
	char b[4096];
	for(ssize_t n; (n = read(fd[0], b, sizeof b)) > 0 || (n < 0 && errno == EINTR);) if(n > 0) got.append(b, (std::size_t)n);
	close(fd[0]);
	int st = 0;
	while(waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
	if(!WIFEXITED(st) || WEXITSTATUS(st)) {
		c.fail(WIFEXITED(st) && WEXITSTATUS(st) == 1 ? "refused" : "crash", cat("a right command line ends with ", st, ": ", got.substr(0, 2000)));
		return;
	}
	domain::Params d0, d1 = other;
	for(auto const& o : over) o(d0), o(d1);
	auto const expected = tell(want) + "on defaults:\n" + tell(d0) + "on others:\n" + tell(d1);
	c.check(got == expected, "params", [&] { return first_difference(expected, got); });
	for(auto const& o : opts) c.count("option " + o[0].substr(0, o[0].find('=')));
	for(auto const& l : lines) c.count("option " + l[0].substr(0, l[0].find('=')));
	if(nothing) c.count("no argument");
	c.nontrivial(hash_bytes(c.input));
}

} // namespace

int main(int argc, char** argv) {
	return run_main(argc, argv, { { { "A05", a05 } }, {} });
}
