// Stands for the indicators library, which is not installed here: same interface, and
// each value it is given goes to the log $VF_BARS as a line, if set.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <ostream>
#include <string>
#include <utility>

namespace indicators {

enum class Color { grey, red, green, yellow, blue, magenta, cyan, white, unspecified };

namespace option {
struct BarWidth { std::size_t value; };
struct Start { std::string value; };
struct End { std::string value; };
struct ForegroundColor { Color value; };
struct ShowPercentage { bool value; };
struct ShowElapsedTime { bool value; };
struct PrefixText { std::string value; };
struct PostfixText { std::string value; };
struct MaxProgress { std::size_t value; };
struct Stream { std::ostream& value; };
} // namespace option

class BlockProgressBar {
public:
	template<class... O>
	explicit BlockProgressBar(O&&... o) {
		(set_option(std::forward<O>(o)), ...);
		say("new");
	}
	BlockProgressBar(BlockProgressBar const&) = delete;
	~BlockProgressBar() { say("end"); }

	void set_option(option::BarWidth const& o) { width = o.value; }
	void set_option(option::Start const&) {}
	void set_option(option::End const&) {}
	void set_option(option::ForegroundColor const&) {}
	void set_option(option::ShowPercentage const&) {}
	void set_option(option::ShowElapsedTime const&) {}
	void set_option(option::PrefixText const& o) { prefix = o.value; }
	void set_option(option::PostfixText const& o) { postfix = o.value; }
	void set_option(option::MaxProgress const& o) { max = o.value; }
	void set_option(option::Stream const& o) { stream = &o.value; }

	void set_progress(std::size_t v) {
		progress = v;
		say("at");
		if(stream && v >= max && !done) { done = true; *stream << "[bar] " << prefix << postfix << "\n"; }
	}
	void mark_as_completed() { done = true; say("done"); }
	bool is_completed() const { return done; }

private:
	void say(char const* what) {
		static char const* const path = std::getenv("VF_BARS");
		if(!path) return;
		if(FILE* f = std::fopen(path, "a")) {
			std::fprintf(f, "%s\t%p\t%zu\t%zu\t%zu\t%s\t%s\n", what, (void*)this, progress, max, width, prefix.c_str(), postfix.c_str());
			std::fclose(f);
		}
	}
	std::size_t width = 100, max = 100, progress = 0;
	std::string prefix, postfix;
	std::ostream* stream = nullptr;
	bool done = false;
};

} // namespace indicators
