// Small framework of the replay harnesses: they run the real code of /repo/src on enumerated and seeded random
// inputs and compare with an executable form of the contract.  A failing input is printed and ends the run.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <chrono>
#include <exception>
#include <csignal>
#include <unistd.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0"; }
#endif
namespace vr {
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567ull) { for (int i=0;i<4;++i) next(); }
	uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
	int below(int n) { return n <= 0 ? 0 : (int)((next() >> 33) % (uint64_t)n); }
	int range(int a, int b) { return a + below(b - a + 1); }
	bool chance(int pct) { return below(100) < pct; }
};
inline std::string& current() { static std::string c; return c; }
inline std::function<std::string()>& lazycur() { static std::function<std::string()> f; return f; }
inline long& evals() { static long n = 0; return n; }
inline std::unordered_set<uint64_t>& seen() { static std::unordered_set<uint64_t> s; return s; }
inline std::vector<std::string>& samples() { static std::vector<std::string> s; return s; }
inline std::string& prop() { static std::string s; return s; }
inline unsigned& seed() { static unsigned s = 1; return s; }
inline double& budget() { static double b = 5; return b; }
inline double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
inline double& t0() { static double t = now(); return t; }
inline bool more(double frac = 1.0) { return now() - t0() < budget() * frac; }
inline std::string casetext() { return lazycur() ? lazycur()() : current(); }
inline void emit_fail(const char* what)
{
	static bool done = false;
	if (done) return;
	done = true;
	std::string c = casetext();
	fprintf(stdout, "FAIL %s\nINPUT-BEGIN\n%s\nINPUT-END\n", what, c.c_str());
	fflush(stdout);
}
[[noreturn]] inline void fail(const std::string& what) { emit_fail(what.c_str()); _exit(3); }
inline void on_sig(int s)
{
	emit_fail(s == SIGALRM ? "the code under test does not terminate on this input" : "crash of the code under test (or memory error or undefined behaviour reported by the sanitizer) on this input");
	_exit(3);
}
inline void on_term()
{
	std::string w = "exception escapes";
	try { if (auto e = std::current_exception()) std::rethrow_exception(e); } catch (const std::exception& e) { w += std::string(": ") + e.what(); } catch (...) {}
	emit_fail(w.c_str());
	_exit(3);
}
inline uint64_t hash(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
// start of a case; nontrivial cases are counted by distinct text
inline void begin(const std::string& text, bool nontrivial = true)
{
	current() = text;
	lazycur() = nullptr;
	++evals();
	static double armed = -1000;
	if (now() - armed > 2) { alarm(60); armed = now(); }
	if (nontrivial)
	{
		if (seen().size() < 2000000) seen().insert(hash(text));
		if (samples().size() < 3 || (samples().size() < 6 && (evals() % 997) == 0)) samples().push_back(text.substr(0, 300));
	}
}
inline void init(int argc, const char** argv)
{
	for (int i=1; i<argc; ++i)
	{
		if (!strcmp(argv[i], "--prop")) prop() = argv[++i];
		else if (!strcmp(argv[i], "--seed")) seed() = strtoul(argv[++i], 0, 10);
		else if (!strcmp(argv[i], "--budget")) budget() = atof(argv[++i]);
	}
	t0();
	signal(SIGALRM, on_sig);
	signal(SIGABRT, on_sig);	// the sanitizers abort after their report
#if !defined(__SANITIZE_ADDRESS__)
	signal(SIGSEGV, on_sig); signal(SIGBUS, on_sig); signal(SIGFPE, on_sig);
#endif
	std::set_terminate(on_term);
	alarm(60);
}
inline std::string jesc(const std::string& s)
{
	std::string o;
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; }
	return o;
}
inline int finish()
{
	printf("STATS {\"evaluations\": %ld, \"distinct_nontrivial\": %ld, \"samples\": [", evals(), (long)seen().size());
	for (size_t i=0; i<samples().size(); ++i) printf("%s\"%s\"", i ? ", " : "", jesc(samples()[i]).c_str());
	printf("]}\n");
	fflush(stdout);
	_exit(0);
}
template <class... A> std::string cat(const A&... a) { std::ostringstream o; (void)std::initializer_list<int>{((o << a), 0)...}; return o.str(); }
}
#define VR_CHECK(cond, ...) do { if (!(cond)) vr::fail(vr::cat(__VA_ARGS__)); } while (0)
