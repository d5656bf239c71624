// Executable form of the contracts: replays a failed obligation on the real code (searches a failing input
// within the stated bounds) and serves as the labelled bounded stand-in for functions not under proof.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <sstream>
#include <vector>
#include <map>
#include <set>
#include <algorithm>
#include <functional>
#include <limits>
#include <cmath>
#include <unistd.h>
#include <csignal>
#include <sys/time.h>
#include <ctime>
#include <tuple>
#include <utility>
#include <type_traits>

namespace nv {
static char cur_case[4096];
static const char* cur_section = "";
static unsigned long long n_cases = 0, n_checks = 0, n_fail = 0;
static bool thorough = false;
static uint64_t rng_state = 88172645463325252ull;
inline uint64_t rnd() { rng_state ^= rng_state << 13; rng_state ^= rng_state >> 7; rng_state ^= rng_state << 17; return rng_state; }
inline size_t rnd(size_t n) { return n ? rnd() % n : 0; }
inline double rndv() { static const double v[] = {0,1,-1,2,0.5,-0.5,3,10,-7.25,4}; return v[rnd(10)]; }

inline void report(const char* what) {
   fprintf(stdout, "FAIL section=%s case=[%s] what=%s\n", cur_section, cur_case, what);
   fflush(stdout);
   n_fail++;
}
inline void crash(const char* what) { report(what); fprintf(stdout, "CASES %llu CHECKS %llu FAILS %llu\n", n_cases, n_checks, n_fail); fflush(stdout); _exit(3); }
inline void on_signal(int s) { static char b[64]; snprintf(b, sizeof b, s == SIGVTALRM ? "does not terminate" : "killed by signal %d", s); crash(b); }
inline void arm() { struct itimerval t; memset(&t, 0, sizeof t); t.it_value.tv_sec = 60; setitimer(ITIMER_VIRTUAL, &t, 0); }
inline void begin_case(const std::string& s) {
   snprintf(cur_case, sizeof cur_case, "%s", s.c_str());
   if ((n_cases++ & 255) == 0) arm();
}
template<class A> std::string str(const A& a) { std::ostringstream o; o.precision(17); o << a; return o.str(); }
template<class It> std::string seq(It b, It e) { std::ostringstream o; o.precision(17); o << "("; for (It i = b; i != e; ++i) { if (i != b) o << ","; o << *i; } o << ")"; return o.str(); }
template<class V> std::string vec(const V& v) { return seq(v.begin(), v.end()); }

struct Section { const char* name; std::function<void()> f; };
inline std::vector<Section>& sections() { static std::vector<Section> s; return s; }
struct Reg { Reg(const char* n, std::function<void()> f) { sections().push_back(Section{n, f}); } };
inline bool enough() { return n_fail >= 20; }
}
#define SECTION(id, name) static void id(); static nv::Reg reg_##id(name, id); static void id()
#define CASE(expr) do { std::ostringstream o_; o_.precision(17); o_ << expr; nv::begin_case(o_.str()); } while (0)
#define CHECK(cond, what) do { nv::n_checks++; if (!(cond)) { nv::report(what); if (nv::enough()) return; } } while (0)
#define CHECK_THROWS(expr, what) do { nv::n_checks++; bool t_ = false; try { expr; } catch (...) { t_ = true; } if (!t_) { nv::report(what); } } while (0)

#if defined(__SANITIZE_ADDRESS__)
extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" const char* __asan_default_options() { return "detect_leaks=1:exitcode=3:allocator_may_return_null=1:max_allocation_size_mb=4096"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:print_stacktrace=0"; }
extern "C" int __lsan_do_recoverable_leak_check();
#endif
static void nv_death() { nv::report("memory or undefined-behaviour error (sanitizer)"); fprintf(stdout, "CASES %llu CHECKS %llu FAILS %llu\n", nv::n_cases, nv::n_checks, nv::n_fail); fflush(stdout); }

#ifdef CV_NATIVE
namespace nv { static void run_contracts(); }
#endif
int main(int argc, char** argv) {
   std::set<std::string> only;
   uint64_t seed = 1;
   for (int i = 1; i < argc; ++i) {
      if (!strcmp(argv[i], "--seed")) seed = strtoull(argv[++i], 0, 10);
      else if (!strcmp(argv[i], "--thorough")) nv::thorough = true;
      else if (!strcmp(argv[i], "--section")) only.insert(argv[++i]);
      else if (!strcmp(argv[i], "--list")) { for (auto& s : nv::sections()) printf("%s\n", s.name); return 0; }
   }
   signal(SIGABRT, nv::on_signal); signal(SIGFPE, nv::on_signal); signal(SIGVTALRM, nv::on_signal); signal(SIGILL, nv::on_signal);
#if defined(__SANITIZE_ADDRESS__)
   __asan_set_death_callback(nv_death);
#else
   signal(SIGSEGV, nv::on_signal);
#endif
#ifdef CV_NATIVE
   nv::rng_state = 88172645463325252ull ^ (seed * 0x9E3779B97F4A7C15ull);
   nv::run_contracts();
#endif
   for (auto& s : nv::sections()) {
      if (!only.empty() && !only.count(s.name)) continue;
      nv::cur_section = s.name; nv::cur_case[0] = 0;
      nv::rng_state = 88172645463325252ull ^ (seed * 0x9E3779B97F4A7C15ull);
      if (!nv::rng_state) nv::rng_state = 1;
      unsigned long long c0 = nv::n_cases;
      try { s.f(); }
      catch (std::exception& e) { nv::report((std::string("unexpected exception: ") + e.what()).c_str()); }
      catch (...) { nv::report("unexpected exception"); }
#if defined(__SANITIZE_ADDRESS__)
      if (__lsan_do_recoverable_leak_check()) nv::report("memory leak (some case of this section)");
#endif
      printf("SECTION %s cases=%llu\n", s.name, nv::n_cases - c0);
   }
   printf("CASES %llu CHECKS %llu FAILS %llu\n", nv::n_cases, nv::n_checks, nv::n_fail);
   fflush(stdout);
   _exit(nv::n_fail ? 3 : 0);
}
