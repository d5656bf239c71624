// Specification functions for contract harnesses.
// A contract of a real function f is written as   require(precondition); call f; ensure(postcondition)
// over arbitrary arguments.  The verifier (cv/engine.py) executes the real body of f symbolically and proves every
// `ensure` for all arguments; compiled with -DCV_NATIVE the same contract is executed on sampled arguments, which is
// how a failed obligation is replayed on the real code.
#pragma once
#include <cstddef>
#include <vector>
#ifndef CV_NATIVE
namespace cv {
void require(bool);
void ensure(bool, const char* name);
template<class F> bool forall(size_t lo, size_t hi, F f) { return true; }
template<class F> bool exists(size_t lo, size_t hi, F f) { return true; }
template<class F> void inductive(F) {}   // invariant template for the loops executed from here on; its size_t parameters stand for loop variables
template<class T> T any();
void no_leak();   // every heap block allocated in this contract has been freed
inline bool eq(double a, double b) { return a == b; }   // real arithmetic; rounding is tolerated when executed
}
#else
#include "../native/harness.hxx"
#include <cmath>
namespace cv {
struct Skip {};
inline bool eq(double a, double b) { return a == b || (a != a && b != b) || std::fabs(a - b) <= 1e-7 * (1 + std::fabs(a) + std::fabs(b)); }
inline std::string& trace() { static std::string t; return t; }
inline void require(bool b) { if (!b) throw Skip(); }
inline void ensure(bool b, const char* name) { nv::n_checks++; if (!b) { snprintf(nv::cur_case, sizeof nv::cur_case, "%s", trace().c_str()); nv::report(name); throw Skip(); } }
template<class F> bool forall(size_t lo, size_t hi, F f) { for (size_t k = lo; k < hi; ++k) if (!f(k)) return false; return true; }
template<class F> bool exists(size_t lo, size_t hi, F f) { for (size_t k = lo; k < hi; ++k) if (f(k)) return true; return false; }
template<class T, class E = void> struct Gen;
template<> struct Gen<bool> { static bool get() { return nv::rnd(2); } };
template<class T> struct Gen<T, typename std::enable_if<std::is_floating_point<T>::value>::type> {
   static T get() { size_t m = nv::rnd(8);
#ifdef CV_INFINITIES
      if (nv::rnd(5) == 0) return nv::rnd(2) ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
#endif
      return m < 5 ? (T)((int)nv::rnd(5) - 2) : m < 7 ? (T)((int)nv::rnd(4001) - 2000) / 8 : (T)((int)nv::rnd(41) - 20); }
};
template<class T> struct Gen<T, typename std::enable_if<std::is_integral<T>::value>::type> {
   static T get() {
      size_t m = nv::rnd(16);
      if (m < 7) return (T)nv::rnd(4);
      if (m < 11) return (T)nv::rnd(7);
      if (m < 13) return std::is_signed<T>::value ? (T)((long)nv::rnd(5) - 2) : (T)nv::rnd(3);
      if (m < 15) return (T)nv::rnd(20);
      return std::is_signed<T>::value && nv::rnd(2) ? (T)-(long)nv::rnd(100) : (T)nv::rnd(100);
   }
};
template<class T> struct Gen<std::vector<T> > { static std::vector<T> get() { std::vector<T> v; size_t n = nv::rnd(2) ? nv::rnd(4) : nv::rnd(8) ? nv::rnd(7) : nv::rnd(24); for (size_t i = 0; i < n; ++i) v.push_back(Gen<T>::get()); return v; } };
template<class F> inline void inductive(F) {}
inline void no_leak() {}   // executed runs leave this to the leak sanitizer
template<class T> inline void show(const T& v) { trace() += nv::str(v) + " "; }
template<class T> inline void show(const std::vector<T>& v) { trace() += nv::vec(v) + " "; }
template<class T> T any() { T v = Gen<T>::get(); show(v); return v; }
template<class T> struct Bare { typedef typename std::remove_cv<typename std::remove_reference<T>::type>::type type; };
template<class... A, size_t... I> void apply(void (*f)(A...), std::tuple<typename Bare<A>::type...>& t, std::index_sequence<I...>) { f(std::get<I>(t)...); }
template<class... A> void run(const char* name, void (*f)(A...), bool may_throw) {
   nv::cur_section = name;
   size_t want = nv::thorough ? 60000 : 1500, tries = nv::thorough ? 600000 : 30000, done = 0;
   struct timespec a, b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a);
   for (size_t i = 0; i < tries && done < want; ++i) {
      trace().clear(); nv::cur_case[0] = 0;
      if ((i & 255) == 0) { nv::arm(); clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b); if (b.tv_sec - a.tv_sec > (nv::thorough ? 20 : 2)) break; }
      std::tuple<typename Bare<A>::type...> t{any<typename Bare<A>::type>()...};
      snprintf(nv::cur_case, sizeof nv::cur_case, "%s", trace().c_str());
      try { apply(f, t, std::index_sequence_for<A...>()); done++; }
      catch (Skip&) {}
      catch (std::exception& e) { if (!may_throw) { nv::begin_case(trace()); nv::report((std::string("unexpected exception ") + e.what()).c_str()); } done++; }
      catch (...) { if (!may_throw) { nv::begin_case(trace()); nv::report("unexpected exception"); } done++; }
      if (nv::n_fail >= 20) break;
   }
   nv::n_cases += done;
   printf("SECTION %s cases=%zu\n", name, done);
}
}
#endif
namespace cv {
inline bool implies(bool a, bool b) { return !a || b; }
inline bool iff(bool a, bool b) { return a == b; }
}
