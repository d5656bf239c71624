#include <vector>
#include <cstdlib>
#include <cmath>
#include <numeric>
#include <functional>
#include "opengm/opengm.hxx"
#include "opengm/functions/function_properties_base.hxx"
#include "opengm/functions/potts.hxx"
#include "opengm/functions/pottsn.hxx"
#include "opengm/functions/pottsg.hxx"
#include "opengm/functions/absolute_difference.hxx"
#include "opengm/functions/squared_difference.hxx"
#include "opengm/functions/truncated_absolute_difference.hxx"
#include "opengm/functions/truncated_squared_difference.hxx"
#include "opengm/functions/constant.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall; using cv::exists;
#include <array>
typedef std::array<bool, 64> B64; typedef std::vector<size_t> V; typedef std::vector<double> W;
static const size_t big = 1ul << 30;
// the value of an arbitrary function of two labels
#ifndef CV_NATIVE
namespace S { double table(size_t a, size_t b); double other(size_t a, size_t b); double table3(size_t a, size_t b, size_t c); }
#else
static size_t mode, seed; static double wt, tr;
namespace S { static double table(size_t a, size_t b) { double d = a < b ? b - a : a - b, r; size_t m = mode % 6;
   r = m == 0 ? wt * d : m == 1 ? wt * d * d : m == 2 ? std::min(wt * d, tr) : m == 3 ? std::min(wt * d * d, tr) : m == 4 ? (a == b ? wt : tr) : double((a * 7 + b * 3 + seed) % 5);
   return mode >= 6 && (a * 5 + b * 3 + seed) % 11 == 0 ? r + 1 : r; }
static double other(size_t a, size_t b) { return table(a, b) + (seed % 3 == 0 && (a + b + seed) % 5 == 0 ? 1 : 0); }
static double table3(size_t a, size_t b, size_t c) { size_t m = mode % 3; double r = m == 0 ? (a == b && b == c ? wt : tr) : m == 1 ? (a == b) * wt + (b == c) * tr + (a == c) * 0.5 : double((a * 7 + b * 3 + c + seed) % 5); return mode >= 6 && (a * 5 + b * 3 + c * 2 + seed) % 13 == 0 ? r + 1 : r; } }
#endif
static void draw() {
#ifdef CV_NATIVE
   mode = nv::rnd(12); seed = nv::rnd(1000); wt = double(nv::rnd(7)) - 3; tr = double(nv::rnd(7)) - 3;
#endif
}
// a function class that inherits every query and has arbitrary values
struct F2 : FunctionBase<F2, double, size_t, size_t> {
   typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType;
   size_t n0, n1; F2(size_t a, size_t b) : n0(a), n1(b) {}
   size_t dimension() const { return 2; } size_t shape(size_t k) const { return k == 0 ? n0 : n1; } size_t size() const { return n0 * n1; }
   template<class I> double operator()(I it) const { ensure(it[0] < n0 && it[1] < n1, "evaluated at label vectors only"); return S::table(it[0], it[1]); }
};
static size_t dist(size_t a, size_t b) { return a < b ? b - a : a - b; }
static bool near(double a, double b) { return a < b ? b - a < 0.000001 : a - b < 0.000001; }
template<class P> static bool all(size_t n0, size_t n1, P p) { return forall(0, n1, [&](size_t b) { return forall(0, n0, [&](size_t a) { return p(a, b); }); }); }
#define LOOPS(p) \
   cv::inductive([&](const V& c) { return c[1] <= n1 && forall(0, c[1], [&](size_t b) { return forall(0, n0, [&](size_t a) { return p(a, b); }); }); }); \
   cv::inductive([&](const V& c) { return c[1] < n1 && c[0] <= n0 && forall(0, c[1], [&](size_t b) { return forall(0, n0, [&](size_t a) { return p(a, b); }); }) && forall(0, c[0], [&](size_t a) { return p(a, c[1]); }); });
#define TEST(Q, P) { draw(); require(n0 > 1 && n0 < big && n1 > 0 && n1 < big); const F2 f(n0, n1); auto p = [&](size_t a, size_t b) { return P; }; LOOPS(p) ensure(f.Q() == all(n0, n1, p), #Q); }
namespace S {
double sum(const W& t, long n) { return n <= 0 ? 0.0 : sum(t, n - 1) + t[n - 1]; }
double product(const W& t, long n) { return n <= 0 ? 1.0 : product(t, n - 1) * t[n - 1]; }
}
struct E2 : FunctionBase<E2, double, size_t, size_t> {
   typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType;
   size_t n0, n1; bool o; E2(size_t a, size_t b, bool c) : n0(a), n1(b), o(c) {}
   size_t dimension() const { return 2; } size_t shape(size_t k) const { return k == 0 ? n0 : n1; } size_t size() const { return n0 * n1; }
   template<class I> double operator()(I it) const { ensure(it[0] < n0 && it[1] < n1, "evaluated at label vectors only"); return o ? S::other(it[0], it[1]) : S::table(it[0], it[1]); }
};
struct F3 : FunctionBase<F3, double, size_t, size_t> {
   typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType;
   size_t n0, n1, n2; F3(size_t a, size_t b, size_t c) : n0(a), n1(b), n2(c) {}
   size_t dimension() const { return 3; } size_t shape(size_t k) const { return k == 0 ? n0 : k == 1 ? n1 : n2; } size_t size() const { return n0 * n1 * n2; }
   template<class I> double operator()(I it) const { ensure(it[0] < n0 && it[1] < n1 && it[2] < n2, "evaluated at label vectors only"); return S::table3(it[0], it[1], it[2]); }
};
// walks over the two labels: label vectors reported before position i are those before (c[0], c[1]) in the walking order
static bool before(size_t a, size_t b, const V& c, size_t i, size_t n0, size_t n1) { return b < c[1] || (b == c[1] && a < c[0]) || i >= n0 * n1; }
static bool at(const V& c, size_t i, size_t n0, size_t n1) { return i <= n0 * n1 && (i < n0 * n1 ? c[0] < n0 && c[1] < n1 && i == c[0] + n0 * c[1] : true); }
// a function class with values in walking order, for what depends on the values only
struct G1 : FunctionBase<G1, double, size_t, size_t> {
   typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType;
   const W& t; size_t n0; G1(const W& w, size_t a) : t(w), n0(a) {}
   size_t dimension() const { return 1; } size_t shape(size_t) const { return n0; } size_t size() const { return n0; }
   template<class I> double operator()(I it) const { ensure(it[0] < n0, "evaluated at label vectors only"); return t[it[0]]; }
};
struct G2 : FunctionBase<G2, double, size_t, size_t> {
   typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType;
   const W& t; size_t n0, n1; G2(const W& w, size_t a, size_t b) : t(w), n0(a), n1(b) {}
   size_t dimension() const { return 2; } size_t shape(size_t k) const { return k == 0 ? n0 : n1; } size_t size() const { return n0 * n1; }
   template<class I> double operator()(I it) const { ensure(it[0] < n0 && it[1] < n1, "evaluated at label vectors only"); return t[it[0] + n0 * it[1]]; }
};
struct G3 : FunctionBase<G3, double, size_t, size_t> {
   typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType;
   const W& t; size_t n0, n1, n2; G3(const W& w, size_t a, size_t b, size_t c) : t(w), n0(a), n1(b), n2(c) {}
   size_t dimension() const { return 3; } size_t shape(size_t k) const { return k == 0 ? n0 : k == 1 ? n1 : n2; } size_t size() const { return n0 * n1 * n2; }
   template<class I> double operator()(I it) const { ensure(it[0] < n0 && it[1] < n1 && it[2] < n2, "evaluated at label vectors only"); return t[it[0] + n0 * it[1] + n0 * n1 * it[2]]; }
};
#define WALK2 cv::inductive([&](const V& c, size_t i) { return at(c, i, n0, n1); });
#define PRE2 draw(); require(n0 > 0 && n0 < 1000000 && n1 > 0 && n1 < 1000000);
namespace H {
void absolute(size_t n0, size_t n1) TEST(isAbsoluteDifference, near(S::table(a, b), dist(a, b) * S::table(1, 0)))
void squared(size_t n0, size_t n1) TEST(isSquaredDifference, near(S::table(a, b), (double)dist(a, b) * dist(a, b) * S::table(1, 0)))

void potts(size_t n0, size_t n1) { PRE2 WALK2 const F2 f(n0, n1);
   auto p = [&](size_t a, size_t b) { return S::table(a, b) == (a == b ? S::table(0, 0) : n0 > 1 ? S::table(1, 0) : S::table(0, 1)); };
   cv::inductive([&](const V& c, size_t i) { return forall(0, n1, [&](size_t b) { return forall(0, n0, [&](size_t a) { return before(a, b, c, i, n0, n1) ? p(a, b) : true; }); }); });
   ensure(f.isPotts() == all(n0, n1, p), "one value for equal and one for different labels"); }
void generalized(size_t n0, size_t n1) { PRE2 WALK2 const F2 f(n0, n1);
   cv::inductive([&](const V& c, const B64& known, const W& value, size_t i) { return forall(0, n1, [&](size_t b) { return forall(0, n0, [&](size_t a) { return before(a, b, c, i, n0, n1) ? (a == b ? known[1] && S::table(a, b) == value[1] : known[0] && S::table(a, b) == value[0]) : true; }); }); });
   cv::inductive([&](const V& c, const B64& known, const W& value, size_t i) { return known[1] ? exists(0, n1, [&](size_t b) { return b < n0 && value[1] == S::table(b, b); }) : true; });
   cv::inductive([&](const V& c, const B64& known, const W& value, size_t i) { return known[0] ? exists(0, n1, [&](size_t b) { return exists(0, n0, [&](size_t a) { return a != b && value[0] == S::table(a, b); }); }) : true; });
   auto p = [&](size_t a, size_t b) { return S::table(a, b) == (a == b ? S::table(0, 0) : n0 > 1 ? S::table(1, 0) : S::table(0, 1)); };
   ensure(f.isGeneralizedPotts() == all(n0, n1, p), "one value for equal and one for different labels"); }
void equality(size_t n0, size_t n1, size_t m0, size_t m1, bool o) { PRE2 require(m0 < 1000000 && m1 < 1000000); WALK2 const E2 f(n0, n1, false), g(m0, m1, o);
   auto p = [&](size_t a, size_t b) { return near(S::table(a, b), o ? S::other(a, b) : S::table(a, b)); };
   cv::inductive([&](const V& c, size_t i) { return forall(0, n1, [&](size_t b) { return forall(0, n0, [&](size_t a) { return before(a, b, c, i, n0, n1) ? p(a, b) : true; }); }); });
   ensure((f == g) == (n0 == m0 && n1 == m1 && all(n0, n1, p)), "equal exactly if shapes and values are"); }
void submodular(size_t n0, size_t n1) { draw(); require(n0 < big && n1 < big); const F2 f(n0, n1); bool thrown = false, r = false; try { r = f.isSubmodular(); } catch(...) { thrown = true; }
   ensure(thrown == !(n0 == 2 && n1 == 2), "asked for two labels each only"); if(!thrown) ensure(r == (S::table(0, 0) + S::table(1, 1) <= S::table(0, 1) + S::table(1, 0)), "submodular"); }
void truncated_absolute(size_t n0, size_t n1) TEST(isTruncatedAbsoluteDifference, near(S::table(a, b), dist(a, b) * S::table(1, 0)) || (near(S::table(a, b), S::table(n0 - 1, 0)) && S::table(n0 - 1, 0) < dist(a, b) * S::table(1, 0)))
void truncated_squared(size_t n0, size_t n1) TEST(isTruncatedSquaredDifference, near(S::table(a, b), (double)dist(a, b) * dist(a, b) * S::table(1, 0)) || (near(S::table(a, b), S::table(n0 - 1, 0)) && S::table(n0 - 1, 0) < (double)dist(a, b) * dist(a, b) * S::table(1, 0)))
// the function classes
void truncated_absolute_class(size_t n0, size_t n1, double w, double t) { require(n0 > 1 && n0 < big && n1 > 0 && n1 <= n0 && w >= 0 && t >= 0); const TruncatedAbsoluteDifferenceFunction<double> f(n0, n1, t, w); ensure(f.isTruncatedAbsoluteDifference(), "recognised"); }
void truncated_squared_class(size_t n0, size_t n1, double w, double t) { require(n0 > 1 && n0 < big && n1 > 0 && n1 <= n0 && w >= 0 && t >= 0); const TruncatedSquaredDifferenceFunction<double> f(n0, n1, t, w); ensure(f.isTruncatedSquaredDifference(), "recognised"); }
void absolute_class(size_t n0, size_t n1, double w) { require(n0 > 1 && n0 < big && n1 > 0 && n1 < big); const AbsoluteDifferenceFunction<double> f(n0, n1, w); ensure(f.isAbsoluteDifference(), "recognised"); }
void squared_class(size_t n0, size_t n1, double w) { require(n0 > 1 && n0 < big && n1 > 0 && n1 < big); const SquaredDifferenceFunction<double> f(n0, n1, w); ensure(f.isSquaredDifference(), "recognised"); }
void potts_class(size_t n0, size_t n1, double e, double d) { require(n0 > 0 && n0 < big && n1 > 0 && n1 < big); const PottsFunction<double> f(n0, n1, e, d); const bool more = n0 > 1 || n1 > 1; MinMaxFunctor<double> m = f.minMax();
   ensure(f.isPotts() && f.isGeneralizedPotts(), "Potts"); const double lo = more && d < e ? d : e, hi = more && d > e ? d : e; ensure(f.min() == lo && f.max() == hi && m.min() == lo && m.max() == hi, "least and greatest of the values taken");
   ensure(f.accumulate<Minimizer>() == lo && f.accumulate<Maximizer>() == hi, "accumulated"); }
void potts_sum(size_t n0, size_t n1, double e, double d) { require(n0 > 0 && n0 < 1000 && n1 > 0 && n1 < 1000); const PottsFunction<double> f(n0, n1, e, d); double total = 0;
   cv::inductive([&](double v, size_t b) { const double k = b < n0 ? b : n0; return v == k * e + (double(b) * double(n0) - k) * d; });
   for(size_t b = 0; b < n1; ++b) { double row = 0; cv::inductive([&](double v, size_t a) { return v == (a > b ? e + (double(a) - 1.0) * d : double(a) * d); }); for(size_t a = 0; a < n0; ++a) { size_t l[] = { a, b }; row += f(l); } total += row; }
   ensure(cv::eq(f.sum(), total), "sum of the values at all label vectors"); ensure(cv::eq(f.accumulate<Adder>(), total), "accumulated"); }
void pottsg2_class(size_t n0, size_t n1, W v) { require(n0 > 1 && n0 < 1000 && n1 > 1 && n1 < 1000 && v.size() == 2); size_t s[] = { n0, n1 }; const PottsGFunction<double> f(s, s + 2, v.begin()); ensure(f.isPotts() && f.isGeneralizedPotts(), "Potts"); }
void pottsg3_class(size_t n0, size_t n1, size_t n2, W v) { require(n0 > 2 && n0 < 1000 && n1 > 2 && n1 < 1000 && n2 > 2 && n2 < 1000 && v.size() == 5); size_t s[] = { n0, n1, n2 }; const PottsGFunction<double> f(s, s + 3, v.begin());
   size_t p[] = { 0, 1, 2 }, q[] = { 0, 0, 1 }, r[] = { 0, 1, 0 }, t[] = { 1, 0, 0 }; ensure(f.isPotts() == (f(p) == f(q) && f(p) == f(r) && f(p) == f(t)), "one value for labels that are not all equal"); ensure(f.isGeneralizedPotts(), "generalized Potts"); }
void pottsn_class(V sh, double e, double d) { const PottsNFunction<double> f(sh.begin(), sh.end(), e, d); ensure(f.isPotts() && f.isGeneralizedPotts(), "Potts"); }
void constant_class(V sh, double v) { const ConstantFunction<double> f(sh.begin(), sh.end(), v); MinMaxFunctor<double> m = f.minMax(); ensure(f.isPotts() && f.isGeneralizedPotts() && f.min() == v && f.max() == v && m.min() == v && m.max() == v && f.accumulate<Minimizer>() == v && f.accumulate<Maximizer>() == v, "one value"); }
void constant_sum(size_t n0, size_t n1, double x) { require(n0 > 0 && n0 < 1000 && n1 > 0 && n1 < 1000); size_t s[] = { n0, n1 }; const ConstantFunction<double> f(s, s + 2, x); double total = 0;
   cv::inductive([&](double v, size_t b) { return v == double(b) * double(n0) * x; });
   for(size_t b = 0; b < n1; ++b) { double row = 0; cv::inductive([&](double v, size_t a) { return v == double(a) * x; }); for(size_t a = 0; a < n0; ++a) { size_t l[] = { a, b }; row += f(l); } total += row; }
   ensure(cv::eq(f.sum(), total), "sum of the values at all label vectors"); }
void linear(size_t n0, size_t n1) { const F2 f(n0, n1); ensure(!f.isLinearConstraint(), "no linear constraint"); }
#define MIN_AT(v, n) (forall(0, n, [&](size_t k) { return v <= t[k]; }) && exists(0, t.size(), [&](size_t k) { return v == t[k]; }))
#define MAX_AT(v, n) (forall(0, n, [&](size_t k) { return v >= t[k]; }) && exists(0, t.size(), [&](size_t k) { return v == t[k]; }))
#define FOLDS \
   cv::inductive([&](double v, size_t i) { return MIN_AT(v, i); }); cv::inductive([&](double v, size_t i) { return MAX_AT(v, i); }); \
   cv::inductive([&](double v, size_t i) { return v == S::sum(t, i); }); cv::inductive([&](double v, size_t i) { return v == S::product(t, i); });
#define DIM1 draw(); require(n0 > 0 && n0 < big && t.size() == n0); cv::inductive([&](const V& c, size_t i) { return i <= n0 && (i < n0 ? c[0] == i : true); }); const G1 f(t, n0); FOLDS
#define DIM2 PRE2 require(t.size() == n0 * n1); WALK2 const G2 f(t, n0, n1); FOLDS
#define DIM3 draw(); require(n0 > 0 && n0 < 1000 && n1 > 0 && n1 < 1000 && n2 > 0 && n2 < 1000 && t.size() == n0 * n1 * n2); const G3 f(t, n0, n1, n2); FOLDS \
   cv::inductive([&](const V& c, size_t i) { return i <= n0 * n1 * n2 && (i < n0 * n1 * n2 ? c[0] < n0 && c[1] < n1 && c[2] < n2 && i == c[0] + n0 * c[1] + n0 * n1 * c[2] : true); });
#define QUERIES(D, ...) \
void minimum##D(W t, __VA_ARGS__) { DIM##D const double r = f.min(); ensure(MIN_AT(r, t.size()), "minimum"); } \
void maximum##D(W t, __VA_ARGS__) { DIM##D const double r = f.max(); ensure(MAX_AT(r, t.size()), "maximum"); } \
void min_max##D(W t, __VA_ARGS__) { DIM##D MinMaxFunctor<double> r = f.minMax(); const double lo = r.min(), hi = r.max(); ensure(MIN_AT(lo, t.size()), "minimum"); ensure(MAX_AT(hi, t.size()), "maximum"); } \
void sum##D(W t, __VA_ARGS__) { DIM##D ensure(cv::eq(f.sum(), S::sum(t, t.size())), "sum"); } \
void product##D(W t, __VA_ARGS__) { DIM##D ensure(cv::eq(f.product(), S::product(t, t.size())), "product"); } \
void accumulate##D(W t, __VA_ARGS__) { DIM##D const double lo = f.accumulate<Minimizer>(), hi = f.accumulate<Maximizer>(); ensure(MIN_AT(lo, t.size()), "minimum"); ensure(MAX_AT(hi, t.size()), "maximum"); \
   ensure(cv::eq(f.accumulate<Adder>(), S::sum(t, t.size())), "sum"); ensure(cv::eq(f.accumulate<Integrator>(), S::sum(t, t.size())), "sum"); ensure(cv::eq(f.accumulate<Multiplier>(), S::product(t, t.size())), "product"); }
// units: minimum1 maximum1 min_max1 sum1 product1 accumulate1 minimum2 maximum2 min_max2 sum2 product2 accumulate2 minimum3 maximum3 min_max3 sum3 product3 accumulate3
QUERIES(1, size_t n0)
QUERIES(2, size_t n0, size_t n1)
QUERIES(3, size_t n0, size_t n1, size_t n2)
}
