#include <vector>
#include <numeric>
#include <functional>
#include "opengm/opengm.hxx"
#include "opengm/functions/potts.hxx"
#include "opengm/functions/pottsn.hxx"
#include "opengm/functions/pottsg.hxx"
#include "opengm/functions/absolute_difference.hxx"
#include "opengm/functions/squared_difference.hxx"
#include "opengm/functions/truncated_absolute_difference.hxx"
#include "opengm/functions/truncated_squared_difference.hxx"
#include "opengm/functions/constant.hxx"
#include "opengm/functions/singlesitefunction.hxx"
#include "opengm/functions/fieldofexperts.hxx"
#include "opengm/functions/soft_constraint_functions/label_cost_function.hxx"
#include "opengm/functions/soft_constraint_functions/sum_constraint_function.hxx"
#include "opengm/operations/adder.hxx"
#include "opengm/operations/multiplier.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall;
typedef std::vector<size_t> V; typedef std::vector<double> W;
static const size_t big = 1ul << 30;
// serialize f into sequences of exactly the announced lengths, and back into g
template<class F> static void round(const F& f, F& g, V& ii, W& vv, size_t ni, size_t nv) {
   typedef FunctionSerialization<F> X; ensure(X::indexSequenceSize(f) == ni && X::valueSequenceSize(f) == nv, "announced lengths");
   ii = V(X::indexSequenceSize(f)); vv = W(X::valueSequenceSize(f)); X::serialize(f, ii.begin(), vv.begin()); X::deserialize(ii.begin(), vv.begin(), g); ensure(X::indexSequenceSize(g) == ni && X::valueSequenceSize(g) == nv, "announced lengths of the result"); }
template<class F> static void shaped(const F& f, const V& sh, const V& ii, size_t first) {
   ensure(f.dimension() == sh.size() && forall(0, sh.size(), [&](size_t k) { return f.shape(k) == sh[k]; }), "shape survives");
   ensure(f.size() == std::accumulate(sh.begin(), sh.end(), static_cast<size_t>(1), std::multiplies<size_t>()), "number of entries survives");
   ensure(ii[0] == sh.size() && forall(0, sh.size(), [&](size_t k) { return ii[first + k] == sh[k]; }), "order of the index sequence"); }
template<class F> static void pairwise(const F& f, size_t n, size_t m, const V& ii) { ensure(f.dimension() == 2 && f.shape(0) == n && f.shape(1) == m && f.size() == n * m, "shape survives"); ensure(ii[0] == n && ii[1] == m, "order of the index sequence"); }
static bool in(const V& l, const V& sh) { return l.size() == sh.size() && forall(0, l.size(), [&](size_t k) { return l[k] < sh[k]; }); }
namespace H {
void potts(size_t n, size_t m, double e, double d, size_t a, size_t b) {
   require(n < big && m < big && a < n && b < m); const PottsFunction<double> f(n, m, e, d); PottsFunction<double> g; V ii; W vv; round(f, g, ii, vv, 2, 2); pairwise(g, n, m, ii); ensure(vv[0] == e && vv[1] == d, "order of the value sequence"); size_t l[] = { a, b }; ensure(g(l) == f(l) && g.valueEqual() == e && g.valueNotEqual() == d, "values survive"); }
void pottsn(V sh, double e, double d, V l) {
   require(sh.size() > 0 && sh.size() < big && in(l, sh)); const PottsNFunction<double> f(sh.begin(), sh.end(), e, d); PottsNFunction<double> g; V ii; W vv; round(f, g, ii, vv, sh.size() + 1, 2); shaped(g, sh, ii, 1); ensure(vv[0] == e && vv[1] == d, "order of the value sequence"); ensure(g(l.begin()) == f(l.begin()), "values survive"); }
// units: pottsg1 pottsg2 pottsg3 pottsg4
#define PG(N) \
void pottsg##N(size_t s0, size_t s1, size_t s2, size_t s3, W v, size_t a, size_t b, size_t c, size_t d) { \
   size_t s[] = { s0, s1, s2, s3 }, l[] = { a, b, c, d }; V sh(s, s + N); const size_t bell[] = { 1, 1, 2, 5, 15 }; require(v.size() == bell[N]); for(int k = 0; k < N; ++k) require(l[k] < s[k]); const PottsGFunction<double> f(sh.begin(), sh.end(), v.begin()); PottsGFunction<double> g; V ii; W vv; round(f, g, ii, vv, N + 1, v.size()); shaped(g, sh, ii, 1); \
   ensure(forall(0, v.size(), [&](size_t k) { return vv[k] == v[k]; }), "order of the value sequence"); ensure(g(l) == f(l), "values survive"); }
PG(1) PG(2) PG(3) PG(4)
#define DIST1(NAME, F) \
void NAME(size_t n, size_t m, double w, size_t a, size_t b) { \
   require(n < big && m < big && a < n && b < m); const F<double> f(n, m, w); F<double> g; V ii; W vv; round(f, g, ii, vv, 2, 1); pairwise(g, n, m, ii); ensure(vv[0] == w, "order of the value sequence"); size_t l[] = { a, b }; ensure(cv::eq(g(l), f(l)), "values survive"); }
// units: absolute squared truncated_absolute truncated_squared
DIST1(absolute, AbsoluteDifferenceFunction) DIST1(squared, SquaredDifferenceFunction)
#define DIST2(NAME, F) \
void NAME(size_t n, size_t m, double t, double w, size_t a, size_t b) { \
   require(n < big && m < big && a < n && b < m); const F<double> f(n, m, t, w); F<double> g; V ii; W vv; round(f, g, ii, vv, 2, 2); pairwise(g, n, m, ii); ensure(vv[0] == t && vv[1] == w, "order of the value sequence"); size_t l[] = { a, b }; ensure(cv::eq(g(l), f(l)), "values survive"); }
DIST2(truncated_absolute, TruncatedAbsoluteDifferenceFunction) DIST2(truncated_squared, TruncatedSquaredDifferenceFunction)
void constant(V sh, double c, V l) { require(sh.size() < big && in(l, sh)); const ConstantFunction<double> f(sh.begin(), sh.end(), c); ConstantFunction<double> g; V ii; W vv; round(f, g, ii, vv, sh.size() + 1, 1); shaped(g, sh, ii, 1); ensure(vv[0] == c && g(l.begin()) == c, "values survive"); }
void constant_used(V sh, double c, V l, V sh2, double c2) { require(sh.size() < big && sh2.size() < big && in(l, sh)); const ConstantFunction<double> f(sh.begin(), sh.end(), c); ConstantFunction<double> g(sh2.begin(), sh2.end(), c2); V ii; W vv; round(f, g, ii, vv, sh.size() + 1, 1); shaped(g, sh, ii, 1); ensure(g(l.begin()) == c, "values survive"); }
#define STATIC(N) \
void static_site##N(W v, size_t a) { require(v.size() == N && a < N); StaticSingleSiteFunction<double, N, StackStorage> f, g; for(size_t k = 0; k < N; ++k) f(&k) = v[k]; V ii; W vv; round(f, g, ii, vv, 0, N); ensure(g(&a) == v[a] && vv[a] == v[a], "values survive"); }
// units: static_site1 static_site2 static_site5
STATIC(1) STATIC(2) STATIC(5)
void dynamic_site(size_t n, W v, size_t m, size_t a) { require(n < 100000 && m < 100000 && v.size() == n && a < n); DynamicSingleSiteFunction<double> f(n, 0.0), g(m, 1.0); for(size_t k = 0; k < n; ++k) f[k] = v[k]; V ii; W vv; round(f, g, ii, vv, 1, n); ensure(ii[0] == n && g.size() == n, "shape survives"); ensure(g(&a) == v[a] && vv[a] == v[a], "values survive"); }
// units: experts1 experts2 experts3
#define EXPERTS(N) \
void experts##N(W ex, W al, size_t L, size_t i) { \
   require(al.size() > 0 && al.size() < 1000 && ex.size() == al.size() * N); FoEFunction<double> f(ex.begin(), al.begin(), L, N, al.size()), g; V ii; W vv; round(f, g, ii, vv, 3, ex.size() + al.size()); ensure(g.dimension() == N && g.size() == f.size() && forall(0, N, [&](size_t k) { return g.shape(k) == L; }), "shape survives"); \
   ensure(forall(0, ex.size(), [&](size_t k) { return vv[k] == ex[k]; }) && forall(0, al.size(), [&](size_t k) { return vv[ex.size() + k] == al[k]; }), "order of the value sequence"); ensure(ii[0] == al.size() && ii[1] == N && ii[2] == L, "order of the index sequence"); \
   V jj(3); W ww(ex.size() + al.size()); FunctionSerialization<FoEFunction<double> >::serialize(g, jj.begin(), ww.begin()); require(i < ww.size()); ensure(ww[i] == vv[i], "parameters survive"); }
EXPERTS(1) EXPERTS(2) EXPERTS(3)
void experts_none() { const FoEFunction<double> f; FoEFunction<double> g; V ii; W vv; round(f, g, ii, vv, 3, 0); ensure(g.dimension() == 0, "shape survives"); }
void label_cost_single(size_t m, size_t n, size_t o, size_t label, double c, size_t i, size_t j, size_t k) {
   require(i < m && j < n && k < o && label < big && (m != n || n != o)); size_t sh[] = { m, n, o }, l[] = { i, j, k }; const LabelCostFunction<double> f(sh, sh + 3, label, c); LabelCostFunction<double> g; V ii; W vv; round(f, g, ii, vv, 7, 1);
   ensure(g.dimension() == 3 && g.shape(0) == m && g.shape(1) == n && g.shape(2) == o && g.size() == m * n * o, "shape survives"); ensure(ii[0] == 3 && ii[1] == 0 && ii[2] == m && ii[3] == n && ii[4] == o && ii[5] == 1 && ii[6] == label && vv[0] == c, "order of the sequences"); ensure(g(l) == (i == label || j == label || k == label ? c : 0.0), "values survive"); }
void label_cost(size_t m, size_t n, W c, size_t i, size_t j) {
   require(i < m && j < n && m < n && c.size() == n); size_t sh[] = { m, n }, l[] = { i, j }; const LabelCostFunction<double> f(sh, sh + 2, c.begin(), c.end()); LabelCostFunction<double> g; V ii; W vv; round(f, g, ii, vv, 6, n);
   ensure(g.dimension() == 2 && g.shape(0) == m && g.shape(1) == n && g.size() == m * n, "shape survives"); ensure(ii[0] == 2 && ii[1] == 0 && ii[2] == m && ii[3] == n && ii[4] == 0 && ii[5] == n && forall(0, n, [&](size_t q) { return vv[q] == c[q]; }), "order of the sequences"); }
void label_cost_single_equal(size_t n, size_t L, size_t label, double c, V l) {
   require(n < big && label < big && l.size() == n && forall(0, n, [&](size_t k) { return l[k] < L; })); const LabelCostFunction<double> f(n, L, label, c); LabelCostFunction<double> g; V ii; W vv; round(f, g, ii, vv, 5, 1);
   ensure(g.dimension() == n && g.size() == f.size() && forall(0, n, [&](size_t k) { return g.shape(k) == L; }), "shape survives"); ensure(ii[0] == n && ii[1] == 1 && ii[2] == L && ii[3] == 1 && ii[4] == label && vv[0] == c, "order of the sequences"); ensure(g(l.begin()) == (cv::exists(0, l.size(), [&](size_t k) { return l[k] == label; }) ? c : 0.0), "values survive"); }
void label_cost_equal(size_t n, size_t L, W c) {
   require(n < big && c.size() == L); const LabelCostFunction<double> f(n, L, c.begin(), c.end()); LabelCostFunction<double> g; V ii; W vv; round(f, g, ii, vv, 5, L);
   ensure(g.dimension() == n && g.size() == f.size() && forall(0, n, [&](size_t k) { return g.shape(k) == L; }), "shape survives"); ensure(ii[0] == n && ii[1] == 1 && ii[2] == L && ii[3] == 0 && ii[4] == L && forall(0, L, [&](size_t k) { return vv[k] == c[k]; }), "order of the sequences");
   V jj(5); W ww(L); FunctionSerialization<LabelCostFunction<double> >::serialize(g, jj.begin(), ww.begin()); ensure(jj[3] == 0 && jj[4] == L && forall(0, L, [&](size_t k) { return ww[k] == c[k]; }), "parameters survive"); }
void sum_constraint_equal(size_t n, size_t L, W c, double lambda, double b) {
   require(n < big && L < big && c.size() == L); const SumConstraintFunction<double> f(n, L, c.begin(), c.end(), true, lambda, b); SumConstraintFunction<double> g; V ii; W vv; round(f, g, ii, vv, 5, L + 2);
   ensure(g.dimension() == n && g.size() == f.size() && forall(0, n, [&](size_t k) { return g.shape(k) == L; }), "shape survives"); ensure(ii[0] == 1 && ii[1] == n && ii[2] == L && ii[3] == 1 && ii[4] == L && vv[L] == lambda && vv[L + 1] == b && forall(0, L, [&](size_t k) { return vv[k] == c[k]; }), "order of the sequences");
   V jj(5); W ww(L + 2); FunctionSerialization<SumConstraintFunction<double> >::serialize(g, jj.begin(), ww.begin()); ensure(jj[3] == 1 && jj[4] == L && forall(0, L + 2, [&](size_t k) { return ww[k] == vv[k]; }), "parameters survive"); }
void sum_constraint(size_t m, size_t n, size_t o, W c, double lambda, double b, size_t i, size_t j, size_t k) {
   require(i < m && j < n && k < o && m < big && n < big && o < big && m + n + o == c.size() && (m != n || n != o)); size_t sh[] = { m, n, o }, l[] = { i, j, k }; const SumConstraintFunction<double> f(sh, sh + 3, c.begin(), c.end(), false, lambda, b); SumConstraintFunction<double> g; V ii; W vv; round(f, g, ii, vv, 7, c.size() + 2);
   ensure(g.dimension() == 3 && g.shape(0) == m && g.shape(1) == n && g.shape(2) == o && g.size() == m * n * o, "shape survives"); ensure(ii[0] == 0 && ii[1] == 3 && ii[2] == m && ii[3] == n && ii[4] == o && ii[5] == 0 && ii[6] == c.size(), "order of the index sequence");
   ensure(cv::eq(g(l), f(l)), "values survive"); }
}
