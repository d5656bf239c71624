#include <vector>
#include <numeric>
#include <functional>
#include "opengm/opengm.hxx"
#include "opengm/functions/potts.hxx"
#include "opengm/functions/pottsn.hxx"
#include "opengm/functions/pottsg.hxx"
#include "opengm/functions/absolute_difference.hxx"
#include "opengm/functions/squared_difference.hxx"
#include "opengm/functions/truncated_absolute_difference.hxx"
#include "opengm/functions/truncated_squared_difference.hxx"
#include "opengm/functions/constant.hxx"
#include "opengm/functions/singlesitefunction.hxx"
#include "opengm/functions/fieldofexperts.hxx"
#include "opengm/functions/soft_constraint_functions/label_cost_function.hxx"
#include "opengm/functions/soft_constraint_functions/sum_constraint_function.hxx"
#include "opengm/functions/view.hxx"
#include "opengm/functions/scaled_view.hxx"
#include "opengm/functions/view_fix_variables_function.hxx"
#include "opengm/functions/view_convert_function.hxx"
#include "opengm/functions/accumulated_view.hxx"
#include "opengm/functions/modelviewfunction.hxx"
#include "opengm/operations/adder.hxx"
#include "opengm/operations/multiplier.hxx"
#include "opengm/operations/minimizer.hxx"
#include "opengm/operations/maximizer.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall;
typedef std::vector<size_t> V; typedef std::vector<double> W;
static const size_t big = 1ul << 30;
static double dist(size_t a, size_t b) { return a < b ? double(b - a) : double(a - b); }
// the shape sh admits the labels l
static bool in(const V& l, const V& sh) { return l.size() == sh.size() && forall(0, l.size(), [&](size_t k) { return l[k] < sh[k]; }); }
static bool all_equal(const V& l) { return forall(0, l.size(), [&](size_t k) { return l[k] == l[0]; }); }
// number of the partition of the labels into classes of equal labels, in the documented order
static int part(int n, size_t a, size_t b, size_t c, size_t d) {
   int p = n < 2 ? 0 : (a == b ? 1 : 0); if(n > 2) p += (a == c ? 2 : 0) + (b == c ? 4 : 0); if(n > 3) p += (a == d ? 8 : 0) + (b == d ? 16 : 0) + (c == d ? 32 : 0); return p; }
static int row(int p) { return p == 0 ? 0 : p == 1 ? 1 : p == 2 ? 2 : p == 4 ? 3 : p == 7 ? 4 : p == 8 ? 5 : p == 12 ? 6 : p == 16 ? 7 : p == 18 ? 8 : p == 25 ? 9 : p == 32 ? 10 : p == 33 ? 11 : p == 42 ? 12 : p == 52 ? 13 : p == 63 ? 14 : -1; }
typedef PottsGFunction<double> PG;
// a factor of another model: it tells an arbitrary label vector (key) from all others, so that a view has the right value
// exactly if it hands over the right labels
struct Fac {
   V sh, key; double e, d;
   template<class It> double operator()(It b) const { return forall(0, sh.size(), [&](size_t k) { return b[k] == key[k]; }) ? e : d; }
   size_t numberOfVariables() const { return sh.size(); } size_t numberOfLabels(size_t k) const { return sh[k]; } size_t shape(size_t k) const { return sh[k]; } size_t size() const { size_t r = 1; for(size_t k = 0; k < sh.size(); ++k) r *= sh[k]; return r; }
};
template<class OP> struct Mod { typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType; typedef Fac FactorType; typedef OP OperatorType; Fac f[2]; const Fac& operator[](size_t i) const { return f[i]; } };
typedef Mod<Adder> M;
static void make(Fac& f, const V& sh, const V& key, double e, double d) { require(key.size() == sh.size()); f.sh = sh; f.key = key; f.e = e; f.d = d; }
static double val(const Fac& f, const V& l) { return forall(0, l.size(), [&](size_t k) { return l[k] == f.key[k]; }) ? f.e : f.d; }
struct Offset { V sh, key; double e, d; template<class It> double operator()(It b) const { return forall(0, sh.size(), [&](size_t k) { return b[k] == key[k]; }) ? e : d; } size_t dimension() const { return sh.size(); } size_t shape(size_t k) const { return sh[k]; } size_t size() const { return 1; } };
namespace S {
double dot(const W& ex, const V& l, size_t base, long n) { return n <= 0 ? 0.0 : dot(ex, l, base, n - 1) + ex[base + (n - 1)] * double(l[n - 1]); }
double experts2(const W& ex, const W& al, double a, double b, long n) { return n <= 0 ? 0.0 : experts2(ex, al, a, b, n - 1) + al[n - 1] * std::log(1 + 0.5 * (ex[2 * (n - 1)] * a + ex[2 * (n - 1) + 1] * b) * (ex[2 * (n - 1)] * a + ex[2 * (n - 1) + 1] * b)); }
// sum of the coefficients the labels select, coefficients shared by all variables
double shared(const W& c, const V& l, double b, long n) { return n <= 0 ? -b : shared(c, l, b, n - 1) + c[l[n - 1]]; }
double own_equal(const W& c, size_t m, const V& l, double b, long n) { return n <= 0 ? -b : own_equal(c, m, l, b, n - 1) + c[(n - 1) * m + l[n - 1]]; }
}
namespace H {
void potts(size_t n, size_t m, double e, double d, size_t a, size_t b) {
   require(a < n && b < m); const PottsFunction<double> f(n, m, e, d); size_t l[] = { a, b }; V v(l, l + 2);
   ensure(f(l) == (a == b ? e : d), "equal or unequal value"); ensure(f(v.begin()) == f(l), "same for every kind of label sequence");
   ensure(f.valueEqual() == e && f.valueNotEqual() == d && f.shape(0) == n && f.shape(1) == m, "unmodified"); ensure(l[0] == a && l[1] == b, "labels stay"); }
void potts_parameters(size_t n, size_t m, double e, double d, double x, size_t i, size_t a, size_t b) {
   require(a < n && b < m && i < 2); PottsFunction<double> f(n, m, e, d); const PottsFunction<double>& cf = f; ensure(f.numberOfWeights() == 2 && cf.parameter(0) == e && cf.parameter(1) == d, "parameters");
   f.parameter(i) = x; size_t l[] = { a, b };
   ensure(cf.parameter(i) == x && cf.parameter(1 - i) == (i == 0 ? d : e), "parameter set"); ensure(f(l) == (a == b ? (i == 0 ? x : e) : (i == 1 ? x : d)), "value follows the parameters"); }
void potts_small_labels(unsigned char n, unsigned char m, int e, int d, unsigned char a, unsigned char b) {
   require(a < n && b < m); const PottsFunction<int, unsigned, unsigned char> f(n, m, e, d); unsigned char l[] = { a, b }; ensure(f(l) == (a == b ? e : d), "equal or unequal value"); }
void potts_equality(size_t n, size_t m, double e, double d, size_t n2, size_t m2, double e2, double d2) {
   PottsFunction<double> f(n, m, e, d), g(n2, m2, e2, d2); ensure((f == g) == (n == n2 && m == m2 && e == e2 && d == d2), "equal exactly if shape and parameters are"); PottsFunction<double> h(f); ensure(h == f, "a copy is equal"); h = g; ensure(h == g, "an assigned function is equal"); }
void pottsn(V sh, double e, double d, V l) {
   require(sh.size() > 0 && in(l, sh)); const PottsNFunction<double> f(sh.begin(), sh.end(), e, d); ensure(f(l.begin()) == (all_equal(l) ? e : d), "value of all equal labels, or the other"); ensure(f(&l[0]) == f(l.begin()), "same for every kind of label sequence"); }
void absolute(size_t n, size_t m, double w, size_t a, size_t b) {
   require(n < big && m < big && a < n && b < m); const AbsoluteDifferenceFunction<double> f(n, m, w); size_t l[] = { a, b }; V v(l, l + 2); ensure(cv::eq(f(l), w * dist(a, b)), "scaled absolute difference"); ensure(f(v.begin()) == f(l), "same for every kind of label sequence"); }
void absolute_unsigned_labels(unsigned n, unsigned m, float w, unsigned a, unsigned b) {
   require(n < 1u << 20 && m < 1u << 20 && a < n && b < m); const AbsoluteDifferenceFunction<float, unsigned, unsigned> f(n, m, w); unsigned l[] = { a, b }; ensure(cv::eq(f(l), w * dist(a, b)), "scaled absolute difference"); }
void squared(size_t n, size_t m, double w, size_t a, size_t b) {
   require(n < big && m < big && a < n && b < m); const SquaredDifferenceFunction<double> f(n, m, w); size_t l[] = { a, b }; V v(l, l + 2); ensure(cv::eq(f(l), w * (dist(a, b) * dist(a, b))), "weighted squared difference"); ensure(f(v.begin()) == f(l), "same for every kind of label sequence"); ensure(f.weight() == w, "weight"); }
void truncated_absolute(size_t n, size_t m, double t, double w, size_t a, size_t b) {
   require(n < big && m < big && a < n && b < m); const TruncatedAbsoluteDifferenceFunction<double> f(n, m, t, w); size_t l[] = { a, b }; V v(l, l + 2); ensure(cv::eq(f(l), w * (dist(a, b) < t ? dist(a, b) : t)), "weighted absolute difference, truncated"); ensure(f(v.begin()) == f(l), "same for every kind of label sequence"); }
void truncated_squared(size_t n, size_t m, double t, double w, size_t a, size_t b) {
   require(n < big && m < big && a < n && b < m); const TruncatedSquaredDifferenceFunction<double> f(n, m, t, w); size_t l[] = { a, b }; V v(l, l + 2); double q = dist(a, b) * dist(a, b); ensure(cv::eq(f(l), w * (q < t ? q : t)), "weighted squared difference, truncated"); ensure(f(v.begin()) == f(l), "same for every kind of label sequence"); }
void integral_values(int n, int m, int t, int w, int a, int b) {
   require(0 <= a && 0 <= b && a < n && b < m && n < 1000 && m < 1000 && -1000 < t && t < 1000 && -1000 < w && w < 1000); size_t l[] = { (size_t)a, (size_t)b }; int d = a < b ? b - a : a - b, q = d * d;
   ensure((AbsoluteDifferenceFunction<int>(n, m, w)(l)) == w * d, "absolute difference"); ensure((SquaredDifferenceFunction<int>(n, m, w)(l)) == w * q, "squared difference");
   ensure((TruncatedAbsoluteDifferenceFunction<int>(n, m, t, w)(l)) == w * (d < t ? d : t), "truncated absolute difference"); ensure((TruncatedSquaredDifferenceFunction<int>(n, m, t, w)(l)) == w * (q < t ? q : t), "truncated squared difference"); }
void constant(V sh, double c, V l) {
   require(in(l, sh)); const ConstantFunction<double> f(sh.begin(), sh.end(), c); ensure(f(l.begin()) == c, "the constant"); ensure(f(&c) == c, "the labels are not read"); }

#define PG_ORDER(N) \
void pottsg##N(size_t s0, size_t s1, size_t s2, size_t s3, W v, size_t a, size_t b, size_t c, size_t d) { \
   V sh; sh.push_back(s0); if(N > 1) sh.push_back(s1); if(N > 2) sh.push_back(s2); if(N > 3) sh.push_back(s3); require(v.size() == PG::BellNumbers_[N]); \
   const PG f(sh.begin(), sh.end(), v.begin()); size_t l[] = { a, b, c, d }; V lv(l, l + N); \
   ensure(f(l) == v[row(part(N, a, b, c, d))], "value of the partition"); ensure(f(lv.begin()) == f(l), "same for every kind of label sequence"); } \
void pottsg##N##_set(size_t s0, size_t s1, size_t s2, size_t s3, double x, size_t a, size_t b, size_t c, size_t d, size_t a2, size_t b2, size_t c2, size_t d2) { \
   V sh; sh.push_back(s0); if(N > 1) sh.push_back(s1); if(N > 2) sh.push_back(s2); if(N > 3) sh.push_back(s3); \
   PG f(sh.begin(), sh.end()), g(sh.begin(), sh.end()); size_t l[] = { a, b, c, d }, m[] = { a2, b2, c2, d2 }; int p = part(N, a, b, c, d), q = part(N, a2, b2, c2, d2); ensure(f(l) == 0.0, "zero before it is set"); \
   f.setByLabel(l, x); ensure(f(m) == (p == q ? x : 0.0), "value of exactly the set partition"); \
   g.setByPartition(p, x); ensure(g(m) == (p == q ? x : 0.0), "value of exactly the set partition"); }
// units: pottsg1 pottsg2 pottsg3 pottsg4 pottsg1_set pottsg2_set pottsg3_set pottsg4_set
PG_ORDER(1)
PG_ORDER(2)
PG_ORDER(3)
PG_ORDER(4)
void static_site(size_t a, size_t b, double x, double y) {
   require(a < 5 && b < 5); StaticSingleSiteFunction<double, 5, StackStorage> f; size_t la[] = { a }, lb[] = { b }; f(lb) = y; f(la) = x; const StaticSingleSiteFunction<double, 5, StackStorage>& cf = f;
   ensure(cf(la) == x && (a == b || cf(lb) == y), "values as set"); }
void static_site_heap(size_t a, size_t b, double x, double y) {
   require(a < 5 && b < 5); StaticSingleSiteFunction<double, 5, HeapStorage> f; size_t la[] = { a }, lb[] = { b }; f(lb) = y; f(la) = x; const StaticSingleSiteFunction<double, 5, HeapStorage>& cf = f;
   ensure(cf(la) == x && (a == b || cf(lb) == y), "values as set"); }
void static_site_copy(double a, double b, double c) {
   StaticSingleSiteFunction<double, 3, HeapStorage> f, h; size_t i = 0; f(&i) = a; i = 1; f(&i) = b; i = 2; f(&i) = c; const StaticSingleSiteFunction<double, 3, HeapStorage> g(f); ensure(g(&i) == c, "copy"); i = 0; ensure(g(&i) == a, "copy"); i = 1; ensure(g(&i) == b, "copy"); h = f; i = 2; f(&i) = 0; const StaticSingleSiteFunction<double, 3, HeapStorage>& ch = h; ensure(ch(&i) == c && g(&i) == c, "copies are independent"); }
void dynamic_site(size_t n, double v, size_t a, size_t b, double x) {
   require(n < 100000 && a < n && b < n); DynamicSingleSiteFunction<double>* f = new DynamicSingleSiteFunction<double>(n, v); ensure((*f)(&b) == v, "filled"); (*f)(&a) = x; const DynamicSingleSiteFunction<double>* cf = f;
   ensure((*cf)(&b) == (a == b ? x : v) && (*cf)[b] == (*cf)(&b), "values as set"); DynamicSingleSiteFunction<double>* g = new DynamicSingleSiteFunction<double>(*f); (*f)(&a) = v; delete f; const DynamicSingleSiteFunction<double>* cg = g; ensure((*cg)(&b) == (a == b ? x : v), "copies are independent"); delete g; cv::no_leak(); }
void dynamic_site_assign(size_t n, double v, size_t m, double w, size_t a) {
   require(n < 100000 && m < 100000 && a < m); typedef DynamicSingleSiteFunction<double> F; F* f = new F(n, v); F* g = new F(m, w); *f = *g; const F* cf = f; ensure(cf->size() == m && (*cf)(&a) == w, "assigned"); delete g; ensure((*cf)(&a) == w, "copies are independent"); delete f; cv::no_leak(); }
void dynamic_site_empty(size_t m, double w, size_t a) {
   require(m < 100000 && a < m); typedef DynamicSingleSiteFunction<double> F; F* f = new F(m, w); F* e = new F; F* g = new F(m, w); *g = *e; ensure(g->size() == 0, "assigned an empty function"); *g = *f; ensure(g->size() == m && (*g)(&a) == w, "assigned to an empty function"); delete f; delete g; delete e; cv::no_leak(); }
void dynamic_site_resize(size_t n, double v, size_t m, double w, size_t k, size_t a) {
   require(n < 100000 && m < 100000 && k < 100000 && a < m); typedef DynamicSingleSiteFunction<double> F; F* g = new F(n, v); g->assign(k); ensure(g->size() == k, "resized"); g->assign(m, w); ensure(g->size() == m && (*g)(&a) == w, "refilled"); delete g; cv::no_leak(); }
void experts_one(W ex, double a, size_t L, V l, size_t order) {
   require(order < 1000 && ex.size() == order && l.size() == order && L < big && forall(0, l.size(), [&](size_t k) { return l[k] < L; }));
   W al(1); al[0] = a; const FoEFunction<double> f(ex.begin(), al.begin(), L, order, 1); double p = S::dot(ex, l, 0, order); ensure(cv::eq(f(l.begin()), a * std::log(1 + 0.5 * p * p)), "weighted expert"); }
void experts_pairwise(W ex, W al, size_t L, size_t a, size_t b) {
   cv::inductive([&](size_t e, size_t i) { return i == 2 * e; });
   require(al.size() > 0 && al.size() < 1000 && ex.size() == al.size() * 2 && L < big && a < L && b < L); size_t l[] = { a, b };
   const FoEFunction<double> f(ex.begin(), al.begin(), L, 2, al.size()); ensure(cv::eq(f(l), S::experts2(ex, al, double(a), double(b), al.size())), "sum of the weighted experts"); }
void label_cost_single(V sh, size_t label, double c, V l) {
   require(sh.size() > 0 && in(l, sh) && forall(0, sh.size(), [&](size_t k) { return label < sh[k]; })); const LabelCostFunction<double> f(sh.begin(), sh.end(), label, c);
   ensure(f(l.begin()) == (cv::exists(0, l.size(), [&](size_t k) { return l[k] == label; }) ? c : 0.0), "cost exactly if the label is used"); }
void label_cost_single_equal(size_t n, size_t L, size_t label, double c, V l) {
   require(label < L && l.size() == n && forall(0, l.size(), [&](size_t k) { return l[k] < L; })); const LabelCostFunction<double> f(n, L, label, c);
   ensure(f(l.begin()) == (cv::exists(0, l.size(), [&](size_t k) { return l[k] == label; }) ? c : 0.0), "cost exactly if the label is used"); }
void sum_constraint_shared(V sh, W c, double lambda, double b, V l) {
   require(sh.size() > 0 && in(l, sh) && forall(0, sh.size(), [&](size_t k) { return sh[k] <= c.size(); }) && cv::exists(0, sh.size(), [&](size_t k) { return sh[k] == c.size(); })); const SumConstraintFunction<double> f(sh.begin(), sh.end(), c.begin(), c.end(), true, lambda, b);
   ensure(cv::eq(f(l.begin()), std::abs(S::shared(c, l, b, l.size())) * lambda), "scaled violation of the constraint"); }
void sum_constraint_own(size_t m, size_t n, size_t o, W c, double lambda, double b, size_t i, size_t j, size_t k) {
   require(i < m && j < n && k < o && m < big && n < big && o < big && m + n + o == c.size()); size_t sh[] = { m, n, o }, l[] = { i, j, k }; const SumConstraintFunction<double> f(sh, sh + 3, c.begin(), c.end(), false, lambda, b);
   ensure(cv::eq(f(l), std::abs(c[i] + c[m + j] + c[m + n + k] - b) * lambda), "scaled violation of the constraint"); }
void sum_constraint_equal(size_t n, size_t L, W c, double lambda, double b, V l) {
   cv::inductive([&](size_t i, size_t off) { return off == i * L; });
   cv::inductive([&](const V& offs, size_t i) { return forall(0, i, [&](size_t k) { return offs[k] == k * L; }); });
   require(n < 1000 && L < 1000 && c.size() == n * L && l.size() == n && forall(0, n, [&](size_t k) { return l[k] < L; })); const SumConstraintFunction<double> f(n, L, c.begin(), c.end(), false, lambda, b);
   ensure(cv::eq(f(l.begin()), std::abs(S::own_equal(c, L, l, b, l.size())) * lambda), "scaled violation of the constraint"); }
void view(V sh, V key, double e, double d, V l) { Fac x; make(x, sh, key, e, d); require(in(l, sh)); const ViewFunction<M> f(x); ensure(f(l.begin()) == val(x, l), "value of the viewed factor"); }
void view_scaled(V sh, V key, double e, double d, double w, V l) { M m; make(m.f[1], sh, key, e, d); require(in(l, sh)); const ScaledViewFunction<M> f(m, 1, w); ensure(f(l.begin()) == w * val(m.f[1], l), "scaled value of the viewed factor"); const ScaledViewFunction<M> g(sh); ensure(g(l.begin()) == 0.0, "neutral without a factor"); }
void view_model(V sh, V key, double e, double d, double w, V l) { M m; make(m.f[1], sh, key, e, d); require(in(l, sh)); const ModelViewFunction<M, Offset> f(m, 1, w); ensure(f(l.begin()) == w * val(m.f[1], l), "scaled value of the viewed factor"); }
void view_offset(V key2, double e2, double d2, V l) { Offset o; require(key2.size() == l.size()); o.sh = l; o.key = key2; o.e = e2; o.d = d2; const ModelViewFunction<M, Offset> f(&o); ensure(f(l.begin()) == (forall(0, l.size(), [&](size_t k) { return l[k] == key2[k]; }) ? e2 : d2), "value of the offset"); }
void view_convert(V sh, V key, double e, double d, double t, V l) {
   Fac x; make(x, sh, key, e, d); require(in(l, sh)); double v = val(x, l);
   ensure((ViewConvertFunction<M, Minimizer, double>(x, t)(l.begin())) == std::exp(-t * v), "energy to probability"); ensure((ViewConvertFunction<M, Maximizer, double>(x, t)(l.begin())) == std::exp(t * v), "score to probability");
   ensure((ViewConvertFunction<Mod<Multiplier>, Maximizer, double>(x)(l.begin())) == v, "probability"); }
void view_fix_two(size_t s0, size_t s1, size_t s2, size_t s3, V key, double e, double d, int p, int q, size_t a, size_t b, size_t c0, size_t c1) {
   size_t s[] = { s0, s1, s2, s3 }; Fac x; make(x, V(s, s + 4), key, e, d); require(0 <= p && p < q && q < 4 && a < s[p] && b < s[q]);
   std::vector<PositionAndLabel<size_t, size_t> > fix; fix.push_back(PositionAndLabel<size_t, size_t>(p, a)); fix.push_back(PositionAndLabel<size_t, size_t>(q, b)); const ViewFixVariablesFunction<M> f(x, fix);
   size_t l[] = { c0, c1 }; V full(4); for(int k = 0; k < 4; ++k) full[k] = k == p ? a : k == q ? b : k < p ? l[k] : k < q ? l[k - 1] : l[k - 2];
   ensure(f(l) == val(x, full), "value of the viewed factor at the fixed and the given labels"); }
}
