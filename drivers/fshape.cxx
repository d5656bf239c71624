#include <vector>
#include <numeric>
#include <functional>
#include "opengm/opengm.hxx"
#include "opengm/functions/potts.hxx"
#include "opengm/functions/pottsn.hxx"
#include "opengm/functions/pottsg.hxx"
#include "opengm/functions/absolute_difference.hxx"
#include "opengm/functions/squared_difference.hxx"
#include "opengm/functions/truncated_absolute_difference.hxx"
#include "opengm/functions/truncated_squared_difference.hxx"
#include "opengm/functions/constant.hxx"
#include "opengm/functions/singlesitefunction.hxx"
#include "opengm/functions/fieldofexperts.hxx"
#include "opengm/functions/soft_constraint_functions/label_cost_function.hxx"
#include "opengm/functions/soft_constraint_functions/sum_constraint_function.hxx"
#include "opengm/functions/view.hxx"
#include "opengm/functions/scaled_view.hxx"
#include "opengm/functions/view_fix_variables_function.hxx"
#include "opengm/functions/view_convert_function.hxx"
#include "opengm/functions/modelviewfunction.hxx"
#include "opengm/operations/adder.hxx"
#include "opengm/operations/multiplier.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall;
typedef std::vector<size_t> V; typedef std::vector<double> W;
static const size_t big = 1ul << 30;
struct Fac {
   V sh; size_t n;
   template<class It> double operator()(It) const { return 0; }
   size_t numberOfVariables() const { return sh.size(); } size_t numberOfLabels(size_t k) const { return sh[k]; } size_t shape(size_t k) const { return sh[k]; } size_t dimension() const { return sh.size(); } size_t size() const { return n; }
};
template<class OP> struct Mod { typedef double ValueType; typedef size_t IndexType; typedef size_t LabelType; typedef Fac FactorType; typedef OP OperatorType; Fac f[2]; const Fac& operator[](size_t i) const { return f[i]; } };
typedef Mod<Adder> M;
// number of label vectors: the product of the numbers of labels, in size_t arithmetic
static size_t entries(const V& sh, size_t n) { return std::accumulate(sh.begin(), sh.begin() + n, static_cast<size_t>(1), std::multiplies<size_t>()); }
static size_t entries(const V& sh) { return entries(sh, sh.size()); }
template<class F> static void pairwise(const F& f, size_t n, size_t m) { ensure(f.dimension() == 2, "two variables"); ensure(f.shape(0) == n && f.shape(1) == m, "numbers of labels as built"); ensure(f.size() == n * m, "number of entries is the product of the numbers of labels"); }
template<class F> static void shaped(const F& f, const V& sh) {
   ensure(f.dimension() == sh.size(), "number of variables as built"); ensure(forall(0, sh.size(), [&](size_t k) { return f.shape(k) == sh[k]; }), "numbers of labels as built"); ensure(f.size() == entries(sh), "number of entries is the product of the numbers of labels"); }
template<class F> static void copies(const F& f, const V& sh) { const F g(f); shaped(g, sh); F h; h = f; shaped(h, sh); h = h; shaped(h, sh); }
namespace H {
// units: view_fix0 view_fix1 view_fix2 potts potts_32_bit potts_8_bit potts_int absolute absolute_32_bit absolute_8_bit absolute_int squared squared_32_bit squared_8_bit squared_int truncated_absolute truncated_absolute_32_bit truncated_absolute_8_bit truncated_absolute_int truncated_squared truncated_squared_32_bit truncated_squared_8_bit truncated_squared_int pottsg1 pottsg2 pottsg3 pottsg4 experts1 label_cost_equal1 sum_constraint_equal1 experts2 label_cost_equal2 sum_constraint_equal2 experts3 label_cost_equal3 sum_constraint_equal3 experts4 label_cost_equal4 sum_constraint_equal4 experts5 label_cost_equal5 sum_constraint_equal5
// loops that multiply label numbers up
#define PAIR(NAME, F, L, ARGS) \
void NAME(L n, L m, double e, double d) { require(size_t(n) < big && size_t(m) < big); F f ARGS; pairwise(f, n, m); F g(f); pairwise(g, n, m); F h; h = f; pairwise(h, n, m); h = h; pairwise(h, n, m); }
#define EACH(NAME, T, ARGS) \
PAIR(NAME, T<double>, size_t, ARGS) \
typedef T<double, unsigned, unsigned> T##32; PAIR(NAME##_32_bit, T##32, unsigned, ARGS) \
typedef T<float, size_t, unsigned char> T##8; PAIR(NAME##_8_bit, T##8, unsigned char, ARGS) \
typedef T<double, size_t, int> T##int; void NAME##_int(int n, int m, double e, double d) { require(n >= 0 && m >= 0); T##int f ARGS; pairwise(f, n, m); }
EACH(potts, PottsFunction, (n, m, e, d))
EACH(absolute, AbsoluteDifferenceFunction, (n, m, e))
EACH(squared, SquaredDifferenceFunction, (n, m, e))
EACH(truncated_absolute, TruncatedAbsoluteDifferenceFunction, (n, m, e, d))
EACH(truncated_squared, TruncatedSquaredDifferenceFunction, (n, m, e, d))
void pottsn(V sh, double e, double d) { require(sh.size() > 0); shaped(PottsNFunction<double>(sh.begin(), sh.end(), e, d), sh); }
void pottsn_copies(V sh, double e, double d) { require(sh.size() > 0); const PottsNFunction<double> f(sh.begin(), sh.end(), e, d); copies(f, sh); }
void constant(V sh, double c) { shaped(ConstantFunction<double>(sh.begin(), sh.end(), c), sh); }
void constant_copies(V sh, double c) { const ConstantFunction<double> f(sh.begin(), sh.end(), c); copies(f, sh); }
void constant_32_bit(std::vector<unsigned> s, double c) { require(s.size() < big); const ConstantFunction<double, unsigned, unsigned> f(s.begin(), s.end(), c); ensure(f.dimension() == s.size() && forall(0, s.size(), [&](size_t k) { return f.shape(k) == s[k]; }), "as built"); ensure(f.size() == std::accumulate(s.begin(), s.end(), static_cast<size_t>(1), std::multiplies<size_t>()), "number of entries is the product of the numbers of labels"); }
#define PG(N, ARGS) \
void pottsg##N(size_t s0, size_t s1, size_t s2, size_t s3) { size_t s[] = { s0, s1, s2, s3 }; V sh(s, s + N); shaped(PottsGFunction<double>(sh.begin(), sh.end()), sh); }
PG(1, ) PG(2, ) PG(3, ) PG(4, )
void pottsg_copies(size_t s0, size_t s1, size_t s2) { size_t s[] = { s0, s1, s2 }; V sh(s, s + 3); const PottsGFunction<double> f(sh.begin(), sh.end()); copies(f, sh); }
void static_site() { StaticSingleSiteFunction<double, 7, StackStorage> f; StaticSingleSiteFunction<double, 300, HeapStorage> g; ensure(f.dimension() == 1 && f.size() == 7 && f.shape(0) == 7, "seven labels"); ensure(g.dimension() == 1 && g.size() == 300 && g.shape(0) == 300, "three hundred labels"); }
void dynamic_site(size_t n, double v, size_t m) { require(n < 100000 && m < 100000); DynamicSingleSiteFunction<double> f(n, v), e; ensure(f.dimension() == 1 && f.size() == n && f.shape(0) == n, "as built"); ensure(e.dimension() == 1 && e.size() == 0 && e.shape(0) == 0, "no labels"); const DynamicSingleSiteFunction<double> g(f); ensure(g.size() == n && g.shape(0) == n, "copy"); e = f; ensure(e.size() == n && e.shape(0) == n, "assigned"); f.assign(m); ensure(f.size() == m && f.shape(0) == m && e.size() == n && g.size() == n, "resized"); }
void dynamic_site_assign(size_t n, double v, size_t m) { require(n < 100000 && m < 100000); DynamicSingleSiteFunction<double> f(n, v), e(m, v); e = f; ensure(e.size() == n && e.shape(0) == n && e.dimension() == 1, "assigned"); }
#define EQUAL(N) \
void experts##N(W ex, W al, size_t L) { require(al.size() > 0 && al.size() < 1000 && ex.size() == al.size() * N); const FoEFunction<double> f(ex.begin(), al.begin(), L, N, al.size()); shaped(f, V(N, L)); } \
void label_cost_equal##N(size_t L, size_t label, double c) { const LabelCostFunction<double> f(N, L, label, c); shaped(f, V(N, L)); } \
void sum_constraint_equal##N(size_t L, W c, double lambda, double b) { require(c.size() == L); const SumConstraintFunction<double> f(N, L, c.begin(), c.end(), true, lambda, b); shaped(f, V(N, L)); }
EQUAL(1) EQUAL(2) EQUAL(3) EQUAL(4) EQUAL(5)
void experts(W ex, W al, size_t L, size_t order) { require(al.size() > 0 && al.size() < 1000 && order < 1000 && ex.size() == al.size() * order); const FoEFunction<double> f(ex.begin(), al.begin(), L, order, al.size()); ensure(f.dimension() == order, "number of variables as built"); ensure(forall(0, order, [&](size_t k) { return f.shape(k) == L; }), "numbers of labels as built"); }
void label_cost_single(V sh, size_t label, double c) { require(sh.size() > 0); shaped(LabelCostFunction<double>(sh.begin(), sh.end(), label, c), sh); }
void label_cost_equal(size_t n, size_t L, size_t label, double c) { require(n < big); const LabelCostFunction<double> f(n, L, label, c); ensure(f.dimension() == n && forall(0, n, [&](size_t k) { return f.shape(k) == L; }), "as built"); }
void label_cost(V sh, W c) { require(sh.size() > 0 && forall(0, sh.size(), [&](size_t k) { return sh[k] <= c.size(); }) && cv::exists(0, sh.size(), [&](size_t k) { return sh[k] == c.size(); })); shaped(LabelCostFunction<double>(sh.begin(), sh.end(), c.begin(), c.end()), sh); }
void label_cost_copies(V sh, size_t label, double c) { require(sh.size() > 0); const LabelCostFunction<double> f(sh.begin(), sh.end(), label, c); copies(f, sh); }
void sum_constraint(V sh, W c, double lambda, double b) { require(sh.size() > 0 && forall(0, sh.size(), [&](size_t k) { return sh[k] <= c.size(); }) && cv::exists(0, sh.size(), [&](size_t k) { return sh[k] == c.size(); })); shaped(SumConstraintFunction<double>(sh.begin(), sh.end(), c.begin(), c.end(), true, lambda, b), sh); }
void sum_constraint_copies(V sh, W c, double lambda, double b) { require(sh.size() > 0 && forall(0, sh.size(), [&](size_t k) { return sh[k] <= c.size(); }) && cv::exists(0, sh.size(), [&](size_t k) { return sh[k] == c.size(); })); const SumConstraintFunction<double> f(sh.begin(), sh.end(), c.begin(), c.end(), true, lambda, b); copies(f, sh); }
void sum_constraint_equal(size_t n, size_t L, W c, double lambda, double b) { require(n < big && c.size() == L); const SumConstraintFunction<double> f(n, L, c.begin(), c.end(), true, lambda, b); ensure(f.dimension() == n && forall(0, n, [&](size_t k) { return f.shape(k) == L; }), "as built"); }
void view(V sh, size_t n) { Fac x; x.sh = sh; x.n = n; const ViewFunction<M> f(x); ensure(f.dimension() == sh.size() && f.size() == n && forall(0, sh.size(), [&](size_t k) { return f.shape(k) == sh[k]; }), "as the viewed factor"); const ViewConvertFunction<M, Minimizer, double> g(x, 1.0); ensure(g.dimension() == sh.size() && g.size() == n && forall(0, sh.size(), [&](size_t k) { return g.shape(k) == sh[k]; }), "as the viewed factor"); }
void view_scaled(V sh, double w) { size_t n = entries(sh); M m; m.f[1].sh = sh; m.f[1].n = n; const ScaledViewFunction<M> f(m, 1, w); ensure(f.dimension() == sh.size() && f.size() == n && forall(0, sh.size(), [&](size_t k) { return f.shape(k) == sh[k]; }), "as the viewed factor"); }
void view_scaled_shape(V sh) { const ScaledViewFunction<M> f(sh); ensure(f.dimension() == sh.size() && forall(0, sh.size(), [&](size_t k) { return f.shape(k) == sh[k]; }), "as built"); ensure(f.size() == entries(sh), "number of entries is the product of the numbers of labels"); }
void view_model(V sh, size_t n, double w) { M m; m.f[1].sh = sh; m.f[1].n = n; const ModelViewFunction<M, Fac> f(m, 1, w); ensure(f.dimension() == sh.size() && f.size() == n && forall(0, sh.size(), [&](size_t k) { return f.shape(k) == sh[k]; }), "as the viewed factor"); const ModelViewFunction<M, Fac> g(&m.f[1]); ensure(g.dimension() == sh.size() && g.size() == n && forall(0, sh.size(), [&](size_t k) { return g.shape(k) == sh[k]; }), "as the viewed function"); }
#define FIX(P) \
void view_fix##P(size_t s0, size_t s1, size_t s2, size_t a) { \
   require(s0 < 100000 && s1 < 100000 && s2 < 100000); size_t s[] = { s0, s1, s2 }; Fac x; x.sh = V(s, s + 3); x.n = entries(x.sh); require(a < s[P]); V rest; for(int k = 0; k < 3; ++k) if(k != P) rest.push_back(s[k]); \
   std::vector<PositionAndLabel<size_t, size_t> > fix; fix.push_back(PositionAndLabel<size_t, size_t>(P, a)); const ViewFixVariablesFunction<M> f(x, fix); shaped(f, rest); }
FIX(0) FIX(1) FIX(2)
void view_fix_two(size_t s0, size_t s1, size_t s2, size_t s3, int p, int q, size_t a, size_t b) {
   size_t s[] = { s0, s1, s2, s3 }; Fac x; x.sh = V(s, s + 4); x.n = 0; require(0 <= p && p < q && q < 4 && a < s[p] && b < s[q]); V rest; for(int k = 0; k < 4; ++k) if(k != p && k != q) rest.push_back(s[k]);
   std::vector<PositionAndLabel<size_t, size_t> > fix; fix.push_back(PositionAndLabel<size_t, size_t>(p, a)); fix.push_back(PositionAndLabel<size_t, size_t>(q, b)); const ViewFixVariablesFunction<M> f(x, fix);
   ensure(f.dimension() == 2 && f.shape(0) == rest[0] && f.shape(1) == rest[1], "numbers of labels of the free variables"); }
}
