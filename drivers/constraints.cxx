#include <vector>
#include <cstdlib>
#include <cstddef>
#include <cmath>
#include <string>
#include <map>
#include <algorithm>
#include <numeric>
#include <iterator>
#include "opengm/opengm.hxx"
#include "opengm/functions/function_properties_base.hxx"
#include "opengm/utilities/subsequence_iterator.hxx"
#define protected public   // contracts speak about the representation; the code itself is the same text
#include "opengm/datastructures/indicator_variable.hxx"
#include "opengm/datastructures/linear_constraint.hxx"
#include "opengm/functions/constraint_functions/label_order_function.hxx"
#include "opengm/functions/constraint_functions/num_labels_limitation_function.hxx"
#include "opengm/functions/constraint_functions/linear_constraint_function.hxx"
#undef protected
#ifdef CV_NATIVE
#include <ostream>
namespace std { inline ostream& operator<<(ostream& o, const pair<size_t, size_t>& p) { return o << p.first << ":" << p.second; } }
namespace opengm { inline std::ostream& operator<<(std::ostream& o, const IndicatorVariable<size_t, size_t>& v) { o << v.logicalOperatorType_; for(size_t i = 0; i < v.variableLabelPairs_.size(); ++i) o << "/" << v.variableLabelPairs_[i]; return o; } }
#endif
#include "cv.hxx"
using cv::require; using cv::ensure; using cv::forall; using cv::exists; using cv::implies; using cv::iff;
typedef std::vector<size_t> V; typedef std::vector<double> W; typedef std::pair<size_t, size_t> P; typedef std::vector<P> VP;
typedef opengm::IndicatorVariable<size_t, size_t> IV; typedef opengm::LinearConstraint<double, size_t, size_t> LC;
typedef opengm::LinearConstraintTraits::LinearConstraintOperator OP;
typedef opengm::LabelOrderFunction<double, size_t, size_t> LO; typedef opengm::NumLabelsLimitationFunction<double, size_t, size_t> NL;
static const size_t big = 1ul << 40;
#ifdef CV_NATIVE
namespace cv { template<> struct Gen<P> { static P get() { size_t a = nv::rnd(3); return P(a, nv::rnd(3)); } }; }
namespace cv { template<> struct Gen<IV> { static IV get() { IV v; v.variableLabelPairs_ = Gen<VP>::get(); v.logicalOperatorType_ = (IV::LogicalOperatorType)nv::rnd(3); return v; } }; }
#endif
#define HOLDS(op, p, x) ((op) == 0 ? forall(0, p.size(), [&](size_t j) { return x[p[j].first] == p[j].second; }) : (op) == 1 ? !forall(0, p.size(), [&](size_t j) { return x[p[j].first] != p[j].second; }) : forall(0, p.size(), [&](size_t j) { return x[p[j].first] != p[j].second; }))
#define FITS(p, x) forall(0, p.size(), [&](size_t j) { return p[j].first < x.size(); })
namespace S {
double total(const W& y, size_t k) { return k == 0 ? 0.0 : total(y, k - 1) + y[k - 1]; }
double dot(const W& o, const W& x, size_t a, size_t k) { return k == 0 ? 0.0 : dot(o, x, a, k - 1) + o[k - 1] * x[a + (k - 1)]; }
// sum of the coefficients of the first k indicators that hold
double lhs(const std::vector<IV>& u, const W& c, const V& x, size_t k) { return k == 0 ? 0.0 : lhs(u, c, x, k - 1) + (HOLDS(u[k - 1].logicalOperatorType_, u[k - 1].variableLabelPairs_, x) ? c[k - 1] : 0.0); }
}
namespace H {
void indicator(VP p, V x, size_t op) { require(op < 3 && p.size() < big && x.size() < big && FITS(p, x)); IV f; f.variableLabelPairs_ = p; f.setLogicalOperatorType((IV::LogicalOperatorType)op);
   cv::inductive([&](std::ptrdiff_t i) { return forall(0, (size_t)i, [&](size_t j) { return op == 0 ? x[p[j].first] == p[j].second : x[p[j].first] != p[j].second; }); });
   ensure(f(x.begin()) == HOLDS(op, p, x), "value of the indicator"); ensure(f.getLogicalOperatorType() == (IV::LogicalOperatorType)op && (size_t)(f.end() - f.begin()) == p.size(), "as set"); }
void indicator_single(size_t v, size_t l, V x, size_t op) { require(op < 3 && x.size() < big && v < x.size()); const IV f(v, l, (IV::LogicalOperatorType)op), g(P(v, l), (IV::LogicalOperatorType)op);
   ensure(f(x.begin()) == (op == 2 ? x[v] != l : x[v] == l) && g(x.begin()) == f(x.begin()), "value of one condition"); }
void indicator_add(VP p, size_t v, size_t l, V x, size_t op) { require(op < 3 && p.size() < big && x.size() < big && FITS(p, x) && v < x.size()); IV f; f.variableLabelPairs_ = p; f.setLogicalOperatorType((IV::LogicalOperatorType)op); f.add(v, l);
   const VP& q = f.variableLabelPairs_;
   cv::inductive([&](std::ptrdiff_t i) { return forall(0, (size_t)i, [&](size_t j) { return op == 0 ? x[q[j].first] == q[j].second : x[q[j].first] != q[j].second; }); });
   const bool old = HOLDS(op, p, x); ensure(f(x.begin()) == (op == 0 ? old && x[v] == l : op == 1 ? old || x[v] == l : old && x[v] != l), "one more condition"); }
#define ORDER require(p.size() < big && q.size() < big && a < 3 && b < 3); IV f, g; f.variableLabelPairs_ = p; g.variableLabelPairs_ = q; f.setLogicalOperatorType((IV::LogicalOperatorType)a); g.setLogicalOperatorType((IV::LogicalOperatorType)b); \
   cv::inductive([&](size_t i) { return forall(0, i, [&](size_t j) { return p[j] == q[j]; }); });
// position of the first difference
#define FIRST(lt) exists(0, p.size(), [&](size_t k) { return forall(0, k, [&](size_t j) { return p[j] == q[j]; }) && (p[k].first != q[k].first ? p[k].first lt q[k].first : p[k].second lt q[k].second); })
#define SAME (p.size() == q.size() && forall(0, p.size(), [&](size_t j) { return p[j] == q[j]; }))
void order_less(VP p, VP q, size_t a, size_t b) { ORDER ensure((f < g) == (a != b ? a < b : p.size() != q.size() ? p.size() < q.size() : FIRST(<)), "documented order"); }
void order_greater(VP p, VP q, size_t a, size_t b) { ORDER ensure((f > g) == (a != b ? a > b : p.size() != q.size() ? p.size() > q.size() : FIRST(>)), "documented order"); }
void order_less_equal(VP p, VP q, size_t a, size_t b) { ORDER ensure((f <= g) == (a != b ? a < b : p.size() != q.size() ? p.size() < q.size() : SAME || FIRST(<)), "documented order"); }
void order_greater_equal(VP p, VP q, size_t a, size_t b) { ORDER ensure((f >= g) == (a != b ? a > b : p.size() != q.size() ? p.size() > q.size() : SAME || FIRST(>)), "documented order"); }
void equality(VP p, VP q, size_t a, size_t b) { ORDER ensure((f == g) == (a == b && SAME), "equal"); ensure((f != g) == !(a == b && SAME), "unequal"); }
// label order
#define ORDERED require(n < big && m < big && n <= o.size() && m <= o.size() && o.size() < big && a < n && b < m); LO f; f.numLabelsVar1_ = n; f.numLabelsVar2_ = m; f.size_ = n * m; f.labelOrder_ = o; f.returnValid_ = v; f.returnInvalid_ = w; f.constraints_.resize(1); f.violatedConstraintsIds_.resize(1); f.violatedConstraintsWeights_.resize(1); const size_t l[] = { a, b };
void label_order(size_t n, size_t m, W o, double v, double w, size_t a, size_t b) { ORDERED ensure(f(l) == (o[a] <= o[b] ? v : w), "valid exactly if ordered"); ensure(f.dimension() == 2 && f.shape(0) == n && f.shape(1) == m && f.size() == n * m, "shape");
   ensure(f.min() == (v < w ? v : w) && f.max() == (v > w ? v : w) && f.minMax().min() == f.min() && f.minMax().max() == f.max(), "extremes"); }
void label_order_challenge(size_t n, size_t m, W o, double v, double w, size_t a, size_t b, double t) { ORDERED LO::ViolatedLinearConstraintsIteratorType i, e; LO::ViolatedLinearConstraintsWeightsIteratorType g; f.challenge(i, e, g, l, t);
   ensure(o[a] - o[b] <= t ? e - i == 0 : e - i == 1 && *g == o[a] - o[b] && i.operator->() == &f.constraints_[0], "violated constraints with their amount"); }
void label_order_relaxed(size_t n, size_t m, W o, double v, double w, size_t a, size_t b, double t, W x) { require(n > 0 && m > 0); ORDERED require(x.size() == n + m);
   cv::inductive([&](size_t i, double weightVar2) { return implies(i <= m, weightVar2 == -S::dot(o, x, n, i)); }); cv::inductive([&](size_t i, double totalWeight) { return totalWeight == S::dot(o, x, 0, i) - S::dot(o, x, n, m); });
   LO::ViolatedLinearConstraintsIteratorType i, e; LO::ViolatedLinearConstraintsWeightsIteratorType g; f.challengeRelaxed(i, e, g, x.begin(), t); const double y = S::dot(o, x, 0, n) - S::dot(o, x, n, m);
   ensure(y <= t ? e - i == 0 : e - i == 1 && cv::eq(*g, y) && i.operator->() == &f.constraints_[0], "violated constraints with their amount"); }
// linear constraints over conditions on single variables
typedef std::vector<IV> VI;
#define CONSTRAINT require(u.size() == c.size() && c.size() < big && x.size() < big && forall(0, u.size(), [&](size_t i) { return forall(0, u[i].variableLabelPairs_.size(), [&](size_t j) { return u[i].variableLabelPairs_[j].first < x.size(); }) && u[i].variableLabelPairs_.size() < big; })); LC f; f.indicatorVariables_ = u; f.coefficients_ = c; f.setBound(bound); f.setConstraintOperator((OP::ValueType)op);
void linear(VI u, W c, V x, double bound, size_t op) { require(op < 3); CONSTRAINT
   cv::inductive([&](std::ptrdiff_t i, const IV& v) { return forall(0, (size_t)i, [&](size_t j) { return v.logicalOperatorType_ == IV::And ? x[v.variableLabelPairs_[j].first] == v.variableLabelPairs_[j].second : x[v.variableLabelPairs_[j].first] != v.variableLabelPairs_[j].second; }); });
   cv::inductive([&](size_t i, double s) { return s == S::lhs(u, c, x, i); });
   const double y = S::lhs(u, c, x, u.size()) - bound, r = f(x.begin());
   ensure(cv::eq(r, op == OP::LessEqual ? (y > 0 ? y : 0) : op == OP::GreaterEqual ? (y < 0 ? -y : 0) : y > 0 ? y : -y), "amount of the violation"); }
// at most so many labels
#define LIMITED require(x.size() < big && n < big && n > 0 && m < big && forall(0, x.size(), [&](size_t i) { return x[i] < n; })); NL f; f.numVariables_ = x.size(); f.useSameNumLabels_ = true; f.maxNumLabels_ = n; f.maxNumUsedLabels_ = m; f.returnValid_ = v; f.returnInvalid_ = w; f.constraints_.resize(1); f.violatedConstraintsIds_.resize(1); f.violatedConstraintsWeights_.resize(1);
void label_limit_relaxed(size_t n, size_t m, double v, double w, V x, W y, double t) { LIMITED require(y.size() == n); cv::inductive([&](size_t i, double s) { return s == S::total(y, i) - (double)m; });
   NL::ViolatedLinearConstraintsIteratorType i, e; NL::ViolatedLinearConstraintsWeightsIteratorType g = f.violatedConstraintsWeights_.begin(); f.challengeRelaxed(i, e, g, y.begin(), t); const double a = S::total(y, n) - (double)m;
   ensure(a <= t ? e - i == 0 : e - i == 1 && cv::eq(*g, a) && i.operator->() == &f.constraints_[0], "violated constraints with their amount"); }
}
