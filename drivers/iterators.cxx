#include <vector>
#include <numeric>
#include <functional>
#include <algorithm>
#include "opengm/opengm.hxx"
#include "opengm/utilities/accessor_iterator.hxx"
#include "opengm/utilities/shape_accessor.hxx"
#include "opengm/utilities/subsequence_iterator.hxx"
#include "opengm/utilities/vector_view.hxx"
#include "opengm/utilities/sorting.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall; using cv::exists; using cv::implies; using cv::iff;
typedef std::vector<size_t> V; typedef std::vector<double> W;
static const size_t big = 1ul << 40;
// an accessor to a stored sequence, returning its entries by value
struct Acc { typedef size_t value_type; const V* s; Acc(const V* t = 0) : s(t) {} size_t size() const { return s->size(); } size_t operator[](const size_t j) const { return (*s)[j]; } bool operator==(const Acc& o) const { return s == o.s; } };
namespace H {
typedef AccessorIterator<Acc, true> AI;
#define ACC require(s.size() < big && k < big && p < big && p + k < s.size()); const Acc a(&s); AI i(a, p);
void acc_read(V s, size_t p, size_t k) { ACC ensure(*i == s[p] && i[k] == s[p + k], "entries"); const AI c = i; ensure(*c == s[p] && c[k] == s[p + k], "entries through a constant iterator"); }
void acc_add(V s, size_t p, size_t k) { ACC const AI j = i + k; ensure(*j == s[p + k] && j - i == k, "several steps"); const AI h = j - k; ensure(h == i && *h == s[p], "several steps back"); const AI g = k + i; ensure(g == j, "offset first"); }
void acc_move(V s, size_t p, size_t k) { ACC i += k; ensure(*i == s[p + k], "moved"); i -= k; ensure(*i == s[p] && i == AI(a, p), "moved back"); }
void acc_order(V s, size_t p, size_t k) { ACC const AI j(a, p + k); ensure((i == j) == (k == 0) && (i != j) == (k != 0) && (i < j) == (k > 0) && (j > i) == (k > 0) && i <= j && j >= i && (j <= i) == (k == 0) && (i >= j) == (k == 0), "order"); }
void acc_pre(V s, size_t p, size_t k) { ACC require(k > 0); AI& j = ++i; ensure(*j == s[p + 1] && *i == s[p + 1], "step"); AI& h = --i; ensure(*h == s[p] && *i == s[p], "step back"); }
void acc_post(V s, size_t p, size_t k) { ACC require(k > 0); AI j = i++; ensure(*j == s[p] && *i == s[p + 1], "step"); j = i--; ensure(*j == s[p + 1] && *i == s[p], "step back"); }
void acc_copy(V s, size_t p, size_t k) { ACC AI j(i); ++j; ensure(*i == s[p], "copies are separate"); j = i; ensure(*j == s[p] && j == i, "assigned"); }
typedef SubsequenceIterator<V::const_iterator, V::const_iterator> SQ;
#define SUB require(p < big && k < big && ix.size() < big && s.size() < big && p + k < ix.size() && forall(0, ix.size(), [&](size_t j) { return ix[j] < s.size(); })); SQ i(s.begin(), ix.begin(), p);
void sub_read(V s, V ix, size_t p, size_t k) { SUB ensure(*i == s[ix[p]] && i[k] == s[ix[p + k]] && i.operator->() == &s[ix[p]], "selected entries"); }
void sub_add(V s, V ix, size_t p, size_t k) { SUB SQ j = i + k; ensure(*j == s[ix[p + k]] && j - i == (std::ptrdiff_t)k && i - j == -(std::ptrdiff_t)k, "several steps"); ensure(j - k == i && *(j - k) == s[ix[p]], "several steps back"); }
void sub_move(V s, V ix, size_t p, size_t k) { SUB SQ j = i; j += k; ensure(*j == s[ix[p + k]] && *i == s[ix[p]], "moved"); j -= k; ensure(*j == s[ix[p]] && j == i, "moved back"); }
void sub_order(V s, V ix, size_t p, size_t k) { SUB const SQ j(s.begin(), ix.begin(), p + k); ensure((i == j) == (k == 0) && (i != j) == (k != 0) && (i < j) == (k > 0) && (j > i) == (k > 0) && i <= j && j >= i && (j <= i) == (k == 0) && (i >= j) == (k == 0), "order"); }
void sub_pre(V s, V ix, size_t p, size_t k) { SUB require(k > 0); SQ& j = ++i; ensure(*j == s[ix[p + 1]] && i == j, "step"); SQ& h = --i; ensure(*h == s[ix[p]] && i == h, "step back"); }
void sub_post(V s, V ix, size_t p, size_t k) { SUB require(k > 0); SQ j = i++; ensure(*j == s[ix[p]] && *i == s[ix[p + 1]], "step"); j = i--; ensure(*j == s[ix[p + 1]] && *i == s[ix[p]], "step back"); }
void sub_copy(V s, V ix, size_t p, size_t k) { SUB SQ g(i), h(s.begin(), ix.begin(), 0); h = i; ensure(g == i && h == i && *g == *i && *h == *i, "copies"); }
void view(V s, size_t p, size_t n, size_t k) { require(s.size() < big && p < big && n < big && p + n <= s.size() && k < n); const VectorView<V, size_t> v(s, p, n); ensure(v.size() == n && v[k] == s[p + k], "entries"); ensure(v.end() - v.begin() == (std::ptrdiff_t)n && *(v.begin() + k) == s[p + k], "range"); }
void view_assign(V s, V t, size_t p, size_t n, size_t k) { require(s.size() < big && p < big && n < big && p + n <= s.size() && k < n); VectorView<V, size_t> w(s); ensure(w.size() == 0, "empty"); w.assign(s, p, n); const VectorView<V, size_t>& c = w; ensure(c.size() == n && c[k] == s[p + k], "assigned"); require(t.size() == s.size()); w.assignPtr(t); ensure(c.size() == n && c[k] == t[p + k], "same positions of another sequence"); }
void sorted(W s) { require(s.size() < big); cv::inductive([&](std::ptrdiff_t i, double t) { return t == s[i > 0 ? i - 1 : 0]; });
   cv::inductive([&](std::ptrdiff_t i) { return forall(1, (size_t)i, [&](size_t j) { return s[j - 1] <= s[j]; }); });
   ensure(isSorted(s.begin(), s.end()) == forall(1, s.size(), [&](size_t j) { return s[j - 1] <= s[j]; }), "sorted"); }
void find(V s, size_t x, size_t p) { require(s.size() < big && forall(1, s.size(), [&](size_t j) { return s[j - 1] <= s[j]; }) && forall(0, s.size(), [&](size_t i) { return forall(0, s.size(), [&](size_t j) { return implies(i <= j, s[i] <= s[j]); }); })); size_t q = p;
   cv::inductive([&](size_t i) { return forall(0, i, [&](size_t j) { return s[j] < x; }); });
   const bool f = findInSortedSequence(s.begin(), s.size(), x, q); ensure(f == exists(0, s.size(), [&](size_t j) { return s[j] == x; }), "found"); ensure(f ? q < s.size() && s[q] == x && forall(0, q, [&](size_t j) { return s[j] < x; }) : q == p, "first position"); }
void at(V s, size_t k) { require(k < s.size() && s.size() < big); ensure(iteratorAt(s.begin(), k) == s[k], "entry"); }
}
