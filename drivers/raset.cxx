#include <vector>
#include <functional>
#include "opengm/opengm.hxx"
#include "opengm/datastructures/randomaccessset.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall;
// a strict weak ordering with state, to see that the set uses and keeps its own comparison object
struct Dir { bool down; Dir(bool d = false) : down(d) {} bool operator()(int a, int b) const { return down ? b < a : a < b; } };
template<class C, class K> static bool increasing(const std::vector<K>& v, C c) { return forall(0, v.size(), [&](size_t i) { return forall(0, v.size(), [&](size_t j) { return cv::implies(i < j, c(v[i], v[j])); }); }); }
template<class Q, class K> static bool holds(const Q& q, const std::vector<K>& v) { return q.size() == v.size() && forall(0, v.size(), [&](size_t k) { return q[k] == v[k]; }); }
template<class Q, class C> static bool ordered(const Q& q, C c) { return forall(0, q.size(), [&](size_t i) { return forall(0, q.size(), [&](size_t j) { return cv::implies(i < j, c(q[i], q[j])); }); }); }
#ifdef CV_NATIVE
#include <algorithm>
template<class C, class K> static void arrange(std::vector<K>& v, C c) { std::sort(v.begin(), v.end(), c); v.erase(std::unique(v.begin(), v.end()), v.end()); }
#else
template<class C, class K> static void arrange(std::vector<K>& v, C c) {}
#endif
// every reachable set holds a strictly increasing sequence (checked below as an invariant of every operation) and its
// comparison object; make(v, c) is an arbitrary such set
template<class Q, class C, class K> static void fill(Q& q, std::vector<K>& v, C c) { arrange(v, c); require(increasing(v, c)); q.assignFromSet(v); }
#define SET(P, K, C, CTOR, PARAM, CC) \
typedef RandomAccessSet<K, C> P##Q; typedef std::vector<K> P##V; \
void P##_empty PARAM { C c CTOR; P##Q q(c); const P##Q& cq = q; ensure(q.size() == 0 && q.empty() && q.begin() == q.end() && cq.begin() == cq.end(), "empty"); } \
void P##_reserved(size_t n CC) { require(n < 100000); C c CTOR; P##Q q(n, c); ensure(q.size() == 0 && q.empty(), "empty"); } \
void P##_insert(P##V v, K x CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); size_t n = v.size(); \
   std::pair<P##Q::const_iterator, bool> r = q.insert(x); \
   size_t p = r.first - ((const P##Q&)q).begin(); \
   ensure(p < q.size() && q[p] == x && *r.first == x, "position of the key"); \
   ensure(r.second == !cv::exists(0, n, [&](size_t k) { return v[k] == x; }), "reports whether the key was new"); \
   ensure(q.size() == n + (r.second ? 1 : 0), "grows by one exactly for a new key"); \
   ensure(forall(0, n, [&](size_t k) { return k < p ? q[k] == v[k] : q[r.second ? k + 1 : k] == v[k]; }), "other keys stay, in order"); \
   ensure(ordered(q, c), "increasing"); } \
void P##_insert_hint(P##V v, size_t h, K x CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); size_t n = v.size(); require(h <= n); \
   P##Q::const_iterator hint = ((const P##Q&)q).begin() + h; \
   P##Q::const_iterator it = q.insert(hint, x); \
   size_t p = it - ((const P##Q&)q).begin(); \
   bool isnew = !cv::exists(0, n, [&](size_t k) { return v[k] == x; }); \
   ensure(p < q.size() && q[p] == x, "position of the key"); \
   ensure(q.size() == n + (isnew ? 1 : 0), "grows by one exactly for a new key"); \
   ensure(forall(0, n, [&](size_t k) { return k < p ? q[k] == v[k] : q[isnew ? k + 1 : k] == v[k]; }), "other keys stay, in order"); \
   ensure(ordered(q, c), "increasing"); } \
void P##_insert_range(P##V v, P##V w CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); \
   cv::inductive([&]() { return ordered(q, c); }); \
   cv::inductive([&]() { return forall(0, v.size(), [&](size_t k) { return cv::exists(0, q.size(), [&](size_t j) { return q[j] == v[k]; }); }); }); \
   cv::inductive([&](size_t i) { return forall(0, i, [&](size_t k) { return cv::exists(0, q.size(), [&](size_t j) { return q[j] == w[k]; }); }); }); \
   cv::inductive([&](size_t i) { return forall(0, q.size(), [&](size_t j) { return cv::exists(0, v.size(), [&](size_t k) { return q[j] == v[k]; }) || cv::exists(0, i, [&](size_t k) { return q[j] == w[k]; }); }); }); \
   q.insert(w.begin(), w.end()); \
   ensure(ordered(q, c), "increasing"); \
   ensure(forall(0, v.size(), [&](size_t k) { return cv::exists(0, q.size(), [&](size_t j) { return q[j] == v[k]; }); }), "keys before stay"); \
   ensure(forall(0, w.size(), [&](size_t k) { return cv::exists(0, q.size(), [&](size_t j) { return q[j] == w[k]; }); }), "every inserted key is in"); \
   ensure(forall(0, q.size(), [&](size_t j) { return cv::exists(0, v.size(), [&](size_t k) { return q[j] == v[k]; }) || cv::exists(0, w.size(), [&](size_t k) { return q[j] == w[k]; }); }), "no other key is in"); } \
void P##_from_range(P##V w CC) { \
   C c CTOR; \
   cv::inductive([&](const P##Q& s) { return ordered(s, c); }); \
   cv::inductive([&](const P##Q& s, size_t i) { return forall(0, i, [&](size_t k) { return cv::exists(0, s.size(), [&](size_t j) { return s[j] == w[k]; }); }); }); \
   cv::inductive([&](const P##Q& s, size_t i) { return forall(0, s.size(), [&](size_t j) { return cv::exists(0, i, [&](size_t k) { return s[j] == w[k]; }); }); }); \
   P##Q q(w.begin(), w.end(), c); \
   ensure(ordered(q, c), "increasing"); \
   ensure(forall(0, w.size(), [&](size_t k) { return cv::exists(0, q.size(), [&](size_t j) { return q[j] == w[k]; }); }), "every inserted key is in"); \
   ensure(forall(0, q.size(), [&](size_t j) { return cv::exists(0, w.size(), [&](size_t k) { return q[j] == w[k]; }); }), "no other key is in"); } \
void P##_erase_key(P##V v, K x CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); size_t n = v.size(); \
   size_t r = q.erase(x); \
   bool had = cv::exists(0, n, [&](size_t k) { return v[k] == x; }); \
   ensure(r == (had ? 1u : 0u), "number of erased keys"); ensure(q.size() == n - r, "size"); \
   ensure(forall(0, q.size(), [&](size_t k) { return q[k] != x; }), "erased"); \
   ensure(forall(0, n, [&](size_t k) { return v[k] == x || (k < q.size() && q[k] == v[k]) || (k > 0 && r == 1 && q[k - 1] == v[k]); }), "other keys stay"); \
   ensure(ordered(q, c), "increasing"); } \
void P##_erase_at(P##V v, size_t i CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); size_t n = v.size(); require(i < n); \
   q.erase(q.begin() + i); \
   ensure(q.size() == n - 1 && forall(0, n, [&](size_t k) { return k == i || q[k < i ? k : k - 1] == v[k]; }), "exactly that key is gone"); \
   ensure(ordered(q, c), "increasing"); } \
void P##_erase_range(P##V v, size_t i, size_t j CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); size_t n = v.size(); require(i <= j && j <= n); \
   q.erase(((const P##Q&)q).begin() + i, ((const P##Q&)q).begin() + j); \
   ensure(q.size() == n - (j - i) && forall(0, n, [&](size_t k) { return (k >= i && k < j) || q[k < i ? k : k - (j - i)] == v[k]; }), "exactly these keys are gone"); \
   ensure(ordered(q, c), "increasing"); } \
void P##_find(P##V v, K x CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); const P##Q& cq = q; size_t n = v.size(); \
   bool had = cv::exists(0, n, [&](size_t k) { return v[k] == x; }); \
   ensure(cq.count(x) == (had ? 1u : 0u), "count"); \
   P##Q::const_iterator a = cq.find(x); P##Q::iterator b = q.find(x); \
   ensure((a == cq.end()) == !had && (b == q.end()) == !had, "found exactly when in"); \
   if(had) { ensure(*a == x && *b == x, "found position"); ensure(a - cq.begin() == b - q.begin() && a >= cq.begin() && a < cq.end(), "one position"); } \
   ensure(holds(q, v), "unchanged"); } \
void P##_bounds(P##V v, K x CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); const P##Q& cq = q; size_t n = v.size(); \
   size_t l = cq.lower_bound(x) - cq.begin(), u = cq.upper_bound(x) - cq.begin(); \
   ensure(l <= n && forall(0, n, [&](size_t k) { return (k < l) == c(v[k], x); }), "lower bound is the first key not below"); \
   ensure(u <= n && forall(0, n, [&](size_t k) { return (k >= u) == c(x, v[k]); }), "upper bound is the first key above"); \
   ensure((size_t)(q.lower_bound(x) - q.begin()) == l && (size_t)(q.upper_bound(x) - q.begin()) == u, "mutable overloads agree"); \
   std::pair<P##Q::const_iterator, P##Q::const_iterator> e = cq.equal_range(x); std::pair<P##Q::iterator, P##Q::iterator> f = q.equal_range(x); \
   ensure((size_t)(e.first - cq.begin()) == l && (size_t)(e.second - cq.begin()) == u && (size_t)(f.first - q.begin()) == l && (size_t)(f.second - q.begin()) == u, "equal range is both bounds"); \
   ensure(holds(q, v), "unchanged"); } \
void P##_access(P##V v, size_t i CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); const P##Q& cq = q; require(i < v.size()); \
   ensure(cq[i] == v[i] && cq.begin()[i] == v[i] && q.begin()[i] == v[i], "positional access"); \
   ensure((size_t)(cq.end() - cq.begin()) == v.size() && (size_t)(q.end() - q.begin()) == v.size(), "range"); ensure(!q.empty() && !cq.empty(), "not empty"); } \
void P##_copy(P##V v, K x CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); P##Q r(q); \
   ensure(holds(r, v) && holds(q, v), "copy has the same keys"); r.insert(x); ensure(holds(q, v), "copy is independent"); ensure(ordered(r, c), "copy keeps the order"); } \
void P##_assignment(P##V v, P##V w, K x CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); P##Q r(c); fill(r, w, c); P##Q& t = (r = q); \
   ensure(&t == &r && holds(r, v) && holds(q, v), "same keys"); r.insert(x); ensure(holds(q, v), "independent"); ensure(ordered(r, c), "keeps the order"); q = q; ensure(holds(q, v), "self-assignment"); } \
void P##_swap(P##V v, P##V w CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); P##Q r(c); fill(r, w, c); q.swap(r); ensure(holds(q, w) && holds(r, v), "contents are exchanged"); } \
void P##_clear(P##V v, K x CC) { \
   C c CTOR; P##Q q(c); fill(q, v, c); q.clear(); ensure(q.size() == 0 && q.empty() && q.count(x) == 0, "empty"); q.insert(x); ensure(q.size() == 1 && q[0] == x, "usable after clear"); } \
void P##_reserve(P##V v, size_t n CC) { require(n < 100000); C c CTOR; P##Q q(c); fill(q, v, c); q.reserve(n); ensure(holds(q, v), "keys unchanged"); } \
void P##_key_comp(K x, K y CC) { C c CTOR; P##Q q(c); ensure(q.key_comp()(x, y) == c(x, y) && q.value_comp()(x, y) == c(x, y), "the comparison object"); }
namespace H {
SET(inc, size_t, std::less<size_t>, , (), )
SET(dec, int, std::greater<int>, , (), )
#define BOOLPARAM , bool down
SET(dir, int, Dir, (down), (bool down), BOOLPARAM)
// sets with different comparison objects
void dir_swap2(dirV v, dirV w, int x, int y, bool a, bool b) {
   Dir c(a), d(b); dirQ q(c); fill(q, v, c); dirQ r(d); fill(r, w, d);
   q.swap(r);
   ensure(holds(q, w) && holds(r, v), "contents are exchanged");
   ensure(q.key_comp()(x, y) == d(x, y) && r.key_comp()(x, y) == c(x, y), "comparisons are exchanged with the contents");
   q.insert(x); r.insert(y); ensure(ordered(q, d) && ordered(r, c), "both keep their order"); }
void dir_assign2(dirV v, dirV w, int x, int y, bool a, bool b) {
   Dir c(a), d(b); dirQ q(c); fill(q, v, c); dirQ r(d); fill(r, w, d);
   r = q; ensure(holds(r, v) && r.key_comp()(x, y) == c(x, y), "keys and comparison of the source"); r.insert(x); ensure(ordered(r, c), "keeps the order"); }
}
