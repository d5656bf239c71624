#include <vector>
#include <queue>
#include <functional>
#include "opengm/opengm.hxx"
#define private public   // contracts speak about the representation; the code itself is the same text
#include "opengm/utilities/queues.hxx"
#undef private
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall; using cv::implies;
// Representation invariant of the heap: positions 1..currentSize_ of heap_ and the entries of indices_ that are not -1
// are inverse to each other, and no entry is before its parent.
template<class Q> static bool sizes(const Q& q, size_t n) { return q.maxSize_ == n && q.currentSize_ <= n && q.heap_.size() == n + 1 && q.indices_.size() == n + 1 && q.priorities_.size() == n + 1; }
// heap_ (up to position m) and indices_ are inverse to each other
template<class Q> static bool inv1(const Q& q, size_t n, size_t m) { return forall(1, m + 1, [&](size_t k) { return 0 <= q.heap_[k] && (size_t)q.heap_[k] <= n && q.indices_[q.heap_[k]] == (int)k; }); }
template<class Q> static bool inv2(const Q& q, size_t n, size_t m) { return forall(0, n + 1, [&](size_t i) { return q.indices_[i] == -1 || (1 <= q.indices_[i] && (size_t)q.indices_[i] <= m && q.heap_[q.indices_[i]] == (int)i); }); }
template<class Q> static bool up(const Q& q, size_t j) { return !q.comp_(q.priorities_[q.heap_[j]], q.priorities_[q.heap_[j / 2]]); }   // j is not before its parent
template<class Q> static bool order(const Q& q) { return forall(2, q.currentSize_ + 1, [&](size_t j) { return up(q, j); }); }
template<class Q> static bool inv(const Q& q, size_t n) { return sizes(q, n) && 0 <= q.heap_[0] && (size_t)q.heap_[0] <= n && inv1(q, n, q.currentSize_) && inv2(q, n, q.currentSize_) && order(q); }
typedef std::vector<int> VI; typedef std::vector<double> VD;
// an arbitrary state satisfying the invariant (executed: a state reached by pushes and pops)
template<class Q> static void state(Q& q, size_t n, size_t m, VI& h, VI& x, VD& p) {
#ifdef CV_NATIVE
   require(n < 64); size_t r = 88172645463325252ull ^ m;
   for(size_t i = 0; i <= n; ++i) q.priorities_[i] = i < p.size() ? p[i] : (double)((i * 7) % 5);
   for(size_t i = 0; i < n; ++i) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; if(r % 4) q.push((int)i, (double)(r / 4 % 32)); }
   for(size_t i = 0; i < h.size() % 4 && !q.empty(); ++i) q.pop();
   h = q.heap_; x = q.indices_; p = q.priorities_;
#else
   q.currentSize_ = m; q.heap_ = h; q.indices_ = x; q.priorities_ = p;
#endif
   require(inv(q, n));
}
// invariants of the two repair loops, k being the position being repaired, m the number of positions in use, d the
// position the repair started from; live set and priorities are those at the start
#define REPAIR(M, D, NEW) \
   cv::inductive([&]() { return forall(0, n + 1, [&](size_t j) { return (q.indices_[j] == -1) == (x[j] == -1 && !(NEW)); }); }); \
   cv::inductive([&]() { return q.heap_[0] == h[0]; }); \
   cv::inductive([&]() { return inv1(q, n, M); }); \
   cv::inductive([&]() { return inv2(q, n, M); }); \
   cv::inductive([&](size_t k) { return 1 <= k && k <= M; }); \
   cv::inductive([&](size_t k) { return 1 <= k && k <= q.currentSize_; }); \
   cv::inductive([&](size_t k) { return forall(2, q.currentSize_ + 1, [&](size_t j) { return j == k || up(q, j); }); }); \
   cv::inductive([&](size_t k) { return forall(2, q.currentSize_ + 1, [&](size_t j) { return j / 2 == k || up(q, j); }); }); \
   cv::inductive([&](size_t k) { return forall(2, q.currentSize_ + 1, [&](size_t j) { return j == k || (j / 2 == k && k == D) || up(q, j); }); }); \
   cv::inductive([&](size_t k) { return forall(2, q.currentSize_ + 1, [&](size_t j) { return implies(j / 2 == k && k >= 2, !q.comp_(q.priorities_[q.heap_[j]], q.priorities_[q.heap_[k / 2]])); }); }); \
   cv::inductive([&](size_t k) { return implies(D == M && q.currentSize_ < M, k == D && (M < 2 || up(q, M))); });
#define INV(M) ensure(sizes(q, n), "sizes"); ensure(0 <= q.heap_[0] && (size_t)q.heap_[0] <= n, "unused first position"); ensure(inv1(q, n, q.currentSize_), "entries know their position"); ensure(inv2(q, n, q.currentSize_), "positions know their entry"); ensure(order(q), "heap order"); ensure((size_t)q.size() == (M), "number of entries");
// the entry `E` is in the queue or not (`IN`), every other entry and all priorities but that of `E` (if it is in) stay
#define OTHERS(E, IN) { const int j = a; ensure(q.contains(j) == ((E) ? (IN) : x[j] != -1), "exactly the right entries are in"); ensure(((E) && (IN)) || q.priority(j) == p[j], "other priorities stay"); }
template<class Q> static void t_change(size_t n, size_t m, VI& h, VI& x, VD& p, int a, int i, double r, bool earlier, bool push) {
   require(n < (1ul << 29)); Q q(n); state(q, n, m, h, x, p); require(0 <= a && (size_t)a <= n); require(0 <= i && (size_t)i < n && q.contains(i)); size_t m0 = q.currentSize_; size_t d = (size_t)x[i];
   if(earlier) require(q.comp_(r, p[i])); else require(q.comp_(p[i], r));
   REPAIR(m0, d, false)
   if(push) q.push(i, r); else q.changePriority(i, r);
   INV(m0) ensure(q.priority(i) == r, "entry has its priority"); OTHERS(j == i, true)
}
// `last`: the entry is in the last position
template<class Q> static void t_delete(size_t n, size_t m, VI& h, VI& x, VD& p, int a, int i, bool last) {
   require(n < (1ul << 29)); Q q(n); state(q, n, m, h, x, p); require(0 <= a && (size_t)a <= n); require(0 <= i && (size_t)i < n && q.contains(i)); size_t m0 = q.currentSize_; size_t d = (size_t)x[i];
   require(last == (d == m0));
   REPAIR(m0, d, false)
   cv::inductive([&]() { return q.heap_[m0] == i; });
   q.deleteItem(i);
   INV(m0 - 1) OTHERS(j == i, false)
}
#define QUEUE(P, C) \
typedef ChangeablePriorityQueue<double, C> P##Q; \
void P##_create(size_t n) { require(n < (1ul << 29)); P##Q q(n); ensure(inv(q, n), "invariant"); ensure(q.empty() && q.size() == 0, "empty"); ensure(forall(0, n + 1, [&](size_t i) { return q.indices_[i] == -1; }), "nothing is in the queue"); } \
void P##_push_new(size_t n, size_t m, VI h, VI x, VD p, int a, int i, double r) { \
   require(n < (1ul << 29)); P##Q q(n); state(q, n, m, h, x, p); require(0 <= a && (size_t)a <= n); require(0 <= i && (size_t)i < n && !q.contains(i)); size_t m0 = q.currentSize_; size_t d = m0 + 1; \
   require(m0 < n); /* holds by counting: a queue of n entries contains every i < n */ \
   REPAIR(m0 + 1, d, j == (size_t)i) \
   q.push(i, r); \
   INV(m0 + 1) \
   ensure(q.contains(i), "entry is in"); ensure(q.priority(i) == r, "entry has its priority"); \
   OTHERS(j == i, true) } \
void P##_push_same(size_t n, size_t m, VI h, VI x, VD p, int a, int i, double r) { \
   require(n < (1ul << 29)); P##Q q(n); state(q, n, m, h, x, p); require(0 <= a && (size_t)a <= n); require(0 <= i && (size_t)i < n && q.contains(i)); size_t m0 = q.currentSize_; require(r == p[i]); \
   q.push(i, r); \
   INV(m0) ensure(q.priority(i) == r, "entry has its priority"); OTHERS(false, false) } \
void P##_push_earlier(size_t n, size_t m, VI h, VI x, VD p, int a, int i, double r) { t_change<P##Q>(n, m, h, x, p, a, i, r, true, true); } \
void P##_push_later(size_t n, size_t m, VI h, VI x, VD p, int a, int i, double r) { t_change<P##Q>(n, m, h, x, p, a, i, r, false, true); } \
void P##_change_earlier(size_t n, size_t m, VI h, VI x, VD p, int a, int i, double r) { t_change<P##Q>(n, m, h, x, p, a, i, r, true, false); } \
void P##_change_later(size_t n, size_t m, VI h, VI x, VD p, int a, int i, double r) { t_change<P##Q>(n, m, h, x, p, a, i, r, false, false); } \
void P##_change_same(size_t n, size_t m, VI h, VI x, VD p, int a, int i, double r) { \
   require(n < (1ul << 29)); P##Q q(n); state(q, n, m, h, x, p); require(0 <= a && (size_t)a <= n); require(0 <= i && (size_t)i < n && q.contains(i)); size_t m0 = q.currentSize_; require(r == p[i]); \
   q.changePriority(i, r); \
   INV(m0) ensure(q.priority(i) == r, "entry has its priority"); OTHERS(false, false) } \
void P##_pop(size_t n, size_t m, VI h, VI x, VD p, int a) { \
   require(n < (1ul << 29)); P##Q q(n); state(q, n, m, h, x, p); require(0 <= a && (size_t)a <= n); require(!q.empty()); size_t m0 = q.currentSize_; int t = q.top(); size_t d = 1; \
   REPAIR(m0, d, false) \
   cv::inductive([&]() { return q.heap_[m0] == t; }); \
   q.pop(); \
   INV(m0 - 1) ensure(q.empty() == (m0 == 1), "empty"); OTHERS(j == t, false) } \
void P##_delete_last(size_t n, size_t m, VI h, VI x, VD p, int a, int i) { t_delete<P##Q>(n, m, h, x, p, a, i, true); } \
void P##_delete_inner(size_t n, size_t m, VI h, VI x, VD p, int a, int i) { t_delete<P##Q>(n, m, h, x, p, a, i, false); } \
void P##_top(size_t n, size_t m, VI h, VI x, VD p, int a) { \
   require(n < (1ul << 29)); P##Q q(n); state(q, n, m, h, x, p); require(0 <= a && (size_t)a <= n); require(!q.empty()); \
   int t = q.top(); ensure(q.contains(t) && q.topPriority() == q.priority(t), "top is an entry with its priority"); \
   /* no position is before the root: induction along the positions */ \
   size_t k = 1; \
   cv::inductive([&]() { return 1 <= k && k <= q.currentSize_ && forall(1, k + 1, [&](size_t j) { return !q.comp_(q.priorities_[q.heap_[j]], q.priorities_[q.heap_[1]]); }); }); \
   while(k < q.currentSize_) ++k; \
   ensure(!q.contains(a) || !q.comp_(q.priority(a), q.topPriority()), "no entry is before the top"); } \
void P##_reset(size_t n, size_t m, VI h, VI x, VD p, int a) { \
   require(n < (1ul << 29)); P##Q q(n); state(q, n, m, h, x, p); require(0 <= a && (size_t)a <= n); size_t m0 = q.currentSize_; \
   cv::inductive([&](size_t k) { return forall(0, n + 1, [&](size_t i) { return q.indices_[i] == -1 || (k <= (size_t)q.indices_[i] && q.indices_[i] == x[i]); }); }); \
   q.reset(); \
   INV(0) ensure(q.empty(), "empty"); \
   ensure(!q.contains(a) && q.priority(a) == p[a], "no entry left, priorities stay"); } \
void P##_setPriorities(size_t n, size_t m, VI h, VI x, VD p, int a, double r) { \
   require(n < (1ul << 29)); P##Q q(n); state(q, n, m, h, x, p); require(0 <= a && (size_t)a <= n); size_t m0 = q.currentSize_; \
   q.setPriorities(r); \
   INV(m0) \
   ensure(q.contains(a) == (x[a] != -1) && q.priority(a) == r, "all priorities are the given one, entries stay"); }
typedef FiFoQueue<int> F;
namespace H {
QUEUE(min, std::less<double>)
QUEUE(max, std::greater<double>)
// first in, first out: an arbitrary state is a buffer of c entries of which [b, e) are queued
static void fstate(F& q, size_t c, VI& v, size_t b, size_t e) {
#ifdef CV_NATIVE
   require(c < 1000); v.resize(c);
#endif
   require(v.size() == c && b <= e && e <= c);
   q.begin_ = b; q.end_ = e; q.data_ = v;
}
void fifo_create(size_t c) { require(c < 100000); F q(c); ensure(q.empty() && q.size() == 0, "empty"); }
void fifo_push(size_t c, VI v, size_t b, size_t e, int x) {
   require(c < 100000); F q(c); fstate(q, c, v, b, e); require(e < c); q.push(x);
   ensure(q.size() == e - b + 1 && !q.empty(), "one more"); ensure(q.front() == (b < e ? v[b] : x), "front is the oldest");
   ensure(q.begin_ == b && q.end_ == e + 1 && forall(0, c, [&](size_t k) { return q.data_[k] == (k == e ? x : v[k]); }), "queued after the others"); }
void fifo_pop(size_t c, VI v, size_t b, size_t e) {
   require(c < 100000); F q(c); fstate(q, c, v, b, e); require(b < e); ensure(q.front() == v[b], "front"); q.pop();
   ensure(q.size() == e - b - 1 && q.empty() == (e == b + 1), "one less"); ensure(q.begin_ == b + 1 && q.end_ == e && forall(0, c, [&](size_t k) { return q.data_[k] == v[k]; }), "others stay, in order"); }
void fifo_history(size_t c, VI v) {
   require(c < 100000 && v.size() <= c); F q(c);
   cv::inductive([&](size_t i) { return i <= v.size() && q.begin_ == 0 && q.end_ == i && q.data_.size() == c && forall(0, i, [&](size_t k) { return q.data_[k] == v[k]; }); });
   for(size_t i = 0; i < v.size(); ++i) q.push(v[i]);
   ensure(q.size() == v.size(), "all are queued");
   cv::inductive([&](size_t i) { return i <= v.size() && q.begin_ == i && q.end_ == v.size() && forall(0, v.size(), [&](size_t k) { return q.data_[k] == v[k]; }); });
   for(size_t i = 0; i < v.size(); ++i) { ensure(!q.empty() && q.front() == v[i], "comes out in insertion order"); q.pop(); }
   ensure(q.empty() && q.size() == 0, "empty at the end");
   q.clear(); ensure(q.empty(), "clear"); }
void fifo_clear(size_t c, VI v, size_t b, size_t e, int x) {
   require(0 < c && c < 100000); F q(c); fstate(q, c, v, b, e); q.clear(); ensure(q.empty() && q.size() == 0, "empty"); q.push(x); ensure(q.front() == x && q.size() == 1, "usable after clear"); }
}
