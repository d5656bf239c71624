#include <vector>
#include "opengm/opengm.hxx"
#include "opengm/datastructures/fast_sequence.hxx"
#include "opengm/datastructures/buffer_vector.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall;
typedef std::vector<int> V;
template<class Q> static bool holds(const Q& q, const V& v, size_t n) { return q.size() == n && forall(0, n, [&](size_t k) { return q[k] == v[k]; }); }
template<class Q> static bool holds(const Q& q, const V& v) { return holds(q, v, v.size()); }
// An arbitrary reachable sequence: contents v in a buffer grown before to c entries.  Together with the contents this
// is the whole state of the class (buffer inside the object up to MAX entries, heap buffer of exactly `capacity` entries
// beyond); every operation below is checked from this state and leaves a sequence that again can be used and destroyed.
template<class Q> static Q* make(size_t c, const V& v) {
   Q* q = new Q();
   q->reserve(c);
   q->assign(v.begin(), v.end());
   return q;
}
template<class Q> static void settle(Q* q) { delete q; cv::no_leak(); }
template<class Q> static void t_make(size_t c, const V& v) { Q* q = make<Q>(c, v); ensure(holds(*q, v), "assigned contents"); ensure(q->empty() == (v.size() == 0), "empty"); settle(q); }
template<class Q> static void t_default() { Q* q = new Q(); ensure(q->size() == 0 && q->empty(), "starts empty"); settle(q); }
template<class Q> static void t_sized(size_t n) { Q* q = new Q(n); ensure(q->size() == n, "requested length"); settle(q); }
template<class Q> static void t_filled(size_t n, int x) { Q* q = new Q(n, x); ensure(q->size() == n && forall(0, n, [&](size_t k) { return (*q)[k] == x; }), "filled"); settle(q); }
template<class Q> static void t_copy(size_t c, const V& v, size_t i, int x) {
   Q* q = make<Q>(c, v); Q* r = new Q(*q);
   ensure(holds(*r, v) && holds(*q, v), "copy has the contents of the original");
   if(i < v.size()) { (*r)[i] = x; ensure(holds(*q, v), "writing the copy leaves the original"); (*r)[i] = v[i]; }
   delete q;
   ensure(holds(*r, v), "copy outlives the original");
   r->push_back(x); ensure(r->size() == v.size() + 1 && (*r)[v.size()] == x && forall(0, v.size(), [&](size_t k) { return (*r)[k] == v[k]; }), "copy can grow");
   settle(r);
}
template<class Q> static void t_assignment(size_t c, const V& v, size_t d, const V& w, int x) {
   Q* q = make<Q>(c, v); Q* r = make<Q>(d, w);
   Q& t = (*r = *q);
   ensure(&t == r, "assignment returns its target");
   ensure(holds(*r, v) && holds(*q, v), "assigned contents");
   delete q;
   ensure(holds(*r, v), "target outlives the source");
   r->push_back(x); ensure(r->size() == v.size() + 1 && (*r)[v.size()] == x && forall(0, v.size(), [&](size_t k) { return (*r)[k] == v[k]; }), "target can grow");
   settle(r);
}
template<class Q> static void t_self_assignment(size_t c, const V& v) { Q* q = make<Q>(c, v); *q = *q; ensure(holds(*q, v), "unchanged"); settle(q); }
template<class Q> static void t_push_back(size_t c, const V& v, int x) {
   Q* q = make<Q>(c, v); q->push_back(x);
   ensure(q->size() == v.size() + 1 && (*q)[v.size()] == x, "appended"); ensure(forall(0, v.size(), [&](size_t k) { return (*q)[k] == v[k]; }), "entries before stay");
   q->push_back(x + 0); ensure(q->size() == v.size() + 2 && (*q)[v.size() + 1] == x, "appended again");
   settle(q);
}
template<class Q> static void t_push_back_own(size_t c, const V& v, size_t i) {
   require(i < v.size());
   Q* q = make<Q>(c, v); q->push_back((*q)[i]);
   ensure(q->size() == v.size() + 1 && (*q)[v.size()] == v[i], "appended"); ensure(forall(0, v.size(), [&](size_t k) { return (*q)[k] == v[k]; }), "entries before stay");
   settle(q);
}
template<class Q> static void t_resize(size_t c, const V& v, size_t n) {
   Q* q = make<Q>(c, v); q->resize(n);
   size_t m = n < v.size() ? n : v.size();
   ensure(q->size() == n && forall(0, m, [&](size_t k) { return (*q)[k] == v[k]; }), "new length, entries kept");
   settle(q);
}
template<class Q> static void t_reserve(size_t c, const V& v, size_t n) { Q* q = make<Q>(c, v); q->reserve(n); ensure(holds(*q, v), "contents unchanged"); settle(q); }
template<class Q> static void t_clear(size_t c, const V& v, const V& w) {
   Q* q = make<Q>(c, v); q->clear(); ensure(q->size() == 0 && q->empty(), "empty");
   q->assign(w.begin(), w.end()); ensure(holds(*q, w), "usable after clear"); settle(q);
}
template<class Q> static void t_element(size_t c, const V& v, size_t i, int x) {
   require(i < v.size());
   Q* q = make<Q>(c, v); const Q& cq = *q;
   ensure(cq[i] == v[i] && (*q)[i] == v[i], "read"); ensure(q->begin()[i] == v[i] && cq.begin()[i] == v[i], "read through begin");
   ensure(q->front() == v[0] && cq.front() == v[0] && q->back() == v[v.size() - 1] && cq.back() == v[v.size() - 1], "front and back");
   ensure((size_t)(q->end() - q->begin()) == v.size() && (size_t)(cq.end() - cq.begin()) == v.size(), "range");
   (*q)[i] = x; ensure(cq[i] == x && forall(0, v.size(), [&](size_t k) { return k == i || (*q)[k] == v[k]; }), "write changes one entry");
   settle(q);
}
#define CAP 1000000000000ul
#define SEQ(P, Q) \
void P##_contents(size_t c, V v) { require(c < CAP); t_make<Q>(c, v); } \
void P##_default() { t_default<Q>(); } \
void P##_sized(size_t n) { require(n < CAP); t_sized<Q>(n); } \
void P##_filled(size_t n, int x) { require(n < CAP); t_filled<Q>(n, x); } \
void P##_copy(size_t c, V v, size_t i, int x) { require(c < CAP); t_copy<Q>(c, v, i, x); } \
void P##_assignment(size_t c, V v, size_t d, V w, int x) { require(c < CAP && d < CAP); t_assignment<Q>(c, v, d, w, x); } \
void P##_self_assignment(size_t c, V v) { require(c < CAP); t_self_assignment<Q>(c, v); } \
void P##_push_back(size_t c, V v, int x) { require(c < CAP); t_push_back<Q>(c, v, x); } \
void P##_push_back_own(size_t c, V v, size_t i) { require(c < CAP); t_push_back_own<Q>(c, v, i); } \
void P##_resize(size_t c, V v, size_t n) { require(c < CAP && n < CAP); t_resize<Q>(c, v, n); } \
void P##_reserve(size_t c, V v, size_t n) { require(c < CAP && n < CAP); t_reserve<Q>(c, v, n); } \
void P##_clear(size_t c, V v, V w) { require(c < CAP); t_clear<Q>(c, v, w); } \
void P##_element(size_t c, V v, size_t i, int x) { require(c < CAP); t_element<Q>(c, v, i, x); }
typedef FastSequence<int> FS;
typedef FastSequence<int, 1> FS1;
typedef BufferVector<int> BV;
namespace H {
SEQ(fast, FS)
SEQ(fast1, FS1)
SEQ(buffer, BV)
}
