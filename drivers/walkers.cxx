#include <vector>
#include <numeric>
#include <functional>
#include "opengm/opengm.hxx"
#include "opengm/utilities/indexing.hxx"
#include "opengm/utilities/accessor_iterator.hxx"
#include "opengm/utilities/shape_accessor.hxx"
#include "opengm/utilities/subsequence_iterator.hxx"
#include "opengm/utilities/vector_view.hxx"
#include "opengm/functions/potts.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall; using cv::exists;
typedef std::vector<size_t> V; typedef FastSequence<size_t> Q;
static const size_t big = 1ul << 40;
static bool in(const V& x, const V& sh) { return x.size() == sh.size() && sh.size() > 0 && sh.size() < big && forall(0, sh.size(), [&](size_t k) { return x[k] < sh[k] && sh[k] < big; }); }
// x is not the last label vector
static bool more(const V& x, const V& sh) { return exists(0, sh.size(), [&](size_t k) { return x[k] != sh[k] - 1; }); }
// a coordinate of the successor of x in the order in which the first coordinate changes fastest: the leading coordinates at
// their last label start over, the next one advances, the others stay
static size_t next(const V& x, const V& sh, size_t k) { return forall(0, k, [&](size_t j) { return x[j] == sh[j] - 1; }) ? (x[k] == sh[k] - 1 ? 0 : x[k] + 1) : x[k]; }
// the same in the order in which the last coordinate changes fastest
static size_t next_switched(const V& x, const V& sh, size_t k) { return forall(k + 1, sh.size(), [&](size_t j) { return x[j] == sh[j] - 1; }) ? (x[k] == sh[k] - 1 ? 0 : x[k] + 1) : x[k]; }
template<class A> static A& mut(const A& a) { return const_cast<A&>(a); }
template<class W> static void put(const W& w, const V& x) { Q& c = mut(w.coordinateTuple()); for(size_t k = 0; k < x.size(); ++k) c[k] = x[k]; }
static const int bit[] = { 1, 2, 4 };
typedef ShapeWalker<V::const_iterator> SW; typedef ShapeWalkerSwitchedOrder<V::const_iterator> SS; typedef SubShapeWalker<V::const_iterator, V, V> SubW;
namespace H {
void start(V sh) { require(sh.size() < big); const SW w(sh.begin(), sh.size()); ensure(w.coordinateTuple().size() == sh.size() && forall(0, sh.size(), [&](size_t k) { return w.coordinateTuple()[k] == 0; }), "starts at the all-zero vector"); }
void start_switched(V sh) { require(sh.size() < big); const SS w(sh.begin(), sh.size()); ensure(w.coordinateTuple().size() == sh.size() && forall(0, sh.size(), [&](size_t k) { return w.coordinateTuple()[k] == 0; }), "starts at the all-zero vector"); }
void step(V sh, V x) { cv::inductive([&](const V& c, size_t d) { return forall(0, d, [&](size_t k) { return x[k] == sh[k] - 1 && c[k] == 0; }) && forall(d, sh.size(), [&](size_t k) { return c[k] == x[k]; }); });
   require(in(x, sh) && more(x, sh)); SW w(sh.begin(), sh.size()); put(w, x); ++w; ensure(w.coordinateTuple().size() == sh.size() && forall(0, sh.size(), [&](size_t k) { return w.coordinateTuple()[k] == next(x, sh, k); }), "next label vector, first coordinate fastest"); }
void step_switched(V sh, V x) { cv::inductive([&](const V& c, size_t d) { return forall(d + 1, sh.size(), [&](size_t k) { return x[k] == sh[k] - 1 && c[k] == 0; }) && forall(0, d + 1, [&](size_t k) { return c[k] == x[k]; }); });
   require(in(x, sh) && more(x, sh)); SS w(sh.begin(), sh.size()); put(w, x); ++w; ensure(forall(0, sh.size(), [&](size_t k) { return w.coordinateTuple()[k] == next_switched(x, sh, k); }), "next label vector, last coordinate fastest"); }
void step_last(V sh, V x) { require(in(x, sh) && !more(x, sh)); SW w(sh.begin(), sh.size()); put(w, x); ++w; ensure(w.coordinateTuple().size() == sh.size(), "no coordinate is lost at the end"); }
void reset(V sh, V x) { require(in(x, sh)); SW w(sh.begin(), sh.size()); put(w, x); w.reset(); ensure(forall(0, sh.size(), [&](size_t k) { return w.coordinateTuple()[k] == 0; }), "back at the all-zero vector"); }
void equal_values(V x) { require(x.size() < big); ensure(isEqualValueVector(x) == forall(0, x.size(), [&](size_t k) { return x[k] == x[0]; }), "all labels equal"); }
// walks with fixed coordinates, three coordinates, every subset of them fixed (F: bit k tells whether coordinate k is fixed)
#define SUB(F, A, B, C) \
void sub##F(V sh, V v, size_t a, size_t b, size_t c) { \
   const bool fix[] = { A, B, C }; V x(3); x[0] = a; x[1] = b; x[2] = c; require(sh.size() == 3 && in(x, sh)); V ix, fv; for(size_t k = 0; k < 3; ++k) if(fix[k]) { ix.push_back(k); fv.push_back(x[k]); } \
   SubW w(sh.begin(), 3, ix, fv); const Q& t = w.coordinateTuple(); for(size_t k = 0; k < 3; ++k) ensure(t[k] == (fix[k] ? x[k] : 0), "starts with the free coordinates at zero"); \
   size_t n = 1; for(size_t k = 0; k < 3; ++k) if(!fix[k]) n *= sh[k]; ensure(w.subSize() == n, "number of label vectors that agree with the fixed coordinates"); \
   put(w, x); bool last = true; for(size_t k = 0; k < 3; ++k) last = last && (fix[k] || x[k] == sh[k] - 1); ++w; bool carry = true; \
   for(size_t k = 0; k < 3; ++k) { if(fix[k]) ensure(t[k] == x[k], "fixed coordinates keep their labels"); else { if(!last) ensure(t[k] == (carry ? (x[k] == sh[k] - 1 ? 0 : x[k] + 1) : x[k]), "next label vector that agrees with the fixed coordinates"); carry = carry && x[k] == sh[k] - 1; } } \
   w.resetCoordinate(); for(size_t k = 0; k < 3; ++k) ensure(t[k] == (fix[k] ? x[k] : 0), "starts over with the free coordinates at zero"); }
SUB(0, 0, 0, 0) SUB(1, 1, 0, 0) SUB(2, 0, 1, 0) SUB(3, 1, 1, 0) SUB(4, 0, 0, 1) SUB(5, 1, 0, 1) SUB(6, 0, 1, 1) SUB(7, 1, 1, 1)
// units: sub0 sub1 sub2 sub3 sub4 sub5 sub6 sub7
// walks through the union AB of two sets of variables that report the labels of A and of B alongside; three variables, MA and MB:
// bit k tells whether variable k belongs to A, to B
#define TWO(NAME, MA, MB) \
void NAME(V vi, size_t s0, size_t s1, size_t s2, size_t a, size_t b, size_t c) { \
   require(vi.size() == 3 && vi[0] < vi[1] && vi[1] < vi[2]); V sh(3), x(3); sh[0] = s0; sh[1] = s1; sh[2] = s2; x[0] = a; x[1] = b; x[2] = c; require(s0 < 1000000000 && s1 < 1000000000 && s2 < 1000000000 && in(x, sh)); V va, vb; for(size_t k = 0; k < 3; ++k) { if(MA / bit[k] % 2 == 1) va.push_back(vi[k]); if(MB / bit[k] % 2 == 1) vb.push_back(vi[k]); } \
   TripleShapeWalker<V::const_iterator> w(sh.begin(), 3, vi, va, vb); size_t p = 0, q = 0; \
   for(size_t k = 0; k < 3; ++k) { mut(w.coordinateTupleAB())[k] = x[k]; if(MA / bit[k] % 2 == 1) mut(w.coordinateTupleA())[p++] = x[k]; if(MB / bit[k] % 2 == 1) mut(w.coordinateTupleB())[q++] = x[k]; } \
   ++w; p = q = 0; for(size_t k = 0; k < 3; ++k) { const size_t y = next(x, sh, k); ensure(w.coordinateTupleAB()[k] == y, "next label vector, first coordinate fastest, starting over after the last"); if(MA / bit[k] % 2 == 1) ensure(w.coordinateTupleA()[p++] == y, "labels of the first set follow"); if(MB / bit[k] % 2 == 1) ensure(w.coordinateTupleB()[q++] == y, "labels of the second set follow"); } \
   ensure(w.coordinateTupleA().size() == p && w.coordinateTupleB().size() == q && w.coordinateTupleAB().size() == 3, "lengths"); } \
void NAME##_one(V vi, size_t s0, size_t s1, size_t s2, size_t a, size_t b, size_t c) { \
   require(vi.size() == 3 && vi[0] < vi[1] && vi[1] < vi[2]); V sh(3), x(3); sh[0] = s0; sh[1] = s1; sh[2] = s2; x[0] = a; x[1] = b; x[2] = c; require(in(x, sh)); V va; for(size_t k = 0; k < 3; ++k) if(MA / bit[k] % 2 == 1) va.push_back(vi[k]); \
   DoubleShapeWalker<V::const_iterator> w(sh.begin(), 3, vi, va); size_t p = 0; \
   for(size_t k = 0; k < 3; ++k) { mut(w.coordinateTupleAB())[k] = x[k]; if(MA / bit[k] % 2 == 1) mut(w.coordinateTupleA())[p++] = x[k]; } \
   ++w; p = 0; for(size_t k = 0; k < 3; ++k) { const size_t y = next(x, sh, k); ensure(w.coordinateTupleAB()[k] == y, "next label vector, first coordinate fastest, starting over after the last"); if(MA / bit[k] % 2 == 1) ensure(w.coordinateTupleA()[p++] == y, "labels of the subset follow"); } \
   ensure(w.coordinateTupleA().size() == p && w.coordinateTupleAB().size() == 3, "lengths"); }
TWO(two_17, 1, 7) TWO(two_63, 6, 3) TWO(two_56, 5, 6) TWO(two_42, 4, 3) TWO(two_77, 7, 7) TWO(two_25, 2, 5) TWO(two_71, 7, 1)
// units: two_17 two_63 two_56 two_42 two_77 two_25 two_71 two_17_one two_63_one two_56_one two_42_one two_71_one two_25_one
// shape iterators of functions
typedef PottsFunction<double> P; typedef P::FunctionShapeIteratorType SI;
void shape_iterator(size_t n, size_t m) { const P f(n, m, 0, 1); SI i = f.functionShapeBegin(); const SI e = f.functionShapeEnd(), b = i; ensure(e - i == 2 && i != e && i < e && i <= e && e > i && e >= i && !(i == e), "two variables"); ensure(i[0] == n && i[1] == m && *i == n, "numbers of labels"); ensure(b[0] == n && b[1] == m && *b == n, "numbers of labels through a constant iterator");
   SI j = i++; ensure(*j == n && *i == m && i - j == 1, "steps"); j = ++i; ensure(j == e && i == e, "steps"); j = i--; ensure(j == e && *i == m, "steps"); j = --i; ensure(j == b && *i == n, "steps"); ensure(*(b + 1) == m && *(1 + b) == m && b + 2 == e && *(e - 1) == m && e - 2 == b, "several steps"); i += 1; ensure(*i == m, "several steps"); i += 1; i -= 2; ensure(i == b, "several steps"); }
typedef SubsequenceIterator<V::const_iterator, V::const_iterator> SQ;
void subsequence(V s, V ix, size_t p, size_t k) { require(ix.size() < big && s.size() < big && p < ix.size() && p + k < ix.size() && k < big && forall(0, ix.size(), [&](size_t j) { return ix[j] < s.size(); })); SQ i(s.begin(), ix.begin(), p); ensure(*i == s[ix[p]] && i[k] == s[ix[p + k]], "selected entries"); SQ j = i + k; ensure(*j == s[ix[p + k]] && j - i == (std::ptrdiff_t)k, "several steps"); j -= k; ensure(j == i && *j == s[ix[p]], "several steps back"); j += k; ensure(*(j - k) == *i && (k == 0) == (i == j) && (k != 0) == (i != j) && (i < j) == (k > 0) && i <= j && j >= i && (j > i) == (k > 0), "order"); }
void sq_post(V s, V ix, size_t p) { require(p < big && ix.size() < big && s.size() < big && p + 1 < ix.size() && forall(0, ix.size(), [&](size_t j) { return ix[j] < s.size(); })); SQ i(s.begin(), ix.begin(), p); SQ j = i++; ensure(*j == s[ix[p]] && *i == s[ix[p + 1]], "step"); j = i--; ensure(*j == s[ix[p + 1]] && *i == s[ix[p]], "step back"); }
void sq_pre(V s, V ix, size_t p) { require(p < big && ix.size() < big && s.size() < big && p + 1 < ix.size() && forall(0, ix.size(), [&](size_t j) { return ix[j] < s.size(); })); SQ i(s.begin(), ix.begin(), p); SQ& j = ++i; ensure(*j == s[ix[p + 1]] && i == j, "step"); SQ& k = --i; ensure(*k == s[ix[p]] && i == k, "step back"); }
void sq_copy(V s, V ix, size_t p) { require(p < big && ix.size() < big && s.size() < big && p + 1 < ix.size() && forall(0, ix.size(), [&](size_t j) { return ix[j] < s.size(); })); SQ i(s.begin(), ix.begin(), p); SQ g(i), h(s.begin(), ix.begin(), 0); h = i; ensure(g == i && h == i && *g == *i && *h == *i, "copies"); }
void vector_view(V s, size_t p, size_t n, size_t k) { require(s.size() < big && p < big && n < big && p + n <= s.size() && k < n); const VectorView<V, size_t> v(s, p, n); ensure(v.size() == n && v[k] == s[p + k], "entries"); VectorView<V, size_t> w(s); ensure(w.size() == 0, "empty"); w.assign(s, p, n); const VectorView<V, size_t>& cw = w; ensure(cw.size() == n && cw[k] == s[p + k], "assigned"); }
}
