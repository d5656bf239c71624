#include <vector>
#include "opengm/opengm.hxx"
#include "opengm/graphicalmodel/space/discretespace.hxx"
#include "opengm/graphicalmodel/space/simplediscretespace.hxx"
#include "opengm/graphicalmodel/space/static_simplediscretespace.hxx"
#include "opengm/graphicalmodel/space/grid_space.hxx"
#include "opengm/graphicalmodel/space/vector_view_space.hxx"
#include "opengm/graphicalmodel/space/viewspace.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall;
typedef std::vector<size_t> V;
// the label counts of a space are exactly those in v
template<class S> static bool is(const S& s, const V& v) { return s.numberOfVariables() == v.size() && forall(0, v.size(), [&](size_t k) { return s.numberOfLabels(k) == v[k]; }); }
// the space has n variables with l labels each
template<class S> static bool simple(const S& s, size_t n, size_t l) { return s.numberOfVariables() == n && forall(0, n, [&](size_t k) { return s.numberOfLabels(k) == l; }); }
static bool same(const V& v) { return forall(0, v.size(), [&](size_t k) { return v[k] == v[0]; }); }
typedef DiscreteSpace<size_t, size_t> D; typedef DiscreteSpace<unsigned, unsigned short> DS;
typedef SimpleDiscreteSpace<size_t, size_t> SI; typedef StaticSimpleDiscreteSpace<3, size_t, size_t> ST; typedef GridSpace<size_t, size_t> G; typedef VectorViewSpace<size_t, size_t> VV;
struct GM { typedef size_t IndexType; typedef size_t LabelType; typedef D SpaceType; D s; const D& space() const { return s; } };   // what ViewSpace needs of a model
typedef ViewSpace<GM> VS;
namespace H {
void discrete(V v, V w, size_t l, size_t m) {
   D e; ensure(e.numberOfVariables() == 0, "no variables");
   D s(v.begin(), v.end()); ensure(is(s, v), "from a sequence");
   ensure(s.isSimpleSpace() == same(v), "simple exactly if all counts are equal");
   ensure(s.addVariable(l) == v.size(), "index of the added variable"); ensure(s.numberOfVariables() == v.size() + 1 && s.numberOfLabels(v.size()) == l, "added variable");
   ensure(forall(0, v.size(), [&](size_t k) { return s.numberOfLabels(k) == v[k]; }), "other variables stay");
   s.reserve(m % 1000); ensure(s.numberOfVariables() == v.size() + 1 && s.numberOfLabels(v.size()) == l, "reserve changes nothing");
   D c(s); c.assign(w.begin(), w.end()); ensure(is(c, w), "assign"); ensure(s.numberOfVariables() == v.size() + 1, "copies are independent");
   c.assignDense(v.begin(), v.end()); ensure(is(c, v), "dense assignment"); c = s; ensure(c.numberOfVariables() == v.size() + 1 && c.numberOfLabels(v.size()) == l && forall(0, v.size(), [&](size_t k) { return c.numberOfLabels(k) == v[k]; }), "assignment"); }
void discrete_history(V v) {
   D s; size_t i = 0;
   cv::inductive([&]() { return i <= v.size() && s.numberOfVariables() == i && forall(0, i, [&](size_t k) { return s.numberOfLabels(k) == v[k]; }); });
   while(i < v.size()) { ensure(s.addVariable(v[i]) == i, "indices in order of addition"); ++i; }
   ensure(is(s, v), "all variables added"); }
void discrete_small(std::vector<unsigned short> v, unsigned short l) {
   require(v.size() < 1000000); DS s(v.begin(), v.end());
   ensure(s.numberOfVariables() == v.size() && forall(0, v.size(), [&](size_t k) { return s.numberOfLabels(k) == v[k]; }), "from a sequence");
   ensure(s.addVariable(l) == v.size() && s.numberOfVariables() == v.size() + 1 && s.numberOfLabels(v.size()) == l, "added variable");
   ensure(s.isSimpleSpace() == (forall(0, v.size(), [&](size_t k) { return v[k] == v[0]; }) && (v.size() == 0 || v[0] == l)), "simple exactly if all counts are equal"); }
void simple_space(size_t n, size_t l, size_t n2, size_t l2) {
   SI e; ensure(e.numberOfVariables() == 0, "no variables"); require(n < 1ul << 62);
   SI s(n, l); ensure(simple(s, n, l) && s.isSimpleSpace(), "built"); SI c(s);
   ensure(s.addVariable(l) == n, "index of the added variable"); ensure(simple(s, n + 1, l), "added variable"); ensure(simple(c, n, l), "copies are independent");
   s.assign(n2, l2); ensure(simple(s, n2, l2), "assign"); }
void simple_reject_variable(size_t n, size_t l, size_t m) {
   require(n < 1ul << 62); SI s(n, l); bool thrown = false;
   try { s.addVariable(m); } catch(...) { thrown = true; }
   ensure(thrown == (m != l), "another label count is rejected"); ensure(simple(s, thrown ? n : n + 1, l), "a rejected variable leaves the space unchanged"); }
void simple_dense(size_t n, size_t l, V v) {
   SI s(n, l); bool thrown = false;
   try { s.assignDense(v.begin(), v.end()); } catch(...) { thrown = true; }
   ensure(thrown == !same(v), "unequal label counts are rejected"); ensure(thrown ? simple(s, n, l) : is(s, v), "assigned, or rejected and unchanged"); }
void static_space(size_t n, size_t n2) {
   ST e; ensure(e.numberOfVariables() == 0, "no variables"); require(n < 1ul << 62);
   ST s(n); ensure(simple(s, n, 3) && s.isSimpleSpace(), "built"); ensure(s.addVariable(3) == n, "index of the added variable"); ensure(simple(s, n + 1, 3), "added variable"); s.assign(n2); ensure(simple(s, n2, 3), "assign"); }
void static_reject_variable(size_t n, size_t m) {
   require(n < 1ul << 62); ST s(n); bool thrown = false;
   try { s.addVariable(m); } catch(...) { thrown = true; }
   ensure(thrown == (m != 3), "another label count is rejected"); ensure(simple(s, thrown ? n : n + 1, 3), "a rejected variable leaves the space unchanged"); }
void static_dense(size_t n, V v) {
   ST s(n); bool thrown = false;
   try { s.assignDense(v.begin(), v.end()); } catch(...) { thrown = true; }
   ensure(thrown == !forall(0, v.size(), [&](size_t k) { return v[k] == 3; }), "other label counts are rejected"); ensure(simple(s, thrown ? n : v.size(), 3), "assigned, or rejected and unchanged"); }
void grid(size_t x, size_t y, size_t l, size_t x2, size_t y2, size_t l2) {
   require(x < 1ul << 31 && y < 1ul << 31 && x2 < 1ul << 31 && y2 < 1ul << 31);
   G e; ensure(e.numberOfVariables() == 0, "no variables");
   G s(x, y, l); ensure(s.dimX() == x && s.dimY() == y && s.numberOfLabels() == l && s.numberOfVariables() == x * y && s.isSimpleSpace(), "built"); ensure(forall(0, x * y, [&](size_t k) { return s.numberOfLabels(k) == l; }), "label counts");
   s.assign(x2, y2, l2); ensure(s.dimX() == x2 && s.dimY() == y2 && s.numberOfLabels() == l2 && s.numberOfVariables() == x2 * y2, "assigned"); }
void grid_reject(size_t x, size_t y, size_t l, size_t m) {
   require(x < 1ul << 31 && y < 1ul << 31); G s(x, y, l); bool thrown = false;
   try { s.addVariable(m); } catch(...) { thrown = true; }
   ensure(thrown && s.dimX() == x && s.dimY() == y && s.numberOfLabels() == l, "no variable can be added to a grid"); }
void vector_view(V v, size_t m) {
   VV s(v); ensure(is(s, v), "views the vector"); ensure(s.isSimpleSpace() == same(v), "simple exactly if all counts are equal"); bool thrown = false;
   try { s.addVariable(m); } catch(...) { thrown = true; }
   ensure(thrown && is(s, v), "no variable can be added to a view"); }
void view(V v, V w, size_t m) {
   GM gm; gm.s.assign(v.begin(), v.end()); VS s(gm); ensure(is(s, v), "views the space of the model"); ensure(s.isSimpleSpace() == same(v), "simple exactly if all counts are equal"); bool thrown = false;
   try { s.addVariable(m); } catch(...) { thrown = true; }
   ensure(thrown && is(s, v), "no variable can be added to a view");
   GM g2; g2.s.assign(w.begin(), w.end()); s.assign(g2); ensure(is(s, w), "assigned");
   VS e; e.assign(gm); ensure(is(e, v), "assigned"); }
}
