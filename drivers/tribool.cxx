#include <iostream>
#include "opengm/utilities/tribool.hxx"
#include "cv.hxx"
using opengm::Tribool;
using cv::require; using cv::ensure;
// model of a three-valued value, observed only through its public interface
static int obs(const Tribool& t) { return t.maybe() ? -1 : (t == true) ? 1 : (t == false) ? 0 : 7; }
static Tribool arb() { int s = cv::any<int>(); require(s >= -1 && s <= 1); return Tribool(static_cast<Tribool::State>(s)); }
namespace H {
void observations(int s) {
   require(s >= -1 && s <= 1);
   Tribool t(static_cast<Tribool::State>(s));
   ensure(t.maybe() == (s == -1), "maybe");
   ensure((t == true) == (s == 1), "equals true");
   ensure((t == false) == (s == 0), "equals false");
   ensure(static_cast<bool>(t) == (s == 1), "conversion to Boolean");
   ensure((!t) == (s == 0), "negation is definite falsehood");
   ensure((t == Tribool::True) == (s == 1), "equals True");
   ensure((t == Tribool::False) == (s == 0), "equals False");
   ensure((t == Tribool::Maybe) == (s == -1), "equals Maybe");
}
void default_is_undetermined() { Tribool t; ensure(obs(t) == -1, "default value"); }
void from_bool(bool b) { Tribool t(b); ensure(obs(t) == (b ? 1 : 0), "constructed from Boolean"); Tribool u; u = b; ensure(obs(u) == (b ? 1 : 0), "assigned Boolean"); }
void from_int(int i) { int w = i == -1 ? -1 : i != 0 ? 1 : 0; Tribool t(i); ensure(obs(t) == w, "constructed from integer"); Tribool u(true); u = i; ensure(obs(u) == w, "assigned integer"); Tribool v; v = i; ensure(obs(v) == w, "assigned integer"); ensure(t == i || (i < -1 || i > 1), "equals its integer"); }
void from_size_t(size_t i) { Tribool t(i); require(i < 2147483648u); ensure(obs(t) == (i != 0 ? 1 : 0), "constructed from unsigned"); }
void from_state(int s) { require(s >= -1 && s <= 1); Tribool u(true); u = static_cast<Tribool::State>(s); ensure(obs(u) == s, "assigned state"); }
void equality_with_bool(bool b) { Tribool t = arb(); ensure((t == b) == (obs(t) == (b ? 1 : 0)), "equality with Boolean"); ensure((t != b) == !(t == b), "inequality with Boolean negates equality"); }
void equality_with_tribool() { Tribool t = arb(), u = arb(); ensure((t == u) == (obs(t) == obs(u)), "equality of two values"); ensure((t != u) == !(t == u), "inequality of two values negates equality"); }
void equality_with_int(int i) { Tribool t = arb(); ensure((t == i) == (obs(t) == i), "equality with integer"); }
void copy_and_assign() { Tribool t = arb(), u = arb(); Tribool c(t); ensure(obs(c) == obs(t), "copy"); Tribool& r = (u = t); ensure(obs(u) == obs(t), "assignment"); ensure(&r == &u, "assignment returns its target"); u = u; ensure(obs(u) == obs(t), "self-assignment"); }
void conjunctive_update(int s) {
   require(s >= -1 && s <= 1);
   Tribool t = arb(); int o = obs(t);
   t &= static_cast<Tribool::State>(s);
   ensure(obs(t) == (s == 0 ? 0 : s == 1 ? (o == 0 ? 0 : 1) : o), "conjunctive update: false absorbs, true settles an undetermined value, an undetermined operand changes nothing");
}
}
