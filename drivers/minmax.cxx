#define CV_INFINITIES   // executed contracts: arguments may be infinite
#include <iostream>
#include <limits>
#include "opengm/opengm.hxx"
#include "opengm/operations/minimizer.hxx"
#include "opengm/operations/maximizer.hxx"
#include "opengm/operations/adder.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure;
// IEEE double precision, all values including infinities (not-a-number excluded)
namespace H {
void minimizer(double a, double b, double o) {
   require(a == a && b == b);
   const double inf = std::numeric_limits<double>::infinity();
   double lo = a < b ? a : b, hi = a < b ? b : a;
   double r = o; Minimizer::op(a, b, r); ensure(r == lo, "op");
   r = b; Minimizer::op(a, r); ensure(r == lo, "op in place");
   r = o; Minimizer::iop(a, b, r); ensure(r == hi, "iop");
   r = b; Minimizer::iop(a, r); ensure(r == hi, "iop in place");
   ensure(Minimizer::template neutral<double>() == inf, "neutral"); r = o; Minimizer::neutral(r); ensure(r == inf, "neutral by reference");
   ensure(Minimizer::template ineutral<double>() == -inf, "ineutral"); r = o; Minimizer::ineutral(r); ensure(r == -inf, "ineutral by reference");
   r = a; Minimizer::op(Minimizer::template neutral<double>(), r); ensure(r == a, "neutral is neutral");
   r = a; Minimizer::iop(Minimizer::template ineutral<double>(), r); ensure(r == a, "ineutral is neutral for iop");
   ensure(Minimizer::hasbop(), "hasbop"); ensure(Minimizer::bop(a, b) == (a < b), "better-than"); ensure(Minimizer::ibop(a, b) == (a > b), "worse-than");
   ensure(!(Minimizer::bop(a, b) && Minimizer::ibop(a, b)), "not both better and worse");
   r = o; Minimizer::op(a, b, r); ensure(!Minimizer::bop(a, r) && !Minimizer::bop(b, r) && (r == a || r == b), "result is an operand no operand is better than");
}
void maximizer(double a, double b, double o) {
   require(a == a && b == b);
   const double inf = std::numeric_limits<double>::infinity();
   double lo = a < b ? a : b, hi = a < b ? b : a;
   double r = o; Maximizer::op(a, b, r); ensure(r == hi, "op");
   r = b; Maximizer::op(a, r); ensure(r == hi, "op in place");
   r = o; Maximizer::iop(a, b, r); ensure(r == lo, "iop");
   r = b; Maximizer::iop(a, r); ensure(r == lo, "iop in place");
   ensure(Maximizer::template neutral<double>() == -inf, "neutral"); r = o; Maximizer::neutral(r); ensure(r == -inf, "neutral by reference");
   ensure(Maximizer::template ineutral<double>() == inf, "ineutral"); r = o; Maximizer::ineutral(r); ensure(r == inf, "ineutral by reference");
   r = a; Maximizer::op(Maximizer::template neutral<double>(), r); ensure(r == a, "neutral is neutral");
   r = a; Maximizer::iop(Maximizer::template ineutral<double>(), r); ensure(r == a, "ineutral is neutral for iop");
   ensure(Maximizer::hasbop(), "hasbop"); ensure(Maximizer::bop(a, b) == (a > b), "better-than"); ensure(Maximizer::ibop(a, b) == (a < b), "worse-than");
   r = o; Maximizer::op(a, b, r); ensure(!Maximizer::bop(a, r) && !Maximizer::bop(b, r) && (r == a || r == b), "result is an operand no operand is better than");
}
void minimizer_float(float a, float b, float o) {
   require(a == a && b == b);
   const float inf = std::numeric_limits<float>::infinity();
   float lo = a < b ? a : b, hi = a < b ? b : a;
   float r = o; Minimizer::op(a, b, r); ensure(r == lo, "op"); r = b; Minimizer::op(a, r); ensure(r == lo, "op in place");
   r = o; Minimizer::iop(a, b, r); ensure(r == hi, "iop"); r = b; Minimizer::iop(a, r); ensure(r == hi, "iop in place");
   r = a; Minimizer::op(Minimizer::template neutral<float>(), r); ensure(r == a, "neutral is neutral");
   r = o; Maximizer::op(a, b, r); ensure(r == hi, "max op"); r = b; Maximizer::op(a, r); ensure(r == hi, "max op in place");
   r = o; Maximizer::iop(a, b, r); ensure(r == lo, "max iop"); r = b; Maximizer::iop(a, r); ensure(r == lo, "max iop in place");
   r = a; Maximizer::op(Maximizer::template neutral<float>(), r); ensure(r == a, "max neutral is neutral");
}
void integers_compare(int a, int b, int o) {
   int r = o; Minimizer::op(a, b, r); ensure(r == (a < b ? a : b), "min op"); r = b; Minimizer::op(a, r); ensure(r == (a < b ? a : b), "min op in place");
   r = o; Maximizer::op(a, b, r); ensure(r == (a < b ? b : a), "max op"); r = b; Maximizer::op(a, r); ensure(r == (a < b ? b : a), "max op in place");
   ensure(Minimizer::bop(a, b) == (a < b), "min bop"); ensure(Maximizer::bop(a, b) == (a > b), "max bop");
}
}
