#include <iostream>
#include <limits>
#include <cmath>
#include <vector>
#include "opengm/opengm.hxx"
#include "opengm/operations/adder.hxx"
#include "opengm/operations/multiplier.hxx"
#include "opengm/operations/minimizer.hxx"
#include "opengm/operations/maximizer.hxx"
#include "opengm/operations/and.hxx"
#include "opengm/operations/or.hxx"
#include "opengm/operations/integrator.hxx"
#include "opengm/operations/logsumexp.hxx"
#include "opengm/operations/weightedoperations.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::eq;
namespace H {
void adder(double a, double b, double o) {
   double r = o; Adder::op(a, b, r); ensure(eq(r, a + b), "op");
   r = b; Adder::op(a, r); ensure(eq(r, b + a), "op in place");
   r = o; Adder::iop(a, b, r); ensure(eq(r, a - b), "iop");
   r = b; Adder::iop(a, r); ensure(eq(r, b - a), "iop in place");
   r = b; Adder::op(a, r); Adder::iop(a, r); ensure(eq(r, b), "iop undoes op");
   r = o; Adder::hop(a, b, r); ensure(eq(r, a * b), "hop");
   r = b; Adder::hop(a, r); ensure(eq(r, b * a), "hop in place");
   ensure(Adder::template neutral<double>() == 0.0, "neutral"); r = o; Adder::neutral(r); ensure(r == 0.0, "neutral by reference");
   ensure(Adder::template ineutral<double>() == 0.0, "ineutral"); r = o; Adder::ineutral(r); ensure(r == 0.0, "ineutral by reference");
   r = o; Adder::op(a, Adder::template neutral<double>(), r); ensure(eq(r, a), "neutral is neutral");
   r = a; Adder::iop(Adder::template ineutral<double>(), r); ensure(eq(r, a), "ineutral is neutral for iop");
   ensure(!Adder::hasbop(), "hasbop");
}
void adder_ihop(double a, double b, double o) {
   require(b != 0 && a != 0);
   double r = o; Adder::ihop(a, b, r); ensure(eq(r, a / b), "ihop");
   r = b; Adder::ihop(a, r); ensure(eq(r, b / a), "ihop in place");
   r = b; Adder::hop(a, r); Adder::ihop(a, r); ensure(eq(r, b), "ihop undoes hop");
}
void adder_int(int a, int b, int o) {
   require(a > -10000 && a < 10000 && b > -10000 && b < 10000);
   int r = o; Adder::op(a, b, r); ensure(r == a + b, "op");
   r = b; Adder::op(a, r); ensure(r == b + a, "op in place");
   r = o; Adder::iop(a, b, r); ensure(r == a - b, "iop");
   r = b; Adder::iop(a, r); ensure(r == b - a, "iop in place");
   ensure(Adder::template neutral<int>() == 0, "neutral"); r = o; Adder::neutral(r); ensure(r == 0, "neutral by reference");
}
void multiplier(double a, double b, double o) {
   double r = o; Multiplier::op(a, b, r); ensure(eq(r, a * b), "op");
   r = b; Multiplier::op(a, r); ensure(eq(r, b * a), "op in place");
   ensure(Multiplier::template neutral<double>() == 1.0, "neutral"); r = o; Multiplier::neutral(r); ensure(r == 1.0, "neutral by reference");
   ensure(Multiplier::template ineutral<double>() == 1.0, "ineutral"); r = o; Multiplier::ineutral(r); ensure(r == 1.0, "ineutral by reference");
   r = o; Multiplier::op(a, Multiplier::template neutral<double>(), r); ensure(eq(r, a), "neutral is neutral");
   r = a; Multiplier::iop(Multiplier::template ineutral<double>(), r); ensure(eq(r, a), "ineutral is neutral for iop");
   ensure(!Multiplier::hasbop(), "hasbop");
}
void multiplier_inverse(double a, double b, double o) {
   require(a != 0 && b != 0);
   double r = o; Multiplier::iop(a, b, r); ensure(eq(r, a / b), "iop");
   r = b; Multiplier::iop(a, r); ensure(eq(r, b / a), "iop in place");
   r = b; Multiplier::op(a, r); Multiplier::iop(a, r); ensure(eq(r, b), "iop undoes op");
}
void multiplier_power(double a, double b, double o) {
   require(a > 0 && b > 0);
   double r = o; Multiplier::hop(a, b, r); ensure(eq(r, std::pow(a, b)), "hop");
   r = b; Multiplier::hop(a, r); ensure(eq(r, std::pow(b, a)), "hop in place");
   r = o; Multiplier::ihop(a, b, r); ensure(eq(r, std::pow(a, 1.0 / b)), "ihop");
   r = b; Multiplier::ihop(a, r); ensure(eq(r, std::pow(b, 1.0 / a)), "ihop in place");
}
void integrator(double a, double b, double o) {
   double r = o; Integrator::op(a, b, r); ensure(eq(r, a + b), "op");
   r = b; Integrator::op(a, r); ensure(eq(r, b + a), "op in place");
   r = o; Integrator::iop(a, b, r); ensure(eq(r, a - b), "iop");
   r = b; Integrator::iop(a, r); ensure(eq(r, b - a), "iop in place");
   r = b; Integrator::op(a, r); Integrator::iop(a, r); ensure(eq(r, b), "iop undoes op");
   ensure(Integrator::template neutral<double>() == 0.0, "neutral"); r = o; Integrator::neutral(r); ensure(r == 0.0, "neutral by reference");
   r = o; Integrator::op(a, Integrator::template neutral<double>(), r); ensure(eq(r, a), "neutral is neutral");
   ensure(!Integrator::hasbop(), "hasbop"); ensure(!Integrator::bop(a, b), "bop"); ensure(!Integrator::ibop(a, b), "ibop");
}
void logsumexp(double a, double b, double o) {
   const double inf = std::numeric_limits<double>::infinity();
   require(a > -inf && a < inf && b > -inf && b < inf);
   double r = o; Logsumexp::op(a, b, r); ensure(eq(std::exp(r), std::exp(a) + std::exp(b)), "op");
   r = b; Logsumexp::op(a, r); ensure(eq(std::exp(r), std::exp(a) + std::exp(b)), "op in place");
   ensure(!Logsumexp::hasbop(), "hasbop"); ensure(!Logsumexp::bop(a, b), "bop"); ensure(!Logsumexp::ibop(a, b), "ibop");
}
void logsumexp_inverse(double a, double b, double o) {
   const double inf = std::numeric_limits<double>::infinity();
   require(a > -inf && a < inf && b > -inf && b < inf && std::exp(a) - std::exp(b) > 0);
   double r = o; Logsumexp::iop(a, b, r); ensure(eq(std::exp(r), std::exp(a) - std::exp(b)), "iop");
}
void logsumexp_neutral(double a, double o) {
   const double inf = std::numeric_limits<double>::infinity();
   require(a >= -inf && a < inf);
   ensure(Logsumexp::template neutral<double>() == -inf, "neutral"); double n = o; Logsumexp::neutral(n); ensure(n == -inf, "neutral by reference");
   double r = o; Logsumexp::op(a, n, r); ensure(eq(r, a), "neutral second operand");
   r = o; Logsumexp::op(n, a, r); ensure(eq(r, a), "neutral first operand");
   r = n; Logsumexp::op(a, r); ensure(eq(r, a), "in place on the neutral element");
   r = a; Logsumexp::op(n, r); ensure(eq(r, a), "in place with the neutral element");
}
void conjunction_bool(bool a, bool b, bool o) {
   bool r = o; And::op(a, b, r); ensure(r == (a && b), "op");
   r = b; And::op(a, r); ensure(r == (a && b), "op in place");
   ensure(And::template neutral<bool>() == true, "neutral"); r = o; And::neutral(r); ensure(r == true, "neutral by reference");
   ensure(And::hasbop(), "hasbop"); ensure(And::bop(a, b) == (a && b), "bop"); ensure(And::ibop(a, b) == !(a && b), "ibop");
}
void disjunction_bool(bool a, bool b, bool o) {
   bool r = o; Or::op(a, b, r); ensure(r == (a || b), "op");
   r = b; Or::op(a, r); ensure(r == (a || b), "op in place");
   ensure(Or::template neutral<bool>() == false, "neutral"); r = o; Or::neutral(r); ensure(r == false, "neutral by reference");
   ensure(Or::template ineutral<bool>() == true, "ineutral"); r = o; Or::ineutral(r); ensure(r == true, "ineutral by reference");
   ensure(Or::hasbop(), "hasbop"); ensure(Or::bop(a, b) == (a || b), "bop"); ensure(Or::ibop(a, b) == !(a || b), "ibop");
}
void conjunction_int(int a, int b, int o) {
   require((a == 0 || a == 1) && (b == 0 || b == 1));
   int r = o; And::op(a, b, r); ensure(r == ((a == 1 && b == 1) ? 1 : 0), "op");
   r = b; And::op(a, r); ensure(r == ((a == 1 && b == 1) ? 1 : 0), "op in place");
   ensure(And::template neutral<int>() == 1, "neutral"); r = o; And::neutral(r); ensure(r == 1, "neutral by reference");
   ensure(And::bop(a, b) == (a == 1 && b == 1), "bop"); ensure(And::ibop(a, b) == !(a == 1 && b == 1), "ibop");
}
void disjunction_int(int a, int b, int o) {
   require((a == 0 || a == 1) && (b == 0 || b == 1));
   int r = o; Or::op(a, b, r); ensure(r == ((a == 1 || b == 1) ? 1 : 0), "op");
   r = b; Or::op(a, r); ensure(r == ((a == 1 || b == 1) ? 1 : 0), "op in place");
   ensure(Or::template neutral<int>() == 0, "neutral"); r = o; Or::neutral(r); ensure(r == 0, "neutral by reference");
   ensure(Or::template ineutral<int>() == 1, "ineutral"); r = o; Or::ineutral(r); ensure(r == 1, "ineutral by reference");
   ensure(Or::bop(a, b) == (a == 1 || b == 1), "bop"); ensure(Or::ibop(a, b) == !(a == 1 || b == 1), "ibop");
}
void weighted(double a, double b, double w, double o) {
   double r = o; WeightedOperations::weightedMean<Adder>(a, b, w, r); ensure(eq(r, a * w + b * (1 - w)), "weighted mean");
   r = o; WeightedOperations::wop<Adder>(a, w, r); ensure(eq(r, o + a * w), "weighted operation");
   r = o; WeightedOperations::wiop<Adder>(a, w, r); ensure(eq(r, o - a * w), "weighted inverse operation");
}
void weighted_mean_in_place(double a, double b, double w) {
   WeightedOperations::weightedMean<Adder>(a, b, w, a); ensure(true, "first operand may be the target");
}
void weighted_inverse(double a, double w, double o) {
   require(w != 0);
   double r = o; WeightedOperations::iwop<Adder>(a, w, r); ensure(eq(r, o + a / w), "inverse weighted operation");
   r = o; WeightedOperations::iwiop<Adder>(a, w, r); ensure(eq(r, o - a / w), "inverse weighted inverse operation");
}
void weighted_multiplicative(double a, double b, double w, double o) {
   require(a > 0 && b > 0 && o > 0 && w > 0);
   double r = o; WeightedOperations::weightedMean<Multiplier>(a, b, w, r); ensure(eq(r, std::pow(a / b, w) * b), "weighted mean");
   r = o; WeightedOperations::wop<Multiplier>(a, w, r); ensure(eq(r, o * std::pow(a, w)), "weighted operation");
   r = o; WeightedOperations::wiop<Multiplier>(a, w, r); ensure(eq(r, o / std::pow(a, w)), "weighted inverse operation");
   r = o; WeightedOperations::iwop<Multiplier>(a, w, r); ensure(eq(r, o * std::pow(a, 1 / w)), "inverse weighted operation");
   r = o; WeightedOperations::iwiop<Multiplier>(a, w, r); ensure(eq(r, o / std::pow(a, 1 / w)), "inverse weighted inverse operation");
}
}
