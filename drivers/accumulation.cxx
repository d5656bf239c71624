#include <iostream>
#include <limits>
#include <vector>
#include "opengm/opengm.hxx"
#include "opengm/operations/adder.hxx"
#include "opengm/operations/multiplier.hxx"
#include "opengm/operations/minimizer.hxx"
#include "opengm/operations/maximizer.hxx"
#include "opengm/operations/integrator.hxx"
#include "opengm/utilities/accumulation.hxx"
#include "cv.hxx"
using namespace opengm;
using cv::require; using cv::ensure; using cv::forall;
typedef std::vector<size_t> Labels;
static const double inf = std::numeric_limits<double>::infinity();
template<class A> static bool has_labels(const A& a, const Labels& l) { return a.size() == l.size() && forall(0, l.size(), [&](size_t k) { return a.state(k) == l[k]; }); }
// fold of the operation over the first n values
namespace S {
double fold_min(const std::vector<double>& v, long n) { return n <= 0 ? std::numeric_limits<double>::infinity() : (v[n - 1] < fold_min(v, n - 1) ? v[n - 1] : fold_min(v, n - 1)); }
double fold_max(const std::vector<double>& v, long n) { return n <= 0 ? -std::numeric_limits<double>::infinity() : (v[n - 1] > fold_max(v, n - 1) ? v[n - 1] : fold_max(v, n - 1)); }
double fold_sum(const std::vector<double>& v, long n) { return n <= 0 ? 0.0 : v[n - 1] + fold_sum(v, n - 1); }
double fold_product(const std::vector<double>& v, long n) { return n <= 0 ? 1.0 : v[n - 1] * fold_product(v, n - 1); }
}
namespace H {
// every reachable state of an accumulation is the initial one or, as far as value and labels go, the one after a single
// better-than-neutral entry; one step from each of them is the whole history
void minimum_initial(Labels l) {
   Accumulation<double, size_t, Minimizer> a;
   ensure(a.value() == inf && a.neutral() == inf && a.size() == 0, "starts at the neutral element without labels");
}
void minimum_first(double v, Labels l) {
   require(v < inf);
   Accumulation<double, size_t, Minimizer> a;
   a(v, l);
   ensure(a.value() == v, "value"); ensure(has_labels(a, l), "labels attain the value");
}
void minimum_step(double v, Labels l, double w, Labels m) {
   require(v < inf && l.size() == m.size());
   Accumulation<double, size_t, Minimizer> a;
   a(v, l); a(w, m);
   ensure(a.value() == (w < v ? w : v), "value is the minimum");
   if(w < v) ensure(has_labels(a, m), "labels of the new minimum"); else ensure(has_labels(a, l), "labels of the old minimum stay");
}
void maximum_initial(Labels l) {
   Accumulation<double, size_t, Maximizer> a;
   ensure(a.value() == -inf && a.neutral() == -inf && a.size() == 0, "starts at the neutral element without labels");
}
void maximum_first(double v, Labels l) {
   require(v > -inf);
   Accumulation<double, size_t, Maximizer> a;
   a(v, l);
   ensure(a.value() == v, "value"); ensure(has_labels(a, l), "labels attain the value");
}
void maximum_step(double v, Labels l, double w, Labels m) {
   require(v > -inf && l.size() == m.size());
   Accumulation<double, size_t, Maximizer> a;
   a(v, l); a(w, m);
   ensure(a.value() == (w > v ? w : v), "value is the maximum");
   if(w > v) ensure(has_labels(a, m), "labels of the new maximum"); else ensure(has_labels(a, l), "labels of the old maximum stay");
}
void fast_sequence_labels(double v, Labels l, double w, Labels m) {
   require(v < inf && l.size() == m.size());
   FastSequence<size_t> fl, fm; fl.assign(l.begin(), l.end()); fm.assign(m.begin(), m.end());
   Accumulation<double, size_t, Minimizer> a;
   a(v, fl); a(w, fm);
   ensure(a.value() == (w < v ? w : v), "value is the minimum");
   if(w < v) ensure(has_labels(a, m), "labels of the new minimum"); else ensure(has_labels(a, l), "labels of the old minimum stay");
}
void label_output(double v, Labels l, Labels out) {
   require(v < inf);
   Accumulation<double, size_t, Minimizer> a;
   a(v, l);
   a.state(out);
   ensure(out.size() == l.size() && forall(0, l.size(), [&](size_t k) { return out[k] == l[k]; }), "labels are written out completely");
   FastSequence<size_t> fs; a.state(fs);
   ensure(fs.size() == l.size() && forall(0, l.size(), [&](size_t k) { return fs[k] == l[k]; }), "labels are written out completely (fast sequence)");
}
void clearing(double v, Labels l, double w, Labels m) {
   require(v < inf && w < inf);
   Accumulation<double, size_t, Minimizer> a;
   a(v, l); a.clear();
   ensure(a.value() == inf && a.size() == 0, "clear returns to the initial state");
   a(w, m);
   ensure(a.value() == w && has_labels(a, m), "accumulates afresh after clear");
}
void minimum_of_values(std::vector<double> v) {
   Accumulation<double, size_t, Minimizer> a;
   for(size_t i = 0; i < v.size(); ++i) a(v[i]);
   ensure(a.value() == S::fold_min(v, (long)v.size()), "minimum of all values");
}
void maximum_of_values(std::vector<double> v) {
   Accumulation<double, size_t, Maximizer> a;
   for(size_t i = 0; i < v.size(); ++i) a(v[i]);
   ensure(a.value() == S::fold_max(v, (long)v.size()), "maximum of all values");
}
void sum_of_values(std::vector<double> v) {
   Accumulation<double, size_t, Adder> a;
   for(size_t i = 0; i < v.size(); ++i) a(v[i]);
   ensure(cv::eq(a.value(), S::fold_sum(v, (long)v.size())), "sum of all values");
   Accumulation<double, size_t, Integrator> b;
   for(size_t i = 0; i < v.size(); ++i) b(v[i]);
   ensure(cv::eq(b.value(), S::fold_sum(v, (long)v.size())), "integral of all values");
}
void product_of_values(std::vector<double> v) {
   Accumulation<double, size_t, Multiplier> a;
   for(size_t i = 0; i < v.size(); ++i) a(v[i]);
   ensure(cv::eq(a.value(), S::fold_product(v, (long)v.size())), "product of all values");
}
}
