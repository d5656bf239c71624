#include <vector>
#include <cstdlib>
#include <cstddef>
#include <string>
#include <map>
#include <algorithm>
#include "opengm/opengm.hxx"
#include "opengm/functions/function_properties_base.hxx"
#include "opengm/datastructures/randomaccessset.hxx"
#include "opengm/functions/learnable/lpotts.hxx"
#define protected public   // contracts speak about the representation; the code itself is the same text
#include "opengm/functions/learnable/lunary.hxx"
#undef protected
#include "cv.hxx"
using cv::require; using cv::ensure; using cv::forall; using cv::exists; using cv::implies;
typedef std::vector<size_t> V; typedef std::vector<double> W;
typedef opengm::learning::Weights<double> WT;
typedef opengm::functions::learnable::LPotts<double> LP; typedef opengm::functions::learnable::LUnary<double, size_t, size_t> LU;
static const size_t big = 1ul << 20;
// weights with the given values
#define WEIGHTS(w) WT w(vals.size()); for(size_t i = 0; i < vals.size(); ++i) w.setWeight(i, vals[i]);
#define IDS require(vals.size() > 0 && vals.size() < big && ids.size() < big && feat.size() == ids.size() && forall(0, ids.size(), [&](size_t j) { return ids[j] < vals.size(); }));
namespace S {
// sum of weight times feature of the first k entries, the weights starting at entry a, the features at b
double wsum(const W& vals, const V& ids, const W& feat, size_t a, size_t b, size_t k) { return k == 0 ? 0.0 : wsum(vals, ids, feat, a, b, k - 1) + vals[ids[a + (k - 1)]] * feat[b + (k - 1)]; }
}
namespace H {
void weights(W vals, size_t k, double y, size_t j) { require(vals.size() > 0 && vals.size() < big && k < vals.size() && j < vals.size()); WEIGHTS(w)
   ensure(w.numberOfWeights() == vals.size() && w.getWeight(k) == vals[k] && w[k] == vals[k], "weights"); w.setWeight(k, y); ensure(w.getWeight(j) == (j == k ? y : vals[j]), "one weight changed"); }
void potts(size_t n, W vals, V ids, W feat, size_t a, size_t b) { IDS require(a < n && b < n); WEIGHTS(w)
   cv::inductive([&](size_t i, double v) { return v == (a != b ? S::wsum(vals, ids, feat, 0, 0, i) : 0.0); });
   const LP f(w, n, ids, feat); size_t l[] = { a, b };
   ensure(cv::eq(f(l), a != b ? S::wsum(vals, ids, feat, 0, 0, ids.size()) : 0.0), "weighted sum of the features where the labels differ"); }
void potts_identity(size_t n, W vals, V ids, W feat, size_t a, size_t b, size_t k) { IDS require(a < n && b < n && k < ids.size()); WEIGHTS(w)
   const LP f(w, n, ids, feat); size_t l[] = { a, b };
   ensure(f.numberOfWeights() == ids.size() && f.weightIndex(k) == ids[k], "weights of the function"); ensure(f.weightGradient(k, l) == (a != b ? feat[k] : 0.0), "gradient");
   ensure(f.dimension() == 2 && f.shape(0) == n && f.shape(1) == n, "shape"); }
void potts_linear(size_t n, W vals, V ids, W feat, size_t a, size_t b) { IDS require(a < n && b < n); WEIGHTS(w)
   cv::inductive([&](size_t i, double v) { return v == (a != b ? S::wsum(vals, ids, feat, 0, 0, i) : 0.0); });
   const LP f(w, n, ids, feat); size_t l[] = { a, b }; double t = 0;
   for(size_t i = 0; i < f.numberOfWeights(); ++i) t += w.getWeight(f.weightIndex(i)) * f.weightGradient(i, l);
   ensure(cv::eq(f(l), t), "sum over the weights of weight times gradient"); }
void potts_change(size_t n, W vals, V ids, W feat, size_t a, size_t b, size_t k, double y) { IDS require(a < n && b < n && k < vals.size() && forall(0, ids.size(), [&](size_t j) { return ids[j] != k; })); WEIGHTS(w)
   cv::inductive([&](size_t i, double v) { return v == (a != b ? S::wsum(vals, ids, feat, 0, 0, i) : 0.0); });
   const LP f(w, n, ids, feat); size_t l[] = { a, b }; double x = f(l); w.setWeight(k, y); ensure(f(l) == x, "weights of other functions do not matter"); }
void potts_setWeights(size_t n, W vals, V ids, W feat, size_t a, size_t b) { IDS require(a < n && b < n); WEIGHTS(w)
   cv::inductive([&](size_t i, double v) { return v == (a != b ? S::wsum(vals, ids, feat, 0, 0, i) : 0.0); });
   LP f(n, ids, feat); f.setWeights(w); size_t l[] = { a, b };
   ensure(cv::eq(f(l), a != b ? S::wsum(vals, ids, feat, 0, 0, ids.size()) : 0.0), "weights given later"); }
// unary functions: the entry of label l has o[l] weights, from weight o[n + l] and feature o[2 * n + l] on; any such function
#ifdef CV_NATIVE
#define ENTRIES n %= 5; o.clear(); { size_t r = ids.size() + 3, w = 0; for(size_t i = 0; i < n; ++i) o.push_back((r = r * 7 + 3) % 4); for(size_t i = 0; i < n; ++i) { o.push_back(w); w += o[i]; } for(size_t i = 0; i < n; ++i) o.push_back(n % 2 ? o[n + i] : 0); ids.resize(w); feat.resize(w + 4, 0.5); for(size_t i = 0; i < w; ++i) ids[i] = vals.empty() ? 0 : (i * 5 + r) % vals.size(); }
#else
#define ENTRIES
#endif
#define UNARY ENTRIES require(vals.size() > 0 && vals.size() < big && ids.size() < big && feat.size() < big && n < big && o.size() == 3 * n && l < n && forall(0, ids.size(), [&](size_t j) { return ids[j] < vals.size(); }) && o[l] < big && o[n + l] < big && o[2 * n + l] < big && o[n + l] + o[l] <= ids.size() && o[2 * n + l] + o[l] <= feat.size()); WEIGHTS(w) \
   LU f; f.numberOfLabels_ = n; f.offsets_ = o; f.weightIds_ = ids; f.features_ = feat; f.setWeights(w); size_t lab[] = { l };
#define PART(v, i) v == S::wsum(vals, ids, feat, o[n + l], o[2 * n + l], i)
void unary(size_t n, size_t l, V o, W vals, V ids, W feat) { UNARY cv::inductive([&](size_t i, double v) { return PART(v, i); });
   ensure(cv::eq(f(lab), S::wsum(vals, ids, feat, o[n + l], o[2 * n + l], o[l])), "weighted sum of the features of the label"); ensure(f.dimension() == 1 && f.shape(0) == n && f.size() == n, "shape"); }
void unary_gradient(size_t n, size_t l, V o, W vals, V ids, W feat, size_t k) { UNARY require(k < ids.size()); ensure(f.numberOfWeights() == ids.size() && f.weightIndex(k) == ids[k], "weights of the function");
   ensure(f.weightGradient(k, lab) == (o[n + l] <= k && k < o[n + l] + o[l] ? feat[o[2 * n + l] + (k - o[n + l])] : 0.0), "gradient"); }
void unary_change(size_t n, size_t l, V o, W vals, V ids, W feat, size_t k, double y) { UNARY require(k < vals.size() && forall(0, ids.size(), [&](size_t j) { return ids[j] != k; })); cv::inductive([&](size_t i, double v) { return PART(v, i); });
   double x = f(lab); w.setWeight(k, y); ensure(f(lab) == x, "weights of other functions do not matter"); }
// the constructor from an array of weights per label and common features
void unary_create(size_t n, size_t d, bool first, W vals, size_t l, size_t i) { require(n > 0 && n < 4096 && d == 2 && l < n && i < d && vals.size() > 0 && vals.size() < big); WEIGHTS(w)
   size_t s[] = { n, d }, e[] = { d }; marray::Marray<size_t> m(s, s + 2, size_t(0)); marray::Marray<double> fm(e, e + 1, 0.0); m(l, i) = 1; fm(i) = 2;
   const size_t N = n + (first ? 1 : 0), a = l + (first ? 1 : 0);
   cv::inductive([&](size_t i, size_t v) { return v == (i - (first ? 1 : 0)) * d; });
   const LU f(w, N, m, fm, first);
   ensure(f.numberOfLabels_ == N && f.offsets_.size() == 3 * N && f.features_.size() == d && f.features_[i] == 2.0, "shape");
   ensure(f.offsets_[a] == d && f.offsets_[2 * N + a] == 0, "features of the label"); }
}
