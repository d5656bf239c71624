#include <vector>
#include <cstdlib>
#include <cstddef>
#include "opengm/datastructures/marray/marray.hxx"
#include "cv.hxx"
using cv::require; using cv::ensure; using cv::forall; using cv::exists;
typedef std::vector<size_t> V; typedef std::vector<double> W;
typedef marray::Marray<double> M; typedef marray::View<double, false> VW; typedef marray::View<double, true> CV_; typedef marray::Vector<double> MV;
static const size_t big = 1ul << 20;
static const marray::CoordinateOrder F = marray::FirstMajorOrder, L = marray::LastMajorOrder;
#define SH2 size_t n0, size_t n1, size_t a, size_t b
#define IN2 require(n0 > 0 && n1 > 0 && n0 < big && n1 < big && a < n0 && b < n1); size_t s[] = { n0, n1 }; 
#define SH3 size_t n0, size_t n1, size_t n2, size_t a, size_t b, size_t c
#define IN3 require(n0 > 0 && n1 > 0 && n2 > 0 && n0 < 4096 && n1 < 4096 && n2 < 4096 && a < n0 && b < n1 && c < n2); size_t s[] = { n0, n1, n2 };
namespace H {
void vector(size_t n, double x, size_t i, size_t j) { require(i < n && j < n && n < big); MV v(n, x); ensure(v.size() == n && v.dimension() == 1 && v.shape(0) == n && v[i] == x && v(i) == x, "filled"); v[i] = x + 1; ensure(v(j) == (i == j ? x + 1 : x) && v[j] == v(j), "written"); }
void vector_copy(size_t n, double x, size_t i, size_t m) { require(i < n && m > 0 && n < big && m < big); MV v(n, x); v[i] = x + 1; MV w(v); ensure(w.size() == n && w[i] == x + 1, "copy"); w[i] = x; ensure(v[i] == x + 1 && w[i] == x, "copies are separate"); MV u(m, 0.0); u = v; ensure(u.size() == n && u[i] == x + 1, "assigned"); u = u; ensure(u.size() == n && u[i] == x + 1, "assigned to itself"); }
void vector_resize(size_t n, size_t m, double x, double y, size_t i, size_t j) { require(i < n && j < m && n < big && m < big); MV v(n, x); v[i] = x + 1; v.resize(m, y); ensure(v.size() == m && v[j] == (j == i ? x + 1 : j < n ? x : y), "resizing keeps what fits"); }
void matrix(SH2, size_t c, size_t d, double x) { IN2 require(c < n0 && d < n1); M m(s, s + 2, x); ensure(m.size() == n0 * n1 && m.dimension() == 2 && m.shape(0) == n0 && m.shape(1) == n1, "shape");
   m(a, b) = x + 1; ensure(m(c, d) == (a == c && b == d ? x + 1 : x), "every coordinate has an element of its own"); size_t l[] = { c, d }; ensure(m(l) == m(c, d), "same for every kind of coordinates"); }
void matrix_order(SH2, size_t c, size_t d, double x) { IN2 require(c < n0 && d < n1); M m(s, s + 2, x, F); ensure(m.size() == n0 * n1 && m.coordinateOrder() == F, "shape");
   m(a, b) = x + 1; ensure(m(c, d) == (a == c && b == d ? x + 1 : x), "every coordinate has an element of its own"); ensure(m(a * n1 + b) == x + 1, "last coordinate fastest"); }
void matrix_index(SH2, double x) { IN2 M m(s, s + 2, x); m(a, b) = x + 1; ensure(m(a + n0 * b) == x + 1, "first coordinate fastest"); size_t l[] = { a, b }, i, o; m.coordinatesToIndex(l, i); m.coordinatesToOffset(l, o); ensure(i == a + n0 * b && o == i, "index and offset of coordinates"); m.indexToOffset(i, o); ensure(o == i, "offset of an index"); }
void matrix_coordinates(SH2) { IN2 M m(s, s + 2, 0.0); size_t l[2]; m.indexToCoordinates(a + n0 * b, l); ensure(l[0] == a && l[1] == b, "coordinates of an index"); }
void matrix_coordinates_order(SH2) { IN2 M m(s, s + 2, 0.0, F); size_t l[2]; m.indexToCoordinates(a * n1 + b, l); ensure(l[0] == a && l[1] == b, "coordinates of an index"); }
void cube(SH3, size_t d, size_t e, size_t f, double x) { IN3 require(d < n0 && e < n1 && f < n2); M m(s, s + 3, x); ensure(m.size() == n0 * n1 * n2 && m.dimension() == 3 && m.shape(0) == n0 && m.shape(1) == n1 && m.shape(2) == n2, "shape");
   m(a, b, c) = x + 1; ensure(m(d, e, f) == (a == d && b == e && c == f ? x + 1 : x), "every coordinate has an element of its own"); size_t l[] = { d, e, f }; ensure(m(l) == m(d, e, f), "same for every kind of coordinates"); }
void cube_index(SH3, double x) { IN3 M m(s, s + 3, x); m(a, b, c) = x + 1; const size_t k = a + n0 * b + n0 * n1 * c; ensure(m(k) == x + 1, "first coordinate fastest"); size_t l[] = { a, b, c }, i, o; m.coordinatesToIndex(l, i); m.coordinatesToOffset(l, o); ensure(i == k && o == k, "index and offset of coordinates"); }
void cube_index_order(SH3, double x) { IN3 M m(s, s + 3, x, F); m(a, b, c) = x + 1; const size_t k = c + n2 * b + n1 * n2 * a; ensure(m(k) == x + 1, "last coordinate fastest"); size_t l[] = { a, b, c }, i; m.coordinatesToIndex(l, i); ensure(i == k, "index of coordinates"); }
void cube_coordinates(SH3) { IN3 M m(s, s + 3, 0.0); size_t l[3]; m.indexToCoordinates(a + n0 * b + n0 * n1 * c, l); ensure(l[0] == a && l[1] == b && l[2] == c, "coordinates of an index"); }
void matrix_copy(SH2, double x, size_t m0, size_t m1) { IN2 require(m0 > 0 && m1 > 0 && m0 < big && m1 < big); M m(s, s + 2, x); m(a, b) = x + 1; M c(m); ensure(c.shape(0) == n0 && c.shape(1) == n1 && c(a, b) == x + 1, "copy"); c(a, b) = x; ensure(m(a, b) == x + 1, "copies are separate"); size_t t[] = { m0, m1 }; M d(t, t + 2, x); d = m; ensure(d.shape(0) == n0 && d.shape(1) == n1 && d.size() == n0 * n1 && d(a, b) == x + 1, "assigned"); }
void sub_view(SH2, size_t p, size_t q, double x) { IN2 size_t base[] = { p, q }, sub[] = { n0, n1 }; require(p < big && q < big); size_t t[] = { p + n0, q + n1 }; M m(t, t + 2, x); VW v = m.view(base, sub); ensure(v.dimension() == 2 && v.shape(0) == n0 && v.shape(1) == n1 && v.size() == n0 * n1, "shape of the sub-view"); v(a, b) = x + 1; ensure(m(p + a, q + b) == x + 1, "element of the sub-view");
   ensure(v(a + n0 * b) == x + 1, "element by index"); }
void transposed(SH2, double x) { IN2 M m(s, s + 2, x); VW v = m.transposedView(); ensure(v.shape(0) == n1 && v.shape(1) == n0 && v.size() == n0 * n1, "shape"); m(a, b) = x + 1; ensure(v(b, a) == x + 1, "element"); ensure(v(b + n1 * a) == x + 1, "element by index"); }
void permuted(SH3, double x) { IN3 M m(s, s + 3, x); size_t p[] = { 2, 0, 1 }; VW v = m.permutedView(p); ensure(v.shape(0) == n2 && v.shape(1) == n0 && v.shape(2) == n1 && v.size() == n0 * n1 * n2, "shape"); m(a, b, c) = x + 1; ensure(v(c, a, b) == x + 1, "element"); }
void swapped(SH3, double x) { IN3 M m(s, s + 3, x); VW v = m.transposedView(0, 2); ensure(v.shape(0) == n2 && v.shape(1) == n1 && v.shape(2) == n0, "shape"); m(a, b, c) = x + 1; ensure(v(c, b, a) == x + 1, "element"); }
void shifted(SH3, double x) { IN3 M m(s, s + 3, x); VW v = m.shiftedView(1); ensure(v.shape(0) == n2 && v.shape(1) == n0 && v.shape(2) == n1, "shape"); m(a, b, c) = x + 1; ensure(v(c, a, b) == x + 1, "element"); VW w = m.shiftedView(-1); ensure(w.shape(0) == n1 && w.shape(1) == n2 && w.shape(2) == n0 && w(b, c, a) == x + 1, "shifted back"); }
void bound(SH3, double x) { IN3 M m(s, s + 3, x); m(a, b, c) = x + 1; VW v = m.boundView(1, b); ensure(v.dimension() == 2 && v.shape(0) == n0 && v.shape(1) == n2 && v.size() == n0 * n2 && v(a, c) == x + 1, "one coordinate fixed"); VW u = m.boundView(0, a); ensure(u.shape(0) == n1 && u.shape(1) == n2 && u(b, c) == x + 1, "first coordinate fixed"); VW w = m.boundView(2, c); ensure(w.shape(0) == n0 && w.shape(1) == n1 && w(a, b) == x + 1, "last coordinate fixed"); }
void squeezed(size_t n, size_t m, size_t a, size_t b, double x) { require(n > 1 && m > 1 && n < big && m < big && a < n && b < m); size_t s[] = { n, 1, m }; M r(s, s + 3, x); r(a, 0, b) = x + 1; VW v = r.squeezedView(); ensure(v.dimension() == 2 && v.shape(0) == n && v.shape(1) == m && v(a, b) == x + 1, "without the coordinate of one label"); }
void reshaped(SH2, double x) { IN2 size_t l[] = { n0 * n1 }, t[] = { n1, n0 }; M m(s, s + 2, x); m(a, b) = x + 1; VW v = m.reshapedView(l, l + 1); ensure(v.dimension() == 1 && v.shape(0) == n0 * n1 && v(a + n0 * b) == x + 1, "same order of elements"); }
void scalar(double x) { M m(x); ensure(m.size() == 1 && m.dimension() == 0 && m(0) == x, "one element"); M c(m); ensure(c(0) == x, "copy"); }
void iterate(SH2, double x) { IN2 M m(s, s + 2, x); m(a, b) = x + 1; M::iterator i = m.begin() + (a + n0 * b); ensure(*i == x + 1 && i.index() == a + n0 * b, "element after as many steps"); M::iterator j = m.begin(); ensure(i - j == (long)(a + n0 * b), "distance"); ensure(m.end() - i == (long)(n0 * n1 - (a + n0 * b)), "distance to the end"); }
void fill(SH2, double x, double y) { IN2 M m(s, s + 2, x); m = y; ensure(m(a, b) == y && m.size() == n0 * n1, "filled"); }
void add_number(SH2, double x, double y) { IN2 M m(s, s + 2, x); m += y; ensure(m(a, b) == x + y, "sum"); }
void add_matrix(SH2, double x, double y) { IN2 M m(s, s + 2, x), d(s, s + 2, y); m(a, b) = x + 1; m += d; ensure(m(a, b) == x + 1 + y && d(a, b) == y, "sum"); }
void const_view(SH2, double x) { IN2 M m(s, s + 2, x); m(a, b) = x + 1; const M& c = m; CV_ v = c.transposedView(); ensure(v(b, a) == x + 1, "element"); ensure(c(a, b) == x + 1 && c(a + n0 * b) == x + 1, "element"); }
void steps(SH2, double x) { IN2 M m(s, s + 2, x); m(a, b) = x + 1; M::iterator i = m.begin() + (a + n0 * b); ++i; --i; ensure(*i == x + 1, "back and forth"); i -= (long)(a + n0 * b); ensure(i == m.begin(), "back at the beginning"); ensure(m.begin()[a + n0 * b] == x + 1, "element"); }
void order4(size_t n0, size_t n1, size_t n2, size_t n3, size_t a, size_t b, size_t c, size_t d, size_t e, size_t f, size_t g, size_t h, double x) { require(n0 < 1024 && n1 < 1024 && n2 < 1024 && n3 < 1024 && a < n0 && b < n1 && c < n2 && d < n3 && e < n0 && f < n1 && g < n2 && h < n3); size_t s[] = { n0, n1, n2, n3 }; M m(s, s + 4, x); m(a, b, c, d) = x + 1; ensure(m(e, f, g, h) == (a == e && b == f && c == g && d == h ? x + 1 : x), "every coordinate has an element of its own"); ensure(m.size() == n0 * n1 * n2 * n3, "size"); }
void reshape_keep(SH2, double x) { IN2 M m(s, s + 2, x); m(a, b) = x + 1; size_t t[] = { n1, n0 }; m.reshape(t, t + 2); ensure(m.shape(0) == n1 && m.shape(1) == n0 && m(a + n0 * b) == x + 1, "same order of elements"); }
}
