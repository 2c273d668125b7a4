// C26: exact rationals and resampling (examples/resample).
#include "model.h"

#include "array/image.h"

#include <algorithm>
#include <cmath>
#include <cstdlib>

#include "array/../../examples/resample/resample.h"

using namespace vh;

namespace {
using Rat = rational<nda::index_t>;

// ---------------------------------------------------------------- the model of rationals
struct Frac {
  __int128 n, d; // d > 0, in lowest terms
  static __int128 gcd(__int128 a, __int128 b) {
    if (a < 0) a = -a;
    while (b) {
      __int128 t = a % b;
      a = b;
      b = t;
    }
    return a;
  }
  Frac(__int128 n_, __int128 d_) : n(n_), d(d_) {
    if (d < 0) n = -n, d = -d;
    __int128 g = gcd(n, d);
    n /= g;
    d /= g;
  }
  long floor() const { return (long)(n >= 0 ? n / d : -((-n + d - 1) / d)); }
  long ceil() const { return -Frac(-n, d).floor(); }
  long round() const { return Frac(2 * n + d, 2 * d).floor(); }
};
template <class T>
void same(const rational<T>& r, const Frac& f, const char* what) {
  long n = (long)r.numerator(), d = (long)r.denominator();
  CHECK(d > 0, "%s: denominator %ld", what, d);
  CHECK(n == (long)f.n && d == (long)f.d, "%s: %ld/%ld, expected %ld/%ld", what, n, d, (long)f.n, (long)f.d);
  count("rationals_compared");
}
template <class T>
void rationals(Rng& R, long lim) {
  long an = R.range(-lim, lim), ad = R.range(1, lim), bn = R.range(-lim, lim), bd = R.range(1, lim), k = R.range(-lim, lim);
  if (R.chance(15)) bn = an * (bd = ad) / ad;
  if (R.chance(15)) an = ad * R.range(-3, 3);
  if (R.chance(10)) an = 0;
  desc("%ld/%ld, %ld/%ld, %ld", an, ad, bn, bd, k);
  nontrivial();
  rational<T> a((T)an, (T)ad), b((T)bn, (T)bd);
  Frac fa(an, ad), fb(bn, bd);
  rational<T> one0(1);
  same(a, fa, "a");
  same(b, fb, "b");
  same(rational<T>((T)k), Frac(k, 1), "k");
  same(rational<T>(), Frac(0, 1), "0");
  same(a + b, Frac(fa.n * fb.d + fb.n * fa.d, fa.d * fb.d), "a + b");
  same(a - b, Frac(fa.n * fb.d - fb.n * fa.d, fa.d * fb.d), "a - b");
  same(a * b, Frac(fa.n * fb.n, fa.d * fb.d), "a * b");
  if (fb.n > 0) same(a / b, Frac(fa.n * fb.d, fa.d * fb.n), "a / b");
  if (fb.n < 0) {
    rational<T> q = a / b;
    CHECK((__int128)q.numerator() * fa.d * fb.n == fa.n * fb.d * (__int128)q.denominator(), "a / b for a negative b has another value");
    CHECK(q * b == a && b / b == one0, "division by a negative is not the inverse of multiplication");
  }
  if (fa.n > 0) same((T)k / a, Frac(k * fa.d, fa.n), "k / a");
  same((T)k * a, Frac(k * fa.n, fa.d), "k * a");
  same((T)k + a, Frac(k * fa.d + fa.n, fa.d), "k + a");
  same((T)k - a, Frac(k * fa.d - fa.n, fa.d), "k - a");
  bool lt = fa.n * fb.d < fb.n * fa.d, eq = fa.n * fb.d == fb.n * fa.d;
  CHECK((a < b) == lt && (a >= b) == !lt, "< or >= is wrong");
  CHECK((a <= b) == (lt || eq) && (a > b) == !(lt || eq), "<= or > is wrong");
  CHECK((a == b) == eq && (a != b) == !eq, "== or != is wrong");
  same(min(a, b), lt ? fa : fb, "min");
  same(max(a, b), lt ? fb : fa, "max");
  CHECK_EQ(floor(a), fa.floor(), "floor");
  CHECK_EQ(ceil(a), fa.ceil(), "ceil");
  CHECK_EQ(round(a), fa.round(), "round");
  same(frac(a), Frac(fa.n - (__int128)fa.floor() * fa.d, fa.d), "frac");
  float want = (float)fa.n / (float)fa.d;
  CHECK(std::abs(to_float(a) - want) <= 1e-6f * std::abs(want), "to_float");
  // Field identities, exactly.
  rational<T> one(1), zero(0);
  CHECK(a + b == b + a && a * b == b * a && (a - b) + b == a && a * one == a && a + zero == a && a - a == zero, "field identities");
  if (fb.n > 0) CHECK((a / b) * b == a && b / b == one, "division is not the inverse of multiplication");
}
} // namespace
GROUP(rational_index, 20000, 400000) { rationals<nda::index_t>(R, R.pick<long>({3, 12, 100})); }
GROUP(rational_int, 5000, 100000) { rationals<int>(R, R.pick<long>({3, 12, 60})); }
GROUP(rational_grid, 1, 1) {
  desc("all small rationals");
  nontrivial();
  for (long n = -24; n <= 24; n++)
    for (long d = 1; d <= 12; d++) {
      rational<int> a((int)n, (int)d);
      Frac f(n, d);
      same(a, f, "small rational");
      CHECK_EQ(floor(a), f.floor(), "floor");
      CHECK_EQ(ceil(a), f.ceil(), "ceil");
      CHECK_EQ(round(a), f.round(), "round");
    }
  // Negative denominators: only the value as a quotient.
  for (long n = -12; n <= 12; n++)
    for (long d = -12; d <= -1; d++) {
      rational<int> a((int)n, (int)d);
      CHECK((long)a.numerator() * d == n * (long)a.denominator(), "rational(%ld, %ld) has another value", n, d);
      CHECK(a == rational<int>((int)-n, (int)-d), "rational(%ld, %ld) differs from its negation on both sides", n, d);
    }
}
PROBE(negative_denominator, "rational_negative_denominator") {
  // Comparisons of rationals with a negative denominator.
  rational<int> a(1, -2), zero(0);
  if (!(a < zero) || a > zero || !(a <= zero) || a >= zero) _exit(3);
}

// ---------------------------------------------------------------- resampling
namespace {
struct Kernel {
  const char* name;
  float (*fn)(float);
  bool interpolating;
  float edge; // where it is discontinuous, or 0
};
const Kernel Kernels[] = {{"box", nda::box, true, 0.5f}, {"linear", nda::linear, true, 0}, {"interpolating_quadratic", nda::interpolating_quadratic, true, 0},
    {"interpolating_cubic", nda::interpolating_cubic, true, 0}, {"quadratic_bspline", nda::quadratic_bspline, false, 0},
    {"cubic_bspline", nda::cubic_bspline, false, 0}, {"lanczos<1>", nda::lanczos<1>, true, 0}, {"lanczos<2>", nda::lanczos<2>, true, 0}, {"lanczos<3>", nda::lanczos<3>, true, 0}};

// Weights of one output coordinate, in double; ok is false where rounding decides whether a sample
// counts.
struct Weights {
  std::vector<double> w;
  bool ok = true;
};
Weights weights(long imin, long iext, long x, long rn, long rd, const Kernel& k) {
  // (x + 1/2)/rate - 1/2
  double pos = (double)((2 * x + 1) * rd - rn) / (double)(2 * rn);
  double scale = std::min(1.0, (double)rn / (double)rd);
  Weights r;
  double sum = 0;
  for (long i = 0; i < iext; i++) {
    double s = ((double)(imin + i) - pos) * scale;
    if (k.edge && std::abs(std::abs(s) - k.edge) < 1e-3) r.ok = false;
    double w = k.fn((float)s);
    r.w.push_back(w);
    sum += w;
  }
  for (double& w : r.w) w /= sum;
  return r;
}
template <class TOut, class SIn, class SOut>
void resample_case(Rng& R, const MShape& im, const MShape& om, long rnx, long rdx, long rny, long rdy, const Kernel& k, int content) {
  Arena<double> ia(im);
  Arena<TOut> oa(om);
  double constant = R.range(-20, 20) * 0.25;
  im.each([&](const Idx& i) { ia.base[im.offset(i)] = content == 0 ? constant : (double)R.range(-64, 64) / 8; });
  om.each([&](const Idx& i) { oa.base[om.offset(i)] = 1e6; });
  nda::array_ref<double, SIn> in(ia.base, from_mshape<SIn>(im));
  nda::array_ref<TOut, SOut> out(oa.base, from_mshape<SOut>(om));
  ia.protect();
  oa.protect();
  nda::resample(in.cref(), out, Rat((nda::index_t)rnx, (nda::index_t)rdx), Rat((nda::index_t)rny, (nda::index_t)rdy), k.fn);
  ia.unprotect();
  oa.unprotect();
  std::vector<Weights> wx, wy;
  for (long x = 0; x < om.d[0].ext; x++) wx.push_back(weights(im.d[0].min, im.d[0].ext, om.d[0].min + x, rnx, rdx, k));
  for (long y = 0; y < om.d[1].ext; y++) wy.push_back(weights(im.d[1].min, im.d[1].ext, om.d[1].min + y, rny, rdy, k));
  bool identity = k.interpolating && rnx == rdx && rny == rdy;
  // In y first, like any separable filter.
  std::vector<double> rows((size_t)(om.d[1].ext * im.d[0].ext));
  for (long c = om.d[2].min; c <= om.d[2].max(); c++) {
    for (long y = 0; y < om.d[1].ext; y++)
      for (long x = 0; x < im.d[0].ext; x++) {
        double s = 0;
        for (long i = 0; i < im.d[1].ext; i++)
          if (double w = wy[(size_t)y].w[(size_t)i]) s += w * ia.base[im.offset({im.d[0].min + x, im.d[1].min + i, c})];
        rows[(size_t)(y * im.d[0].ext + x)] = s;
      }
    for (long y = 0; y < om.d[1].ext; y++)
      for (long x = 0; x < om.d[0].ext; x++) {
        double s = 0;
        for (long i = 0; i < im.d[0].ext; i++) s += wx[(size_t)x].w[(size_t)i] * rows[(size_t)(y * im.d[0].ext + i)];
        Idx o{om.d[0].min + x, om.d[1].min + y, c};
        double got = (double)oa.base[om.offset(o)];
        if (content == 0) {
          CHECK(std::abs(got - constant) <= 1e-3 * (1 + std::abs(constant)), "a constant image of %g became %g at %s", constant, got, idx_str(o).c_str());
          count("constant_pixels");
        }
        if (identity && im.contains(o)) {
          CHECK(std::abs(got - ia.base[im.offset(o)]) <= 1e-3 * 8, "rate 1 changed %g to %g at %s", ia.base[im.offset(o)], got, idx_str(o).c_str());
          count("identity_pixels");
        }
        if (!wx[(size_t)x].ok || !wy[(size_t)y].ok) {
          count("pixels_decided_by_rounding");
          continue;
        }
        CHECK(std::abs(got - s) <= 5e-3 * 8, "pixel %s is %g, the separable filter gives %g", idx_str(o).c_str(), got, s);
        count("pixels_compared");
      }
  }
  ia.verify("input");
  oa.verify("output");
}
// A shape laid out like SIn/SOut in x, y, c order.
void lay_out(Rng& R, MShape& m, int kind) {
  if (kind == 0) { // planar
    m.d[0].str = 1;
    m.d[1].str = m.d[0].ext + (R.chance(30) ? R.range(1, 4) : 0);
    m.d[2].str = m.d[1].str * m.d[1].ext;
  } else if (kind == 1) { // chunky
    m.d[2].str = 1;
    m.d[0].str = m.d[2].ext;
    m.d[1].str = m.d[0].str * m.d[0].ext;
  } else { // any
    GenOpts o;
    gen_strides(R, m, o);
    if (m.d[0].str == 0) m.d[0].str = 1;
  }
}
// Output coordinates whose position is inside the input.
MDim out_dim(Rng& R, const MDim& in, long rn, long rd, long at_least, long at_most) {
  long lo = Frac((__int128)in.min * rn, rd).ceil(), hi = Frac((__int128)(in.max() + 1) * rn, rd).floor() - 1;
  MDim d;
  d.min = lo;
  d.ext = hi - lo + 1;
  if (d.ext > at_least) {
    long n = R.chance(50) ? R.range(at_least, std::min(d.ext, at_most)) : std::min(d.ext, at_most);
    d.min += R.range(0, d.ext - n);
    d.ext = n;
  }
  return d;
}
} // namespace
GROUP(resample, 80, 3000) {
  const Kernel& k = Kernels[I % 9];
  bool unit = R.chance(25);
  long rnx = unit ? 1 : R.range(1, 6), rdx = unit ? 1 : R.range(1, 6), rny = unit ? 1 : R.range(1, 6), rdy = unit ? 1 : R.range(1, 4);
  MShape im, om;
  im.d.resize(3);
  om.d.resize(3);
  im.d[0] = MDim{R.range(-20, 20), R.range(1, 14), 0};
  im.d[1] = MDim{R.range(-20, 20), (66 * rdy) / rny + 2 + R.range(0, 20), 0};
  im.d[2] = MDim{R.chance(60) ? 0 : R.range(-3, 3), R.range(1, 4), 0};
  om.d[0] = out_dim(R, im.d[0], rnx, rdx, 1, 20);
  om.d[1] = out_dim(R, im.d[1], rny, rdy, 64, 140);
  om.d[2] = im.d[2];
  if (om.d[0].ext < 1 || om.d[1].ext < 64) return;
  if (R.chance(30)) {
    om.d[2].ext = R.range(1, im.d[2].ext);
    om.d[2].min += R.range(0, im.d[2].ext - om.d[2].ext);
  }
  int ki = (int)R.below(3), ko = (int)R.below(3), content = (int)R.below(2);
  if (ki == 1 && im.d[2].min != 0) ki = 2;
  lay_out(R, im, ki);
  lay_out(R, om, ko);
  desc("%s rate %ld/%ld %ld/%ld from %s to %s %s", k.name, rnx, rdx, rny, rdy, im.str().c_str(), om.str().c_str(), content ? "random" : "constant");
  nontrivial();
  using P = nda::shape<nda::dense_dim<>, nda::dim<>, nda::dim<>>;
  using C = nda::shape<nda::dim<>, nda::dim<>, nda::dense_dim<>>;
  using A = nda::shape_of_rank<3>;
  int pick = ki == 0 ? (ko == 0 ? 0 : 1) : ki == 1 ? (ko == 1 ? 2 : 3) : 3;
  switch (pick) {
  case 0: resample_case<float, P, P>(R, im, om, rnx, rdx, rny, rdy, k, content); break;
  case 1: resample_case<float, P, A>(R, im, om, rnx, rdx, rny, rdy, k, content); break;
  case 2: resample_case<float, C, C>(R, im, om, rnx, rdx, rny, rdy, k, content); break;
  default: resample_case<float, A, A>(R, im, om, rnx, rdx, rny, rdy, k, content); break;
  }
}
HARNESS_MAIN
