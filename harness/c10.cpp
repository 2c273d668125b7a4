// C10: equality is exact.
#include "model.h"
#include "types.h"
#include <cmath>
using namespace vh;

static GenOpts opts(Rng& R) {
  GenOpts o;
  o.allow_empty = R.chance(15);
  o.max_size = 300;
  o.pad_percent = R.pick<int>({0, 20, 40});
  return o;
}

// Equal only if both fields are; only != and == exist.
struct Pair {
  int32_t a = 0, b = 0;
  Pair() = default;
  Pair(long k) : a((int32_t)k), b((int32_t)(k * 3)) {}
  bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
  bool operator!=(const Pair& o) const { return !(*this == o); }
};
template <class T>
void change(T& x, Rng& R) {
  // The smallest differences.
  x = R.chance(50) ? (T)(x + 1) : (T)(x ^ (T)((T)1 << R.below(sizeof(T) * 8 - 1)));
}
static void change(double& x, Rng& R) { x = R.chance(50) ? std::nextafter(x, 1e300) : -x - 1; }
static void change(Pair& x, Rng& R) { (R.chance(50) ? x.a : x.b)++; }

template <class A, class B>
void expect_equal(const char* what, const A& a, const B& b, bool want) {
  CHECK(nda::equal(a, b) == want, "equal() is %d: %s", !want, what);
  CHECK(nda::equal(b, a) == want, "equal() with swapped arguments is %d: %s", !want, what);
  count(want ? "equal_true" : "equal_false");
}
template <class A>
void expect_op(const char* what, const A& a, const A& b, bool want) {
  CHECK((a == b) == want, "operator== is %d: %s", !want, what);
  CHECK((a != b) == !want, "operator!= is %d: %s", want, what);
  CHECK((b == a) == want && (b != a) == !want, "operators with swapped arguments: %s", what);
  count(want ? "op_equal" : "op_not_equal");
}

// a and b have the same bounds, any layouts.
template <class TA, class TB, class SA, class SB>
void pair_case(Rng& R, const MShape& ma, const MShape& mb) {
  desc("%s vs %s", ma.str().c_str(), mb.str().c_str());
  if (ma.size() > 0) nontrivial();
  SA sa = from_mshape<SA>(ma);
  SB sb = from_mshape<SB>(mb);
  Arena<TA> aa(ma);
  Arena<TB> ab(mb);
  ma.each([&](const Idx& i) {
    new (aa.base + ma.offset(i)) TA((TA)(ma.offset(i) % 100));
    new (ab.base + mb.offset(i)) TB((TB)(ma.offset(i) % 100));
  });
  aa.protect();
  ab.protect();
  nda::array_ref<TA, SA> ra(aa.base, sa);
  nda::array_ref<TB, SB> rb(ab.base, sb);
  nda::array<TA, SA> oa(sa);
  nda::array<TB, SB> ob(sb);
  nda::copy(ra, oa);
  nda::copy(rb, ob);
  expect_equal("same contents", ra, rb, true);
  expect_equal("same contents", ra.cref(), rb, true);
  expect_equal("same contents", oa, ob, true);
  expect_equal("same contents", oa, rb, true);
  expect_equal("same contents", ra, ob.cref(), true);
  expect_equal("itself", ra, ra, true);
  expect_op("copy", oa, nda::array<TA, SA>(oa), true);
  expect_op("itself", ra, ra, true);
  expect_op("itself", oa, oa, true);
  if (!ma.empty()) {
    // A difference in one element, anywhere (first, last and random positions).
    std::vector<Idx> at = ma.indices();
    std::vector<size_t> where = {0, at.size() - 1, (size_t)R.below((long)at.size()), (size_t)R.below((long)at.size())};
    if (at.size() <= 12)
      for (size_t k = 0; k < at.size(); k++) where.push_back(k);
    for (size_t w : where) {
      TB& x = ab.base[mb.offset(at[w])];
      TB& y = call_idx<SB::rank()>(ob, at[w]);
      TB keep = x;
      change(x, R);
      y = x;
      if (x != keep) {
        expect_equal("one element differs", ra, rb, false);
        expect_equal("one element differs", oa, ob, false);
        expect_equal("one element differs", ra, ob, false);
        expect_equal("one element differs", oa, rb, false);
        nda::array<TB, SB> oc(ob);
        expect_op("copy", ob, oc, true);
        call_idx<SB::rank()>(oc, at[w]) = keep;
        expect_op("one element differs", ob, oc, false);
        expect_op("one element differs", ob.cref(), oc.cref(), false);
        expect_op("one element differs", ob.ref(), oc.ref(), false);
      }
      x = y = keep;
    }
    // A difference in every element, and one in two elements whose differences cancel.
    if (at.size() >= 2) {
      TB& x = ab.base[mb.offset(at[0])];
      TB& y = ab.base[mb.offset(at[at.size() - 1])];
      if (x != y) {
        std::swap(x, y);
        expect_equal("two elements exchanged", ra, rb, false);
        std::swap(x, y);
      }
    }
    expect_equal("restored", ra, rb, true);
  }
  // Padding never matters: change what the shape does not address.
  aa.unprotect();
  ab.unprotect();
  for (size_t k = 0; k < ab.used.size(); k++)
    if (!ab.used[k]) memset(ab.mem + k * sizeof(TB), (int)R.below(256), sizeof(TB));
  expect_equal("padding differs", ra, rb, true);
}
// Shapes differing in one parameter, same elements in storage.
template <size_t N>
void shape_case(Rng& R, long) {
  GenOpts o = opts(R);
  MShape m = gen_shape(R, N, o);
  size_t k = (size_t)R.below((long)N);
  MShape d = m;
  int what = (int)R.below(3);
  if (what == 0) d.d[k].min += R.pick<long>({1, -1, 5});
  if (what == 1) d.d[k].ext = d.d[k].ext > 0 && R.chance(50) ? d.d[k].ext - 1 : d.d[k].ext + 1;
  if (what == 2) d.d[k].str += R.pick<long>({1, -1, 3});
  desc("%s vs %s", m.str().c_str(), d.str().c_str());
  nontrivial();
  // All elements equal, so that only the shapes can differ.
  MShape a1 = m, a2 = d;
  long lo1 = 0, hi1 = 0, lo2 = 0, hi2 = 0;
  if (!m.empty()) m.flat_range(&lo1, &hi1);
  if (!d.empty()) d.flat_range(&lo2, &hi2);
  Arena<long> mem(std::min(lo1, lo2), std::max(hi1, hi2));
  for (long x = std::min(lo1, lo2); x <= std::max(hi1, hi2); x++) mem.use(x), mem.base[x] = 4;
  nda::array_ref_of_rank<long, N> x(mem.base, dyn<N>(m)), y(mem.base, dyn<N>(d));
  mem.protect();
  expect_op("one parameter of the shape differs", x, y, false);
  expect_op("one parameter of the shape differs", x.cref(), y.cref(), false);
  expect_equal(what == 2 ? "only a stride differs" : "bounds differ", x, y, what == 2);
  mem.verify("equality");
}

template <size_t N>
using DS = nda::shape_of_rank<N>;
template <class SA, class SB>
bool gen_same_bounds(Rng& R, MShape* a, MShape* b) {
  for (int t = 0; t < 200; t++) {
    GenOpts o = opts(R);
    if (!gen_for_type<SA>(R, a, o)) continue;
    // b: bounds of a, layout for SB.
    MShape bb = *a;
    apply_static<SB>(bb, std::make_index_sequence<SB::rank()>());
    if (!bb.same_bounds(*a)) continue;
    std::vector<long> ss = static_strides<SB>(std::make_index_sequence<SB::rank()>());
    gen_strides(R, bb, o);
    long span = 1;
    bool any = false;
    for (size_t k = 0; k < bb.rank(); k++)
      if (ss[k] != (long)nda::dynamic) bb.d[k].str = ss[k], any = true, span = std::max(span, labs(ss[k]) * std::max<long>(1, bb.d[k].ext));
    if (any)
      for (size_t k : gen_perm(R, bb.rank()))
        if (ss[k] == (long)nda::dynamic) bb.d[k].str = span * (R.chance(20) ? -1 : 1), span *= std::max<long>(1, bb.d[k].ext);
    if (!bb.one_to_one() || !a->one_to_one()) continue;
    *b = bb;
    return true;
  }
  return false;
}
template <class TA, class TB, class SA, class SB>
void go(Rng& R) {
  MShape a, b;
  if (gen_same_bounds<SA, SB>(R, &a, &b)) pair_case<TA, TB, SA, SB>(R, a, b);
  else count("pairs_not_generated");
}
GROUP(dyn, 1600, 40000) {
  switch (I % 6) {
  case 0: return go<int64_t, int64_t, DS<1>, DS<1>>(R);
  case 1: return go<int64_t, int64_t, DS<2>, DS<2>>(R);
  case 2: return go<int64_t, int64_t, DS<3>, DS<3>>(R);
  case 3: return go<int64_t, int64_t, DS<4>, DS<4>>(R);
  case 4: return go<int64_t, int64_t, DS<0>, DS<0>>(R);
  default: return go<double, double, DS<2>, DS<2>>(R);
  }
}
GROUP(types, 1600, 30000) {
  switch (I % 8) {
  case 0: return go<int32_t, int64_t, DS<2>, DS<2>>(R);
  case 1: return go<Pair, Pair, DS<2>, nda::dense_shape<2>>(R);
  case 2: return go<uint8_t, uint8_t, nda::dense_shape<3>, nda::dense_shape<3>>(R);
  case 3: return go<int64_t, int64_t, nda::matrix_shape<>, nda::dense_shape<2>>(R);
  case 4: return go<int64_t, int64_t, nda::chunky_image_shape<3>, nda::planar_image_shape>(R);
  case 5: return go<int64_t, int64_t, nda::chunky_image_shape<3>, nda::chunky_image_shape<3>>(R);
  case 6: return go<uint16_t, uint16_t, nda::fixed_dense_shape<4, 3>, nda::matrix_shape<4, 3>>(R);
  default: return go<int64_t, int64_t, nda::shape<nda::strided_dim<-1>, nda::dim<>>, DS<2>>(R);
  }
}
GROUP(shapes, 1200, 30000) {
  switch (I % 4) {
  case 0: return shape_case<1>(R, I);
  case 1: return shape_case<2>(R, I);
  case 2: return shape_case<3>(R, I);
  default: return shape_case<4>(R, I);
  }
}
// Extents that agree in number but not in arrangement; equal sizes, transposed bounds.
GROUP(rearranged, 300, 5000) {
  long a = R.range(1, 6), b = R.range(1, 6), c = R.range(1, 6);
  desc("rearranged %ld %ld %ld", a, b, c);
  if (a != b) nontrivial();
  nda::array_of_rank<int, 3> x(nda::shape_of_rank<3>(a, b, c), 1), y(nda::shape_of_rank<3>(b, a, c), 1), z(nda::shape_of_rank<3>(a * b, 1, c), 1);
  expect_equal("rearranged extents", x, y, a == b);
  expect_op("rearranged extents", x, y, a == b);
  expect_equal("rearranged extents", x, z, b == 1);
  expect_op("rearranged extents", x, z, x.shape() == z.shape());
}
#ifndef __FAST_MATH__
// Elements that are not equal to themselves, and different ones that are equal.
GROUP(floats, 200, 3000) {
  long n = R.range(1, 30), at = R.below(n);
  desc("floats n=%ld at=%ld", n, at);
  nontrivial();
  volatile double zero = 0;
  nda::dense_array<double, 1> a(nda::dense_shape<1>(n), 0.0), b(nda::dense_shape<1>(n), 0.0);
  b(at) = -zero;
  expect_equal("0.0 and -0.0", a, b, true);
  expect_op("0.0 and -0.0", a, b, true);
  b(at) = zero / zero;
  a(at) = b(at);
  expect_equal("NaN", a, b, false);
  expect_op("NaN", a, b, false);
  // An array holding a NaN is not equal to itself, a view of itself, or a copy.
  expect_equal("NaN and itself", a, a, false);
  expect_op("NaN and itself", a, a, false);
  expect_equal("NaN and itself", a.ref(), a, false);
  expect_op("NaN and itself", a.ref(), a.ref(), false);
  expect_op("NaN and itself", a.cref(), a.cref(), false);
  expect_op("NaN and its copy", a, nda::dense_array<double, 1>(a), false);
  b(at) = 1e-300;
  a(at) = 0;
  expect_equal("denormal", a, b, false);
}
#endif
HARNESS_MAIN
