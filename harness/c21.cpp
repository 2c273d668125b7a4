// C21: image helpers address the right pixels for every layout.
#include "model.h"
#include "types.h"
using namespace vh;
#ifndef VERIF_PART
#define VERIF_PART 1
#endif

using ImageShapes = TypeList<nda::image_shape, nda::planar_image_shape, nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::chunky_image_shape<4>,
    nda::chunky_image_shape<3, 4>, nda::chunky_image_shape<nda::dynamic, 4>, nda::chunky_image_shape<3, nda::dynamic>, nda::chunky_image_shape<1>,
    nda::shape<nda::dim<>, nda::dense_dim<>, nda::dim<2, 3>>>;

// A random run-time shape for an image type. x strides of chunky types hold the channels.
template <class Shape>
bool gen_image(Rng& R, MShape* m, long max_size = 600) {
  GenOpts o;
  o.max_size = max_size;
  o.max_ext = 9;
  o.allow_empty = R.chance(25);
  for (int t = 0; t < 50; t++)
    if (gen_for_type<Shape>(R, m, o) && m->size() <= 4 * max_size) return true;
  return false;
}
static long coord(Rng& R, const MDim& d) {
  switch (R.below(8)) {
  case 0: return d.min;
  case 1: return d.min + d.ext;
  case 2: return d.min - R.range(1, 5);
  case 3: return d.min + d.ext + R.range(1, 5);
  case 4:
    // Far outside, beyond 32 bits where index_t is wider.
    if (sizeof(nda::index_t) > 4 && R.chance(50)) return d.min + R.pick<long>({-(1L << 32), 1L << 32, (1L << 32) + 1, -(1L << 31) - 1, 1L << 40, -(1L << 45)}) + R.range(0, 3);
    return R.pick<long>({0, -9, -1000000000, 1000000000});
  default: return R.range(d.min - 1, d.min + std::max(0L, d.ext) + 1);
  }
}
static long clampl(long x, long lo, long hi) { return x < lo ? lo : x > hi ? hi : x; }

// v must show exactly the clamped rectangle of the image at base with shape m.
template <class V, class T>
void check_crop(const V& v, T* base, const MShape& m, long x0, long y0, long x1, long y1, bool zero, const char* who) {
  long ax = clampl(x0, m.d[0].min, m.d[0].min + m.d[0].ext), ay = clampl(y0, m.d[1].min, m.d[1].min + m.d[1].ext);
  long bx = std::max(ax, clampl(x1, m.d[0].min, m.d[0].min + m.d[0].ext)), by = std::max(ay, clampl(y1, m.d[1].min, m.d[1].min + m.d[1].ext));
  MShape got = to_mshape(v.shape());
  CHECK(got.d[0].ext == bx - ax && got.d[1].ext == by - ay, "%s: the view has extents %ld x %ld, expected %ld x %ld", who, got.d[0].ext, got.d[1].ext, bx - ax, by - ay);
  CHECK(got.d[2] == m.d[2], "%s: the channels changed", who);
  if (zero) CHECK(got.d[0].min == 0 && got.d[1].min == 0, "%s: the origin of the view is (%ld,%ld), not 0", who, got.d[0].min, got.d[1].min);
  bool any = got.size() > 0;
  CHECK(v.empty() == !any, "%s: empty()", who);
  long dx = zero ? ax : 0, dy = zero ? ay : 0;
  if (any && !zero) CHECK(got.d[0].min == ax && got.d[1].min == ay, "%s: the view starts at (%ld,%ld), expected (%ld,%ld)", who, got.d[0].min, got.d[1].min, ax, ay);
  got.each([&](const Idx& i) {
    Idx j = {i[0] + dx, i[1] + dy, i[2]};
    const T* want = base + m.offset(j);
    CHECK(&v((nda::index_t)i[0], (nda::index_t)i[1], (nda::index_t)i[2]) == want, "%s: pixel %s of the view is not pixel %s of the image", who, idx_str(i).c_str(), idx_str(j).c_str());
  });
  count("pixels_checked", (unsigned long long)got.size());
  count(any ? "crops" : "empty_crops");
}
template <class A, class T>
void check_channels(A&& im, T* base, const MShape& m, const char* who) {
  for (long c = m.d[2].min; c < m.d[2].min + m.d[2].ext; c++) {
    auto s = nda::slice_channel(im, (nda::index_t)c);
    MShape got = to_mshape(s.shape());
    CHECK(got.rank() == 2 && got.d[0].min == m.d[0].min && got.d[0].ext == m.d[0].ext && got.d[1].min == m.d[1].min && got.d[1].ext == m.d[1].ext,
        "%s: channel %ld has shape %s", who, c, got.str().c_str());
    got.each([&](const Idx& i) {
      CHECK(&s((nda::index_t)i[0], (nda::index_t)i[1]) == base + m.offset({i[0], i[1], c}), "%s: pixel %s of channel %ld is wrong", who, idx_str(i).c_str(), c);
    });
    count("channel_pixels", (unsigned long long)got.size());
  }
}
// Indices in the documented image order: c innermost, then x, then y.
template <class Shape>
void check_image_order(const Shape& s, const MShape& m) {
  std::vector<Idx> want, got;
  m.each_ordered({2, 0, 1}, [&](const Idx& i) { want.push_back(i); });
  nda::for_each_image_index(s, [&](const typename Shape::index_type& i) {
    got.push_back(to_idx(i));
    CHECK(got.size() <= want.size(), "for_each_image_index makes more calls than there are pixels");
  });
  CHECK(got == want, "for_each_image_index visits the wrong indices or order");
  count("image_indices", want.size());
}

#if VERIF_PART == 1
template <class Shape>
void crop_case(Rng& R) {
  MShape m;
  if (!gen_image<Shape>(R, &m)) harness_error("no image shape found");
  desc("%s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  Shape s = from_mshape<Shape>(m);
  Arena<int64_t> a(m);
  nda::array_ref<int64_t, Shape> ref(a.base, s);
  nda::const_array_ref<int64_t, Shape> cref(a.base, s);
  nda::array<int64_t, Shape> arr(s);
  const auto& carr = arr;
  for (int t = 0; t < 6; t++) {
    long x0 = coord(R, m.d[0]), x1 = coord(R, m.d[0]), y0 = coord(R, m.d[1]), y1 = coord(R, m.d[1]);
    if (R.chance(60) && x1 < x0) std::swap(x0, x1);
    if (R.chance(60) && y1 < y0) std::swap(y0, y1);
    desc(" crop(%ld,%ld,%ld,%ld)", x0, y0, x1, y1);
    nda::index_t X0 = (nda::index_t)x0, X1 = (nda::index_t)x1, Y0 = (nda::index_t)y0, Y1 = (nda::index_t)y1;
    for (bool zero : {false, true}) {
      nda::crop_origin o = zero ? nda::crop_origin::zero : nda::crop_origin::crop;
      check_crop(nda::crop(ref, X0, Y0, X1, Y1, o), a.base, m, x0, y0, x1, y1, zero, "crop of a ref");
      check_crop(nda::crop(cref, X0, Y0, X1, Y1, o), a.base, m, x0, y0, x1, y1, zero, "crop of a const ref");
      check_crop(nda::crop(arr, X0, Y0, X1, Y1, o), arr.base(), m, x0, y0, x1, y1, zero, "crop of an array");
      auto c = nda::crop(carr, X0, Y0, X1, Y1, o);
      static_assert(std::is_const<std::remove_reference_t<decltype(*c.base())>>::value, "cropping a const image gives a const view");
      check_crop(c, arr.base(), m, x0, y0, x1, y1, zero, "crop of a const array");
      // A crop of a crop.
      auto v = nda::crop(ref, X0, Y0, X1, Y1, o);
      MShape vm = to_mshape(v.shape());
      if (!vm.empty()) {
        long u0 = coord(R, vm.d[0]), u1 = coord(R, vm.d[0]), w0 = coord(R, vm.d[1]), w1 = coord(R, vm.d[1]);
        check_crop(nda::crop(v, (nda::index_t)u0, (nda::index_t)w0, (nda::index_t)u1, (nda::index_t)w1, nda::crop_origin::crop), v.base(), vm, u0, w0, u1, w1, false, "crop of a crop");
      }
      // The shape function sets the bounds it is given.
      if (x1 >= x0 && y1 >= y0) {
        MShape want = m;
        want.d[0].min = zero ? 0 : x0, want.d[0].ext = x1 - x0;
        want.d[1].min = zero ? 0 : y0, want.d[1].ext = y1 - y0;
        MShape got = to_mshape(nda::crop_image_shape(s, X0, Y0, X1, Y1, o));
        CHECK(got == want, "crop_image_shape gives %s, expected %s", got.str().c_str(), want.str().c_str());
      }
    }
    check_crop(nda::crop(ref, X0, Y0, X1, Y1), a.base, m, x0, y0, x1, y1, false, "crop with the default origin");
    check_crop(nda::crop(arr, X0, Y0, X1, Y1), arr.base(), m, x0, y0, x1, y1, false, "crop with the default origin");
    check_crop(nda::crop(carr, X0, Y0, X1, Y1), arr.base(), m, x0, y0, x1, y1, false, "crop with the default origin");
  }
  check_channels(ref, a.base, m, "slice_channel of a ref");
  check_channels(cref, a.base, m, "slice_channel of a const ref");
  if (!m.empty()) {
    check_channels(arr, arr.base(), m, "slice_channel of an array");
    check_channels(carr, arr.base(), m, "slice_channel of a const array");
  }
  check_image_order(s, m);
  // Writing through a crop writes exactly its pixels.
  m.each([&](const Idx& i) { ref((nda::index_t)i[0], (nda::index_t)i[1], (nda::index_t)i[2]) = 1; });
  long x0 = coord(R, m.d[0]), x1 = coord(R, m.d[0]), y0 = coord(R, m.d[1]), y1 = coord(R, m.d[1]);
  a.protect();
  auto v = nda::crop(ref, (nda::index_t)x0, (nda::index_t)y0, (nda::index_t)x1, (nda::index_t)y1, R.chance(50) ? nda::crop_origin::zero : nda::crop_origin::crop);
  long sum = 0;
  v.for_each_value([&](int64_t& p) { p += 1, sum++; });
  m.each([&](const Idx& i) {
    bool in = i[0] >= x0 && i[0] < x1 && i[1] >= y0 && i[1] < y1;
    CHECK(ref((nda::index_t)i[0], (nda::index_t)i[1], (nda::index_t)i[2]) == (in ? 2 : 1), "pixel %s after writing through crop(%ld,%ld,%ld,%ld)", idx_str(i).c_str(), x0, y0, x1, y1);
    sum -= in;
  });
  CHECK(sum == 0, "the crop has the wrong number of pixels");
  a.verify("writing through a crop");
}
GROUP(crops, 1600, 30000) {
  with_type(ImageShapes(), (size_t)I % list_size(ImageShapes()), [&](auto t) { crop_case<typename decltype(t)::type>(R); });
}
// Layouts chosen by the image types themselves.
template <class Im>
void layout(const Im& im, long w, long h, long c, long xstride, bool planar, const char* who) {
  MShape m = to_mshape(im.shape());
  CHECK(m.d[0].ext == w && m.d[1].ext == h && m.d[2].ext == c, "%s has extents %ld x %ld x %ld", who, m.d[0].ext, m.d[1].ext, m.d[2].ext);
  if (planar) CHECK_EQ(m.d[0].str, 1, "x stride of a planar image");
  else {
    CHECK_EQ(m.d[2].str, 1, "channel stride of a chunky image");
    if (w * h * c > 0) CHECK_EQ(m.d[0].str, xstride, "x stride of a chunky image");
  }
  if (w * h * c > 0) {
    CHECK(m.one_to_one(), "%s: pixels overlap: %s", who, m.str().c_str());
    long lo, hi;
    m.flat_range(&lo, &hi);
    CHECK(hi - lo + 1 <= std::max(xstride, c) * w * h, "%s is larger than needed: %s", who, m.str().c_str());
  }
}
GROUP(layouts, 600, 10000) {
  long w = R.range(0, 9), h = R.range(0, 9), c = R.range(0, 5);
  desc("%ld x %ld x %ld", w, h, c);
  if (w * h * c > 1) nontrivial();
  using nda::index_t;
  index_t W = (index_t)w, H = (index_t)h, C = (index_t)c;
  layout(nda::chunky_image<int>({W, H, C}), w, h, c, c, false, "chunky_image<>");
  layout(nda::chunky_image<uint8_t, 3>({W, H, 3}), w, h, 3, 3, false, "chunky_image<3>");
  layout(nda::chunky_image<uint8_t, 3>({W, H, {}}), w, h, 3, 3, false, "chunky_image<3>");
  layout(nda::chunky_image<float, 4>({W, H, 4}), w, h, 4, 4, false, "chunky_image<4>");
  layout(nda::chunky_image<uint8_t, 3, 4>({W, H, 3}), w, h, 3, 4, false, "chunky_image<3,4>");
  layout(nda::chunky_image<uint8_t, 1>({W, H, 1}), w, h, 1, 1, false, "chunky_image<1>");
  if (c <= 4) layout(nda::chunky_image<int, nda::dynamic, 4>({W, H, C}), w, h, c, 4, false, "chunky_image<dynamic,4>");
  layout(nda::planar_image<int>({W, H, C}), w, h, c, 1, true, "planar_image");
  layout(nda::planar_image<uint8_t>({W, H, C}), w, h, c, 1, true, "planar_image");
}
#else
// Copies between layouts keep every pixel.
template <class S1, class S2, class T>
void copy_case(Rng& R) {
  MShape m, d;
  for (int t = 0;; t++) {
    if (t > 400) return;
    if (!gen_image<S1>(R, &m)) continue;
    if (!gen_image<S2>(R, &d)) continue;
    // Same bounds where both are free, otherwise the destination inside the source.
    bool ok = true;
    MShape inner = gen_subregion(R, m);
    if (R.chance(50)) inner = m;
    MShape want = inner;
    apply_static<S2>(want, std::make_index_sequence<3>());
    for (size_t k = 0; k < 3; k++) ok &= want.d[k].min >= m.d[k].min && want.d[k].max() <= m.d[k].max();
    if (!ok) continue;
    // Strides of the destination for these bounds.
    for (int q = 0; q < 20; q++) {
      MShape e;
      GenOpts o;
      if (!gen_for_type<S2>(R, &e, o)) continue;
      for (size_t k = 0; k < 3; k++) want.d[k].str = e.d[k].str;
      bool big = false;
      for (auto& x : want.d) big |= labs(x.str) * x.ext > 100000;
      if (!big && want.one_to_one()) {
        d = want;
        goto found;
      }
    }
  }
found:
  desc("%s -> %s", m.str().c_str(), d.str().c_str());
  if (d.size() > 1) nontrivial();
  Arena<T> a(m), b(d);
  nda::array_ref<T, S1> src(a.base, from_mshape<S1>(m));
  nda::array_ref<T, S2> dst(b.base, from_mshape<S2>(d));
  std::map<Idx, T> vals;
  m.each([&](const Idx& i) { vals[i] = call_idx<3>(src, i) = (T)R.next(); });
  d.each([&](const Idx& i) { call_idx<3>(dst, i) = (T)0; });
  a.protect();
  b.protect();
  nda::copy(nda::const_array_ref<T, S1>(src), dst);
  d.each([&](const Idx& i) { CHECK(call_idx<3>(dst, i) == vals[i], "pixel %s was not copied", idx_str(i).c_str()); });
  m.each([&](const Idx& i) { CHECK(call_idx<3>(src, i) == vals[i], "the source changed at %s", idx_str(i).c_str()); });
  b.verify("copy between layouts");
  auto own = nda::make_copy(src, from_mshape<S2>(d));
  d.each([&](const Idx& i) { CHECK(call_idx<3>(own, i) == vals[i], "pixel %s of make_copy is wrong", idx_str(i).c_str()); });
  MShape got = to_mshape(own.shape());
  CHECK(got == d, "make_copy has shape %s", got.str().c_str());
  auto packed = nda::make_compact_copy(src);
  m.each([&](const Idx& i) { CHECK(call_idx<3>(packed, i) == vals[i], "pixel %s of make_compact_copy is wrong", idx_str(i).c_str()); });
  a.verify("copy between layouts");
  count("pixels_copied", (unsigned long long)d.size());
}
template <class S1>
void copy_from(Rng& R, size_t k) {
  with_type(ImageShapes(), k, [&](auto t) {
    using S2 = typename decltype(t)::type;
    if (R.chance(50)) copy_case<S1, S2, uint8_t>(R);
    else copy_case<S1, S2, int64_t>(R);
  });
}
GROUP(copies, 2000, 40000) {
  size_t n = list_size(ImageShapes());
  with_type(ImageShapes(), (size_t)I % n, [&](auto t) { copy_from<typename decltype(t)::type>(R, (size_t)I / n % n); });
}
#endif
HARNESS_MAIN
