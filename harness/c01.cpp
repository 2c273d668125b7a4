// C01: index-to-offset mapping and shape geometry.
#include "model.h"
#include "types.h"
using namespace vh;

template <class Fn>
auto pass(Fn&& fn, const Idx& i, std::integral_constant<size_t, 0>) { return fn(); }
template <class Fn>
auto pass(Fn&& fn, const Idx& i, std::integral_constant<size_t, 1>) { return fn((int)i[0]); }
template <class Fn>
auto pass(Fn&& fn, const Idx& i, std::integral_constant<size_t, 2>) { return fn((int)i[0], (long)i[1]); }
template <class Fn>
auto pass(Fn&& fn, const Idx& i, std::integral_constant<size_t, 3>) { return fn((int)i[0], (long)i[1], (int)i[2]); }
template <class Fn>
auto pass(Fn&& fn, const Idx& i, std::integral_constant<size_t, 4>) { return fn((long)i[0], (int)i[1], (long long)i[2], (int)i[3]); }
template <class Fn>
auto pass(Fn&& fn, const Idx& i, std::integral_constant<size_t, 5>) { return fn(i[0], i[1], i[2], i[3], i[4]); }
template <class Fn>
auto pass(Fn&& fn, const Idx& i, std::integral_constant<size_t, 6>) { return fn(i[0], i[1], i[2], i[3], i[4], i[5]); }

static bool fits_int(const Idx& i) {
  for (long x : i)
    if (x != (long)(int)x) return false;
  return true;
}

template <class Shape, size_t... Is>
bool in_range_args(const Shape& s, const Idx& i, std::index_sequence<Is...>) { return s.is_in_range((index_t)i[Is]...); }
template <class Shape, size_t... Is>
bool in_range_intervals(const Shape& s, const std::vector<nda::interval<>>& v, std::index_sequence<Is...>) {
  bool a = s.is_in_range(v[Is]...);
  bool b = s.is_in_range(std::make_tuple(v[Is]...));
  CHECK(a == b, "is_in_range(tuple) and is_in_range(args...) disagree");
  for (long str : {3L, 0L, 1L, -2L, (long)nda::unresolved}) {
    bool c = s.is_in_range(nda::dim<>(v[Is].min(), v[Is].extent(), (index_t)str)...);
    CHECK(a == c, "is_in_range of dims with the stride %ld and intervals disagree", str);
  }
  bool d = s.is_in_range(nda::broadcast_dim<>(v[Is].min(), v[Is].extent())...);
  CHECK(a == d, "is_in_range of broadcast dims and intervals disagree");
  bool e = s.is_in_range(nda::dense_dim<>(v[Is].min(), v[Is].extent())...);
  CHECK(a == e, "is_in_range of dense dims and intervals disagree");
  return a;
}
// One dimension is an interval, the others indices.
template <size_t K, class Shape, size_t... Is>
bool in_range_mixed(const Shape& s, const Idx& i, const nda::interval<>& v, std::index_sequence<Is...>) {
  auto arg = [&](auto k) -> decltype(auto) {
    return std::get < decltype(k)::value == K ? 1 : 0 > (std::tuple<index_t, nda::interval<>>((index_t)i[decltype(k)::value], v));
  };
  return s.is_in_range(arg(std::integral_constant<size_t, Is>())...);
}

inline bool model_in(const MShape& m, const Idx& i) { return m.contains(i); }

template <class Shape>
std::enable_if_t<(Shape::rank() > 0)> range_monitors(Rng& R, const Shape& s, const MShape& m) {
  constexpr size_t rank = Shape::rank();
  auto seq = std::make_index_sequence<rank>();
  if (m.empty()) {
    for (int t = 0; t < 4; t++) {
      Idx i(rank);
      for (size_t k = 0; k < rank; k++) i[k] = m.d[k].min + R.range(-1, 1);
      CHECK_EQ(in_range_args(s, i, seq), false, "is_in_range for an empty shape");
    }
    return;
  }
  for (size_t k = 0; k < rank; k++) {
    // Move one coordinate to each side of each boundary; the others stay inside.
    for (long at : {m.d[k].min - 1, m.d[k].min, m.d[k].max(), m.d[k].max() + 1}) {
      Idx i(rank);
      for (size_t q = 0; q < rank; q++) i[q] = m.d[q].min + R.below(m.d[q].ext);
      i[k] = at;
      CHECK_EQ(in_range_args(s, i, seq), model_in(m, i), "is_in_range(indices)");
      CHECK_EQ(s.is_in_range(from_idx<rank>(i)), model_in(m, i), "is_in_range(index tuple)");
    }
    for (int t = 0; t < 6; t++) {
      std::vector<nda::interval<>> v;
      bool want = true;
      for (size_t q = 0; q < rank; q++) {
        long lo = m.d[q].min + R.below(m.d[q].ext), hi = R.range(lo, m.d[q].max());
        if (q == k) {
          if (t == 0) lo = m.d[q].min - R.range(1, 3);
          if (t == 1) hi = m.d[q].max() + R.range(1, 3);
          if (t == 2) { lo = m.d[q].min; hi = m.d[q].max(); }
          if (t == 3) { lo = m.d[q].min - 1; hi = m.d[q].max() + 1; }
          if (t == 4) { lo = m.d[q].max() + 1; hi = lo + R.below(3); }
        }
        want = want && lo >= m.d[q].min && hi <= m.d[q].max();
        v.push_back(nda::interval<>(lo, hi - lo + 1));
      }
      CHECK_EQ(in_range_intervals(s, v, seq), want, "is_in_range(intervals)");
      count("is_in_range_checks");
    }
  }
}
template <class Shape>
std::enable_if_t<(Shape::rank() == 0)> range_monitors(Rng&, const Shape&, const MShape&) {}

template <class Dim>
void dim_monitors(Rng& R, const Dim& d, const MDim& m) {
  CHECK_EQ(d.min(), m.min, "dim.min()");
  CHECK_EQ(d.extent(), m.ext, "dim.extent()");
  CHECK_EQ(d.size(), m.ext, "dim.size()");
  CHECK_EQ(d.stride(), m.str, "dim.stride()");
  CHECK_EQ(d.max(), m.min + m.ext - 1, "dim.max()");
  long k = m.min;
  for (index_t i : d) {
    CHECK(k < m.min + m.ext, "iteration of a dim did not stop at %ld", m.min + m.ext);
    CHECK_EQ(i, k, "iterated index of a dim");
    k++;
  }
  CHECK_EQ(k, m.min + std::max<long>(0, m.ext), "iteration of a dim stopped early at");
  CHECK_EQ(d.end() - d.begin(), m.ext, "dim.end() - dim.begin()");
  for (long at = m.min - 2; at <= m.min + m.ext + 1; at++) {
    CHECK_EQ(d.is_in_range((index_t)at), at >= m.min && at < m.min + m.ext, "dim.is_in_range(index)");
    CHECK_EQ(d.flat_offset((index_t)at), (at - m.min) * m.str, "dim.flat_offset()");
  }
  if (m.ext > 0) {
    for (long x : {m.min - 1000, m.min - 1, m.min, m.min + m.ext / 2, m.max(), m.max() + 1, m.max() + 77777}) {
      long want = x < m.min ? m.min : x > m.max() ? m.max() : x;
      CHECK_EQ(nda::clamp((index_t)x, d), want, "clamp(x, dim)");
      CHECK_EQ(nda::clamp((index_t)x, (index_t)m.min, (index_t)m.max()), want, "clamp(x, min, max)");
      nda::interval<> v(m.min, m.ext);
      CHECK_EQ(nda::clamp((index_t)x, v), want, "clamp(x, interval)");
    }
  }
  // Whole intervals, as intervals and as dims.
  if (m.ext > 0) {
    nda::interval<> whole(m.min, m.ext);
    for (int t = 0; t < 4; t++) {
      long lo = m.min + R.range(-1, 1) * (long)R.below(3), hi = std::max(lo, m.max() + R.range(-1, 1) * (long)R.below(3));
      bool want = lo >= m.min && hi <= m.max();
      nda::interval<> w(lo, hi - lo + 1);
      nda::dim<> wd(lo, hi - lo + 1, R.range(-2, 2));
      nda::broadcast_dim<> wb(lo, hi - lo + 1);
      CHECK_EQ(d.is_in_range(w), want, "dim.is_in_range(interval)");
      CHECK_EQ(d.is_in_range(wd), want, "dim.is_in_range(dim)");
      CHECK_EQ(d.is_in_range(wb), want, "dim.is_in_range(broadcast_dim)");
      CHECK_EQ(whole.is_in_range(w), want, "interval.is_in_range(interval)");
      CHECK_EQ(whole.is_in_range(wd), want, "interval.is_in_range(dim)");
    }
  }
  // Setters.
  nda::dim<> e(1, 2, 3);
  e.set_min(m.min);
  e.set_extent(m.ext);
  e.set_stride(m.str);
  CHECK(to_mdim(e) == m, "set_min, set_extent, set_stride");
  e.set_extent(99);
  e.set_max(m.max());
  CHECK(to_mdim(e) == m, "set_max");
  nda::interval<> v(3, 4);
  v.set_min(m.min);
  v.set_max(m.max());
  CHECK_EQ(v.min(), m.min, "interval min");
  CHECK_EQ(v.extent(), m.ext, "interval extent after set_max");
  CHECK_EQ(v.size(), m.ext, "interval size");
  CHECK_EQ(v.max(), m.max(), "interval max");
  v.set_extent(m.ext + 1);
  CHECK_EQ(v.max(), m.max() + 1, "interval max after set_extent");
  auto rr = nda::range(m.min, m.min + m.ext);
  auto r2 = nda::r(m.min, m.min + m.ext);
  CHECK_EQ(rr.min(), m.min, "range min");
  CHECK_EQ(rr.extent(), m.ext, "range extent");
  CHECK(r2 == rr && !(r2 != rr), "r and range agree");
  k = m.min;
  for (index_t i : rr) CHECK_EQ(i, k++, "iterated index of an interval");
  CHECK_EQ(k, m.min + std::max<long>(m.ext, 0), "interval iteration end");
  k = m.min;
  for (auto it = begin(rr); it != end(rr); it++) CHECK_EQ(*it, k++, "begin(interval)/end(interval)");
  auto r3 = nda::range<5>(m.min);
  auto r4 = nda::r<5>(m.min);
  CHECK(r3.min() == m.min && r3.extent() == 5 && r4 == r3, "range<5>");
  // index_iterator arithmetic.
  auto it = d.begin();
  long n = R.range(-4, 9);
  CHECK_EQ(*(it + n), m.min + n, "index_iterator + n");
  CHECK_EQ(*(it - n), m.min - n, "index_iterator - n");
  CHECK_EQ(it[n], m.min + n, "index_iterator [n]");
  auto jt = it;
  jt += n;
  CHECK_EQ(jt - it, n, "index_iterator difference");
  CHECK_EQ(jt == it, n == 0, "index_iterator ==");
  CHECK_EQ(jt != it, n != 0, "index_iterator !=");
  jt -= n;
  CHECK_EQ(*jt++, m.min, "post-increment value");
  CHECK_EQ(*jt, m.min + 1, "post-increment effect");
  CHECK_EQ(*jt--, m.min + 1, "post-decrement value");
  CHECK_EQ(*--jt, m.min - 1, "pre-decrement");
  CHECK_EQ(*++jt, m.min, "pre-increment");
  count("dims_checked");
}

template <class Shape, size_t... Is>
void dims_monitors(Rng& R, const Shape& s, const MShape& m, std::index_sequence<Is...>) {
  int unused[] = {0, (dim_monitors(R, s.template dim<Is>(), m.d[Is]), 0)...};
  (void)unused;
}
template <class Shape>
std::enable_if_t<(Shape::rank() > 0)> dim_by_number(const Shape& s, const MShape& m) {
  for (size_t k = 0; k < m.rank(); k++) CHECK(to_mdim(s.dim(k)) == m.d[k], "dim(%zu) differs from dim<%zu>", k, k);
}
template <class Shape>
std::enable_if_t<(Shape::rank() == 0)> dim_by_number(const Shape&, const MShape&) {}

// Named accessors exist for shapes, refs and arrays.
template <size_t Rank>
struct Named {
  template <class A>
  static void go(A&, const MShape&) {}
};
template <>
struct Named<1> {
  template <class A>
  static void go(A& a, const MShape& m) {
    CHECK(to_mdim(a.x()) == m.d[0] && to_mdim(a.i()) == m.d[0], "x()/i()");
    CHECK_EQ(a.width(), m.d[0].ext, "width()");
    CHECK_EQ(a.rows(), m.d[0].ext, "rows()");
  }
};
template <>
struct Named<2> {
  template <class A>
  static void go(A& a, const MShape& m) {
    Named<1>::go(a, m);
    CHECK(to_mdim(a.y()) == m.d[1] && to_mdim(a.j()) == m.d[1], "y()/j()");
    CHECK_EQ(a.height(), m.d[1].ext, "height()");
    CHECK_EQ(a.columns(), m.d[1].ext, "columns()");
  }
};
template <>
struct Named<3> {
  template <class A>
  static void go(A& a, const MShape& m) {
    Named<2>::go(a, m);
    CHECK(to_mdim(a.z()) == m.d[2] && to_mdim(a.k()) == m.d[2] && to_mdim(a.c()) == m.d[2], "z()/k()/c()");
    CHECK_EQ(a.channels(), m.d[2].ext, "channels()");
  }
};
template <>
struct Named<4> {
  template <class A>
  static void go(A& a, const MShape& m) {
    Named<3>::go(a, m);
    CHECK(to_mdim(a.w()) == m.d[3], "w()");
  }
};

template <class Shape>
void shape_monitors(Rng& R, const Shape& s, const MShape& m, bool enumerate = true) {
  constexpr size_t rank = Shape::rank();
  CHECK(s.is_resolved(), "is_resolved() of a resolved shape");
  CHECK(to_mshape(s) == m, "shape is %s, expected %s", to_mshape(s).str().c_str(), m.str().c_str());
  Idx mn, mx, ex, sr;
  for (auto& d : m.d) {
    mn.push_back(d.min);
    mx.push_back(d.max());
    ex.push_back(d.ext);
    sr.push_back(d.str);
  }
  CHECK(to_idx(s.min()) == mn, "min() %s", idx_str(to_idx(s.min())).c_str());
  CHECK(to_idx(s.max()) == mx, "max() %s", idx_str(to_idx(s.max())).c_str());
  CHECK(to_idx(s.extent()) == ex, "extent() %s", idx_str(to_idx(s.extent())).c_str());
  CHECK(to_idx(s.stride()) == sr, "stride() %s", idx_str(to_idx(s.stride())).c_str());
  CHECK_EQ(s.size(), m.size(), "size()");
  CHECK_EQ(s.empty(), m.empty(), "empty()");
  Named<(rank > 4 ? 4 : rank)>::go(s, m);
  dim_by_number(s, m);
  if (!m.empty()) {
    long lo, hi;
    m.flat_range(&lo, &hi);
    CHECK_EQ(s.flat_min(), lo, "flat_min()");
    CHECK_EQ(s.flat_max(), hi, "flat_max()");
    CHECK_EQ(s.flat_extent(), hi - lo + 1, "flat_extent()");
    if (enumerate) {
      long emin = 0, emax = 0;
      m.each([&](const Idx& i) {
        long o = m.offset(i);
        emin = std::min(emin, o);
        emax = std::max(emax, o);
        CHECK_EQ(s[from_idx<rank>(i)], o, "shape[index]");
        CHECK_EQ(call_idx<rank>(s, i), o, "shape(index...)");
      });
      CHECK(emin == lo && emax == hi, "model flat range disagrees with enumeration");
      count("offsets_checked", m.size());
    }
  }
  range_monitors(R, s, m);
}

template <class Shape>
void run_shape(Rng& R, const MShape& m) {
  desc("%s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  constexpr size_t rank = Shape::rank();
  Shape s = from_mshape<Shape>(m);
  shape_monitors(R, s, m);
  dims_monitors(R, s, m, std::make_index_sequence<rank>());
  // array_ref over guarded storage: elements are where the model says.
  Arena<int64_t> a(m);
  nda::array_ref<int64_t, Shape> ref(a.base, s);
  nda::const_array_ref<int64_t, Shape> cref(a.base, s);
  CHECK(ref.base() == a.base, "array_ref base() changed");
  CHECK_EQ(ref.size(), m.size(), "array_ref size()");
  CHECK_EQ(ref.empty(), m.empty(), "array_ref empty()");
  Named<(rank > 4 ? 4 : rank)>::go(ref, m);
  Named<(rank > 4 ? 4 : rank)>::go(cref, m);
  dim_by_number(ref, m);
  if (!m.empty()) CHECK(ref.data() == a.base + a.lo && cref.data() == a.base + a.lo, "data() is not the lowest addressed element");
  const int64_t* lowest = nullptr;
  m.each([&](const Idx& i) {
    const int64_t* want = a.base + m.offset(i);
    CHECK(&ref[from_idx<rank>(i)] == want, "array_ref[%s] has the wrong address", idx_str(i).c_str());
    CHECK(&call_idx<rank>(ref, i) == want, "array_ref(%s...) has the wrong address", idx_str(i).c_str());
    CHECK(&call_idx<rank>(cref, i) == want, "const_array_ref(%s...) has the wrong address", idx_str(i).c_str());
    CHECK(&cref[from_idx<rank>(i)] == want, "const_array_ref[%s] has the wrong address", idx_str(i).c_str());
    if (fits_int(i)) pass([&](auto... x) { CHECK(&ref(x...) == want, "array_ref with mixed index types has the wrong address"); return 0; }, i, std::integral_constant<size_t, rank>());
    if (!lowest || want < lowest) lowest = want;
  });
  if (lowest) CHECK(ref.data() == lowest, "data() is not the lowest element");
  a.verify("indexing");
}

template <class Shape, class T>
void run_array(Rng& R, const MShape& m) {
  constexpr size_t rank = Shape::rank();
  Shape s = from_mshape<Shape>(m);
  nda::array<T, Shape> arr(s);
  const auto& c = arr;
  shape_monitors(R, arr.shape(), m, false);
  CHECK_EQ(arr.size(), m.size(), "array size()");
  CHECK_EQ(arr.empty(), m.empty(), "array empty()");
  Named<(rank > 4 ? 4 : rank)>::go(arr, m);
  dim_by_number(arr, m);
  if (m.empty()) return;
  long k = 1;
  T* lowest = nullptr;
  m.each([&](const Idx& i) {
    T* p = &arr[from_idx<rank>(i)];
    CHECK(p == arr.base() + m.offset(i), "array[%s] is not at base() + offset", idx_str(i).c_str());
    CHECK(p == &call_idx<rank>(arr, i) && p == &call_idx<rank>(c, i) && p == &c[from_idx<rank>(i)], "array accessors disagree at %s", idx_str(i).c_str());
    if (fits_int(i)) pass([&](auto... x) { CHECK(&arr(x...) == p && &c(x...) == p, "array with mixed index types has the wrong address"); return 0; }, i, std::integral_constant<size_t, rank>());
    *p = (T)k++;
    if (!lowest || p < lowest) lowest = p;
  });
  CHECK(arr.data() == lowest && c.data() == lowest, "array data() is not the lowest element");
  if (m.one_to_one()) {
    k = 1;
    m.each([&](const Idx& i) { CHECK(call_idx<rank>(c, i) == (T)k, "value at %s", idx_str(i).c_str()); k++; });
  }
}

GROUP(dyn, 4000, 100000) {
  size_t rank = (size_t)(I % 7);
  GenOpts o;
  o.allow_broadcast = R.chance(25);
  o.max_size = 600;
  MShape m = gen_shape(R, rank, o);
  with_rank<0, 6>(rank, [&](auto r) { run_shape<nda::shape_of_rank<decltype(r)::value>>(R, m); });
}
GROUP(overlapping, 600, 10000) {
  // Strides of any kind, overlapping included: the mapping is still a sum.
  size_t rank = (size_t)R.range(1, 4);
  GenOpts o;
  o.max_size = 300;
  MShape m = gen_bounds(R, rank, o);
  for (auto& d : m.d) d.str = R.range(-12, 12);
  with_rank<1, 4>(rank, [&](auto r) { run_shape<nda::shape_of_rank<decltype(r)::value>>(R, m); });
}
GROUP(statics, 2500, 50000) {
  with_type(StaticShapes(), (size_t)I % list_size(StaticShapes()), [&](auto tag) {
    using Shape = typename decltype(tag)::type;
    GenOpts o;
    o.max_size = 400;
    MShape m;
    if (!gen_for_type<Shape>(R, &m, o)) return;
    desc("type %ld ", I % (long)list_size(StaticShapes()));
    run_shape<Shape>(R, m);
    run_array<Shape, int>(R, m);
  });
}
GROUP(arrays, 1500, 30000) {
  size_t rank = (size_t)R.below(6);
  GenOpts o;
  o.max_size = 500;
  MShape m = gen_shape(R, rank, o);
  desc("array %s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<0, 5>(rank, [&](auto r) {
    using Sh = nda::shape_of_rank<decltype(r)::value>;
    if (I % 3 == 0) run_array<Sh, char>(R, m);
    else if (I % 3 == 1) run_array<Sh, double>(R, m);
    else run_array<Sh, short>(R, m);
  });
}
// Big extents and strides: offsets far outside 32 bits, checked arithmetically at random indices.
GROUP(huge, 1500, 30000) {
  if (sizeof(index_t) < 8) return;
  size_t rank = (size_t)R.range(1, 5);
  MShape m;
  long limit = 1L << 60;
  m.d.resize(rank);
  for (auto& d : m.d) {
    d.min = R.chance(50) ? R.range(-5, 5) : R.range(-(1L << 40), 1L << 40);
    d.ext = R.chance(50) ? R.range(1, 6) : R.range(1, 1L << 20);
    long smax = limit / (long)rank / d.ext;
    d.str = R.chance(40) ? R.range(-smax, smax) : R.pick<long>({1L << 31, (1L << 31) - 1, -(1L << 31), (1L << 32) + 1, -(1L << 33), 3L << 35}) % smax;
  }
  // Keep the number of indices representable.
  __int128 n = 1;
  for (auto& d : m.d) {
    n *= d.ext;
    if (n > (1L << 60)) { n /= d.ext; d.ext = 1; }
  }
  desc("%s", m.str().c_str());
  nontrivial();
  with_rank<1, 5>(rank, [&](auto r) {
    constexpr size_t K = decltype(r)::value;
    auto s = dyn<K>(m);
    shape_monitors(R, s, m, false);
    for (int t = 0; t < 20; t++) {
      Idx i(K);
      for (size_t k = 0; k < K; k++) i[k] = t == 0 ? m.d[k].min : t == 1 ? m.d[k].max() : m.d[k].min + R.below(m.d[k].ext);
      CHECK_EQ(s[from_idx<K>(i)], m.offset(i), "offset of a huge shape");
      CHECK_EQ(call_idx<K>(s, i), m.offset(i), "offset of a huge shape (call)");
      for (size_t k = 0; k < K; k++) {
        CHECK_EQ(s.dim(k).flat_offset(i[k]), (i[k] - m.d[k].min) * m.d[k].str, "flat_offset of a huge dim");
        auto b = s.dim(k).begin(), e = s.dim(k).end();
        long n = i[k] - m.d[k].min;
        CHECK_EQ(e - b, m.d[k].ext, "end() - begin() of a huge dim");
        CHECK_EQ(b - e, -m.d[k].ext, "begin() - end() of a huge dim");
        CHECK_EQ(*(b + (index_t)n), i[k], "begin() + n of a huge dim");
        CHECK_EQ(b[(index_t)n], i[k], "begin()[n] of a huge dim");
        CHECK_EQ(*(e - (index_t)(m.d[k].ext - n)), i[k], "end() - n of a huge dim");
        auto j = b;
        j += (index_t)n;
        CHECK_EQ(j - b, n, "difference of iterators of a huge dim");
        CHECK_EQ(*j, i[k], "+= of an iterator of a huge dim");
        CHECK(j == b + (index_t)n, "equal iterators of a huge dim");
        CHECK(j != e, "unequal iterators of a huge dim");
        CHECK_EQ(s.dim(k).is_in_range((index_t)i[k]), true, "is_in_range of a huge dim");
        CHECK_EQ(s.dim(k).is_in_range((index_t)(i[k] + (1L << 32) * 4096)), i[k] + (1L << 32) * 4096 <= m.d[k].max(), "is_in_range above a huge dim");
      }
    }
    count("huge_offsets_checked", 20);
  });
}
// Intervals of far more than 2^32 indices, with iterators moved far.
GROUP(huge_intervals, 400, 8000) {
  if (sizeof(index_t) < 8) return;
  long mn = R.range(-(1L << 50), 1L << 50), e = R.range(1L << 30, 1L << 50);
  desc("[%ld, %ld)", mn, mn + e);
  nontrivial();
  auto run = [&](const auto& v) {
    CHECK_EQ(v.min(), mn, "min of a huge interval");
    CHECK_EQ(v.extent(), e, "extent of a huge interval");
    CHECK_EQ(v.max(), mn + e - 1, "max of a huge interval");
    auto b = v.begin(), f = v.end();
    CHECK_EQ(f - b, e, "end() - begin() of a huge interval");
    for (int t = 0; t < 8; t++) {
      long n = R.range(0, e - 1), n2 = R.range(0, e - 1);
      auto j = b;
      j += (index_t)n;
      CHECK_EQ(*j, mn + n, "+= of an iterator of a huge interval");
      CHECK_EQ(j - b, n, "difference of iterators of a huge interval");
      CHECK_EQ((b + (index_t)n2) - j, n2 - n, "difference of iterators of a huge interval");
      CHECK_EQ(b[(index_t)n2], mn + n2, "[] of an iterator of a huge interval");
      j -= (index_t)(n - n2);
      CHECK_EQ(*j, mn + n2, "-= of an iterator of a huge interval");
      CHECK_EQ(*(j - (index_t)n2), mn, "- of an iterator of a huge interval");
      CHECK_EQ(*++j, mn + n2 + 1, "++ of an iterator of a huge interval");
      CHECK_EQ(*--j, mn + n2, "-- of an iterator of a huge interval");
      CHECK_EQ(v.is_in_range((index_t)(mn + n)), true, "is_in_range of a huge interval");
      CHECK_EQ(v.is_in_range((index_t)(mn - 1 - n)), false, "is_in_range below a huge interval");
      CHECK_EQ(v.is_in_range((index_t)(mn + e + n)), false, "is_in_range above a huge interval");
      CHECK_EQ(nda::clamp((index_t)(mn + e + n), v), mn + e - 1, "clamp above a huge interval");
      CHECK_EQ(nda::clamp((index_t)(mn - 1 - n), v), mn, "clamp below a huge interval");
      count("huge_interval_steps_checked", 13);
    }
  };
  run(nda::interval<>((index_t)mn, (index_t)e));
  run(nda::dim<>((index_t)mn, (index_t)e, 3));
  run(nda::dense_dim<>((index_t)mn, (index_t)e));
  run(nda::r((index_t)mn, (index_t)(mn + e)));
}
// Real memory further than 2^32 elements apart (reserved, touched sparsely).
GROUP(far_memory, 12, 60) {
  if (sizeof(index_t) < 8) return;
  const size_t bytes = 20ull << 30;
  void* p = mmap(nullptr, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { count("far_memory_skipped"); return; }
  char* mem = (char*)p;
  bool neg = I & 1;
  long st = (long)R.range(1L << 31, 9L << 30), e = 2;
  MShape m;
  m.d = {MDim{-3, 4, 1}, MDim{R.range(-9, 9), e, neg ? -st : st}, MDim{7, 3, 1000}};
  desc("far %s", m.str().c_str());
  nontrivial();
  char* base = neg ? mem + st * (e - 1) : mem;
  nda::array_ref_of_rank<char, 3> ref(base, dyn<3>(m));
  m.each([&](const Idx& i) {
    CHECK(&call_idx<3>(ref, i) == base + m.offset(i), "far element address");
    call_idx<3>(ref, i) = (char)m.offset(i);
  });
  CHECK(ref.data() == mem, "data() of a far shape");
  long n = 0;
  ref.for_each_value([&](char&) { n++; });
  CHECK_EQ(n, m.size(), "visits of a far shape");
  auto sl = ref(nda::_, (index_t)m.d[1].max(), nda::_);
  CHECK(sl.base() == base + (e - 1) * (neg ? -st : st), "slice of a far shape");
  munmap(p, bytes);
}
HARNESS_MAIN
