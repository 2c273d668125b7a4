// With -DVERIF_PROP=n: the property n over elements further apart than 2^31, and over extents of more than
// 2^31 that no loop can finish.
#include "far.h"
#include <cstring>
#include <array/ein_reduce.h>
#include <array/z_order.h>
using namespace vh;
using U8 = unsigned char;
static const long LIMIT = FarMem::Range;
static const long STEPS = 150;
template <class Shape>
nda::array_ref<U8, Shape> far_ref(const MShape& m, FarMem& mem) {
  nda::array_ref<U8, Shape> r((U8*)mem.base(), from_mshape<Shape>(m));
  m.each([&](const Idx& i) { *((U8*)mem.base() + m.offset(i)) = far_value(m, i); });
  return r;
}
static bool far_ready() {
  if (sizeof(index_t) < 8) return false;
  if (!FarMem::get().mem || !FarMem::get2().mem) {
    count("far_memory_skipped");
    return false;
  }
  FarMem::get().clear();
  FarMem::get2().clear();
  return true;
}
// Runs fn, which must call step() over and over, until step has thrown Enough.
template <class Fn>
void endless_loop(const char* how, long steps, Fn fn) {
  long n = 0;
  bool left = false;
  try {
    fn([&]() -> long {
      if (n >= steps) throw Enough();
      return n++;
    });
  } catch (Enough&) { left = true; }
  CHECK(left, "%s over more than 2^31 indices ended after %ld calls", how, n);
  count("endless_calls", (unsigned long long)n);
}
// Any element of one byte, which counts operations and stops the loop.
static long g_ops;
static bool g_stop;
struct Stopper {
  char v = 0;
  Stopper() {}
  Stopper(const Stopper&) {}
  static void op() {
    if (g_stop && ++g_ops > STEPS) throw Enough();
  }
  Stopper& operator=(const Stopper&) { op(); return *this; }
  Stopper& operator=(Stopper&&) { op(); return *this; }
  bool operator==(const Stopper&) const { op(); return true; }
  bool operator!=(const Stopper&) const { op(); return false; }
};
template <class Fn>
void endless_ops(const char* how, Fn fn) {
  g_ops = 0;
  g_stop = true;
  bool left = false;
  try { fn(); } catch (Enough&) { left = true; }
  g_stop = false;
  CHECK(left, "%s over more than 2^31 elements ended after %ld operations", how, g_ops);
  count("endless_calls", (unsigned long long)g_ops);
}

#if VERIF_PROP == 5 || VERIF_PROP == 8 || VERIF_PROP == 9 || VERIF_PROP == 10 || VERIF_PROP == 12
// Long dims: 255 to 70001 elements.
static int64_t long_value(long n) { return n * 2654435761L % 1000003; }
template <class T, class A>
void fill_long(A& a, const MShape& m, T* base) {
  long n = 0;
  m.each([&](const Idx& i) { base[m.offset(i)] = (T)long_value(n++); });
  (void)a;
}
// a has the values of an array of shape m, filled by fill_long, at the indices of w, a part of m.
template <class T, class A>
void is_long(const char* how, A& a, const MShape& w, const MShape& m) {
  CHECK(to_mshape(a.shape()).same_bounds(w), "%s of a long array has shape %s", how, to_mshape(a.shape()).str().c_str());
  w.each([&](const Idx& i) {
    long n = 0;
    for (size_t k = m.rank(); k-- > 0;) n = n * m.d[k].ext + (i[k] - m.d[k].min);
    CHECK_EQF((long long)call_idx<A::rank()>(a, i), (long long)(T)long_value(n), "%s of a long array: element %s", how, idx_str(i).c_str());
  });
  count("long_elements_checked", (unsigned long long)w.size());
}
template <class T, size_t N>
void long_case(Rng& R, long t) {
  MShape m = long_shape(R, N);
  desc("long %s of %zu byte elements", m.str().c_str(), sizeof(T));
  nontrivial();
  Arena<T> a(m);
  nda::array_ref_of_rank<T, N> r(a.base, dyn<N>(m));
  fill_long<T>(r, m, a.base);
  (void)t;
#if VERIF_PROP == 5
  std::vector<unsigned char> seen(a.used.size());
  r.for_each_value([&](T& x) {
    long o = &x - a.base;
    CHECK(o >= a.lo && o <= a.hi && a.used[(size_t)a.slot(o)], "for_each_value visited flat offset %ld, which is no element", o);
    CHECK(!seen[(size_t)a.slot(o)]++, "for_each_value visited flat offset %ld twice", o);
    x = (T)(x + 1);
  });
  CHECK(seen == std::vector<unsigned char>(a.used.begin(), a.used.end()), "for_each_value of a long shape left elements out");
  count("long_elements_checked", (unsigned long long)m.size());
#elif VERIF_PROP == 8
  GenOpts o;
  MShape d = gen_subregion(R, m);
  gen_strides(R, d, o);
  Arena<T> b(d);
  nda::array_ref_of_rank<T, N> q(b.base, dyn<N>(d));
  if (t % 2) nda::copy(r, q);
  else nda::move(r, q);
  is_long<T>("copy or move", q, d, m);
  b.verify("copy of a long array_ref");
  auto c = nda::make_compact_copy(r);
  is_long<T>("make_compact_copy", c, m, m);
  if (t % 2) is_long<T>("copy (source)", r, m, m);
#elif VERIF_PROP == 9
  nda::fill(r, (T)77);
  m.each([&](const Idx& i) { CHECK_EQ((int)a.base[m.offset(i)], 77, "fill of a long shape"); });
  long n = 0;
  std::vector<T*> order;
  r.for_each_value([&](T& x) { order.push_back(&x); });
  nda::generate(r, [&]() { return (T)long_value(n++); });
  CHECK_EQ(n, m.size(), "calls of the generator");
  for (size_t k = 0; k < order.size(); k++) CHECK_EQ((long long)*order[k], (long long)(T)long_value((long)k), "value generated in a long shape");
  n = 0;
  nda::transform_index(r, [&](const nda::index_of_rank<N>& i) {
    Idx x = to_idx(i);
    long at = 0;
    for (size_t k = N; k-- > 0;) at = at * m.d[k].ext + (x[k] - m.d[k].min);
    n++;
    return (T)long_value(at);
  });
  CHECK_EQ(n, m.size(), "calls of transform_index");
  is_long<T>("transform_index", r, m, m);
#elif VERIF_PROP == 10
  GenOpts o;
  MShape d = m;
  gen_strides(R, d, o);
  Arena<T> b(d), e(m);
  nda::array_ref_of_rank<T, N> q(b.base, dyn<N>(d)), p(e.base, dyn<N>(m));
  fill_long<T>(q, d, b.base);
  fill_long<T>(p, m, e.base);
  CHECK(nda::equal(r, q) && nda::equal(q, r) && nda::equal(r, p) && r == p && !(r != p), "comparison of equal long array_refs");
  for (int k = 0; k < 4; k++) {
    Idx i;
    for (auto& x : m.d) i.push_back(k == 0 ? x.max() : k == 1 ? x.min : x.min + R.below(x.ext));
    T& x = b.base[d.offset(i)];
    T& y = e.base[m.offset(i)];
    x = (T)(x + 1);
    y = (T)(y + 1);
    CHECK(!nda::equal(r, q) && !nda::equal(q, r), "equal of long array_refs that differ at %s", idx_str(i).c_str());
    CHECK(!(r == p) && r != p && !nda::equal(r, p), "comparison of long array_refs that differ at %s", idx_str(i).c_str());
    x = (T)(x - 1);
    y = (T)(y - 1);
    count("long_comparisons", 6);
  }
#else
  nda::array_of_rank<T, N> x(dyn<N>(m));
  nda::copy(r, x);
  is_long<T>("construction", x, m, m);
  nda::array_of_rank<T, N> y(x), z;
  is_long<T>("copy construction", y, m, m);
  z = y;
  is_long<T>("copy assignment", z, m, m);
  y.assign(dyn<N>(m), (T)9);
  y.for_each_value([](T& v) { CHECK_EQ((int)v, 9, "assign of a long array"); });
  swap(y, z);
  is_long<T>("swap", y, m, m);
  MShape d = gen_subregion(R, m);
  for (auto& k : d.d) k.str = (long)nda::unresolved;
  y.reshape(dyn<N>(d));
  is_long<T>("reshape", y, d, m);
  is_long<T>("the copied array", x, m, m);
#endif
  a.verify("a long shape");
}
GROUP(long_runs, 36, 400) {
  switch (I % 6) {
  case 0: return long_case<U8, 1>(R, I / 6);
  case 1: return long_case<U8, 2>(R, I / 6);
  case 2: return long_case<int, 1>(R, I / 6);
  case 3: return long_case<int, 2>(R, I / 6);
  case 4: return long_case<int64_t, 3>(R, I / 6);
  default: return long_case<short, 2>(R, I / 6);
  }
}
#endif
#if VERIF_PROP == 3
// Values that differ from a compile-time constant by a multiple of 2^32 are not compatible with it.
template <class Shape>
void incompatible(Rng& R, const MShape& ok) {
  using D = nda::shape_of_rank<Shape::rank()>;
  D s = dyn<Shape::rank()>(ok);
  CHECK(nda::is_compatible<Shape>(s), "is_compatible of a compatible shape");
  Shape c = nda::convert_shape<Shape>(s);
  CHECK(to_mshape(c) == ok && c == s && s == c, "conversion of a compatible shape");
  for (size_t k = 0; k < ok.rank(); k++)
    for (int what = 0; what < 3; what++) {
      long by = R.pick<long>({1L << 32, -(1L << 32), 1L << 33, 1L << 48, 1L << 31});
      MShape m = ok;
      (what == 0 ? m.d[k].min : what == 1 ? m.d[k].ext : m.d[k].str) += what == 1 ? labs(by) : by;
      // Is that parameter static?
      MShape t = m;
      apply_static<Shape>(t, std::make_index_sequence<Shape::rank()>());
      std::vector<long> ss = static_strides<Shape>(std::make_index_sequence<Shape::rank()>());
      bool fixed = what == 2 ? ss[k] != (long)nda::dynamic : !(t == m);
      D bad = dyn<Shape::rank()>(m);
      CHECK_EQF(nda::is_compatible<Shape>(bad), !fixed, "is_compatible of %s", m.str().c_str());
      CHECK(bad != s && !(bad == s) && c != bad && !(c == bad), "comparison of shapes that differ by 2^32: %s", m.str().c_str());
      if (!fixed) {
        Shape x = nda::convert_shape<Shape>(bad);
        CHECK(to_mshape(x) == m, "conversion of %s gives %s", m.str().c_str(), to_mshape(x).str().c_str());
        nda::array_ref<U8, Shape> r((U8*)nullptr, x);
        nda::array_ref<U8, D> q = r;
        CHECK(to_mshape(q.shape()) == m, "conversion of an array_ref of %s gives %s", m.str().c_str(), to_mshape(q.shape()).str().c_str());
      }
      count("far_conversions");
    }
}
GROUP(far_constants, 150, 1500) {
  if (sizeof(index_t) < 8) return;
  long a = R.range(-3, 3), e = R.range(1, 5);
  desc("constants %ld %ld", a, e);
  nontrivial();
  incompatible<nda::shape<nda::dim<2, 3, 4>>>(R, MShape{{MDim{2, 3, 4}}});
  incompatible<nda::shape<nda::dim<0>, nda::dense_dim<>>>(R, MShape{{MDim{0, e, e}, MDim{a, e, 1}}});
  incompatible<nda::shape<nda::dim<nda::dynamic, 3>, nda::strided_dim<-2>>>(R, MShape{{MDim{a, 3, 20}, MDim{a, e, -2}}});
  incompatible<nda::chunky_image_shape<3>>(R, MShape{{MDim{a, e, 3}, MDim{a, e, 15}, MDim{0, 3, 1}}});
  incompatible<nda::matrix_shape<>>(R, MShape{{MDim{a, e, 7}, MDim{a, e, 1}}});
}
#endif
#if VERIF_PROP == 4
template <class Shape>
void loops(const MShape& m, const std::vector<size_t>& order) {
  Shape s = from_mshape<Shape>(m);
  auto next = [&](long n) {
    Idx i(m.rank());
    for (size_t d : order) {
      i[d] = m.d[d].min + n % m.d[d].ext;
      n /= m.d[d].ext;
    }
    return i;
  };
  auto judge = [&](const char* how, long n, const Idx& i) { CHECK(i == next(n), "%s call %ld was with %s, expected %s", how, n, idx_str(i).c_str(), idx_str(next(n)).c_str()); };
  endless_loop("for_each_index", STEPS, [&](auto step) { nda::for_each_index(s, [&](const typename Shape::index_type& i) { judge("for_each_index", step(), to_idx(i)); }); });
  endless_loop("for_all_indices", STEPS, [&](auto step) { nda::for_all_indices(s, [&](auto... i) { judge("for_all_indices", step(), Idx{(long)i...}); }); });
}
GROUP(endless, 100, 1000) {
  if (sizeof(index_t) < 8) return;
  size_t which;
  MShape m = endless(R, (size_t)(I % 4) + 1, &which);
  desc("endless %s", m.str().c_str());
  nontrivial();
  switch (I % 4) {
  case 0: return loops<nda::shape_of_rank<1>>(m, {0});
  case 1: {
    loops<nda::shape_of_rank<2>>(m, {0, 1});
    m.d[1].str = 1;
    loops<nda::matrix_shape<>>(m, {1, 0});
    auto s = dyn<2>(m);
    endless_loop("for_all_indices<1, 0>", STEPS, [&](auto step) { nda::for_all_indices<1, 0>(s, [&](index_t x, index_t y) {
      long n = step();
      CHECK(y == m.d[1].min + n % m.d[1].ext && x == m.d[0].min + n / m.d[1].ext, "for_all_indices<1, 0> call %ld", n); }); });
    return;
  }
  case 2: {
    loops<nda::shape_of_rank<3>>(m, {0, 1, 2});
    MShape c = m;
    if (which == 2) return;
    c.d[2] = MDim{0, 3, 1};
    c.d[0].str = 3;
    return loops<nda::chunky_image_shape<3>>(c, {2, 0, 1});
  }
  default: return loops<nda::shape_of_rank<4>>(m, {0, 1, 2, 3});
  }
}
GROUP(endless_ranges, 60, 600) {
  if (sizeof(index_t) < 8) return;
  size_t which;
  MShape m = endless(R, 1, &which);
  MDim d = m.d[0];
  desc("endless range %s", m.str().c_str());
  nontrivial();
  auto run = [&](const auto& v) {
    endless_loop("range-for", STEPS, [&](auto step) { for (index_t i : v) { long n = step(); CHECK_EQ(i, d.min + n, "index of a range-for"); } });
  };
  run(nda::interval<>((index_t)d.min, (index_t)d.ext));
  run(nda::dim<>((index_t)d.min, (index_t)d.ext, 2));
  run(nda::dense_dim<>((index_t)d.min, (index_t)d.ext));
}
#endif
#if VERIF_PROP == 5
GROUP(far_values, 360, 4000) {
  if (!far_ready()) return;
  with_far(R, I, LIMIT, [&](auto tag, const MShape& m) {
    using Shape = typename decltype(tag)::type;
    auto r = far_ref<Shape>(m, FarMem::get());
    std::set<long> seen;
    r.for_each_value([&](U8& x) {
      long o = (long)(&x - (U8*)FarMem::get().base());
      CHECK(m.flat_set().count(o), "for_each_value visited flat offset %ld, which is no element", o);
      CHECK(seen.insert(o).second, "for_each_value visited flat offset %ld twice", o);
    });
    CHECK_EQ((long)seen.size(), m.size(), "elements visited");
  });
}
GROUP(endless_values, 90, 900) {
  if (sizeof(index_t) < 8) return;
  size_t which;
  MShape m = endless(R, (size_t)(I % 3) + 1, &which);
  // Other dims than the endless one address different elements.
  U8 mem[64];
  long st = 1;
  for (size_t k = 0; k < m.rank(); k++)
    if (k != which) { m.d[k].str = st; st *= m.d[k].ext; }
  desc("endless %s", m.str().c_str());
  nontrivial();
  with_rank<1, 3>(m.rank(), [&](auto r) {
    nda::array_ref_of_rank<U8, decltype(r)::value> a(mem, dyn<decltype(r)::value>(m));
    endless_loop("for_each_value", STEPS, [&](auto step) { a.for_each_value([&](U8& x) { step(); CHECK(&x >= mem && &x < mem + st, "for_each_value visited something else"); }); });
  });
}
#endif
#if VERIF_PROP == 6
template <size_t N, class A, class Src>
void judge_view(const char* how, A v, Src& src, const MShape& m, size_t cut, bool slice, long at, long ext) {
  MShape w;
  for (size_t k = 0; k < m.rank(); k++) {
    if (k != cut) w.d.push_back(m.d[k]);
    else if (!slice) w.d.push_back(MDim{at, ext, m.d[k].str});
  }
  CHECK(to_mshape(v.shape()) == w, "%s of a far array has shape %s, expected %s", how, to_mshape(v.shape()).str().c_str(), w.str().c_str());
  w.each([&](const Idx& i) {
    Idx c = i;
    if (slice) c.insert(c.begin() + (long)cut, at);
    CHECK(&call_idx<A::rank()>(v, i) == (U8*)FarMem::get().base() + m.offset(c), "%s of a far array: element %s", how, idx_str(i).c_str());
    CHECK_EQF((int)call_idx<A::rank()>(v, i), (int)far_value(m, c), "%s of a far array: value", how);
  });
  (void)src;
  count("far_views");
}
using nda::_;
struct Views {
  template <class Rf, class P, class At>
  static void go(Rf& r, const MShape& m, P& pick, At at, std::integral_constant<size_t, 1>) {
    pick(0);
    judge_view<1>("crop", r(nda::interval<>((index_t)pick.lo, (index_t)pick.ext)), r, m, 0, false, pick.lo, pick.ext);
    long x = at(0);
    CHECK(&r((index_t)x) == (U8*)FarMem::get().base() + m.offset(Idx{x}), "element of a far array");
  }
  template <class Rf, class P, class At>
  static void go(Rf& r, const MShape& m, P& pick, At at, std::integral_constant<size_t, 2>) {
    pick(0);
    judge_view<2>("crop", r(nda::interval<>((index_t)pick.lo, (index_t)pick.ext), _), r, m, 0, false, pick.lo, pick.ext);
    pick(1);
    judge_view<2>("crop", r(_, nda::interval<>((index_t)pick.lo, (index_t)pick.ext)), r, m, 1, false, pick.lo, pick.ext);
    long x = at(0), y = at(1);
    judge_view<2>("slice", r((index_t)x, _), r, m, 0, true, x, 0);
    judge_view<2>("slice", r(_, (index_t)y), r, m, 1, true, y, 0);
    judge_view<2>("slice", r[std::make_tuple(_, (index_t)y)], r, m, 1, true, y, 0);
  }
  template <class Rf, class P, class At>
  static void go(Rf& r, const MShape& m, P& pick, At at, std::integral_constant<size_t, 3>) {
    pick(0);
    judge_view<3>("crop", r(nda::interval<>((index_t)pick.lo, (index_t)pick.ext), _, _), r, m, 0, false, pick.lo, pick.ext);
    pick(1);
    judge_view<3>("crop", r(_, nda::interval<>((index_t)pick.lo, (index_t)pick.ext), _), r, m, 1, false, pick.lo, pick.ext);
    pick(2);
    judge_view<3>("crop", r(_, _, nda::interval<>((index_t)pick.lo, (index_t)pick.ext)), r, m, 2, false, pick.lo, pick.ext);
    long x = at(0), y = at(1), z = at(2);
    judge_view<3>("slice", r((index_t)x, _, _), r, m, 0, true, x, 0);
    judge_view<3>("slice", r(_, (index_t)y, _), r, m, 1, true, y, 0);
    judge_view<3>("slice", r(_, _, (index_t)z), r, m, 2, true, z, 0);
  }
  template <class Rf, class P, class At>
  static void go(Rf& r, const MShape& m, P& pick, At at, std::integral_constant<size_t, 4>) {
    pick(1);
    judge_view<4>("crop", r(_, nda::interval<>((index_t)pick.lo, (index_t)pick.ext), _, _), r, m, 1, false, pick.lo, pick.ext);
    pick(3);
    judge_view<4>("crop", r(_, _, _, nda::interval<>((index_t)pick.lo, (index_t)pick.ext)), r, m, 3, false, pick.lo, pick.ext);
    long w = at(0), z = at(3);
    judge_view<4>("slice", r((index_t)w, _, _, _), r, m, 0, true, w, 0);
    judge_view<4>("slice", r(_, _, _, (index_t)z), r, m, 3, true, z, 0);
  }
};
GROUP(far_views, 360, 4000) {
  if (!far_ready()) return;
  with_far(R, I, LIMIT, [&](auto tag, const MShape& m) {
    using Shape = typename decltype(tag)::type;
    constexpr size_t N = Shape::rank();
    auto r = far_ref<Shape>(m, FarMem::get());
    auto at = [&](size_t k) { return m.d[k].min + R.below(m.d[k].ext); };
    struct { Rng& R; const MShape& m; long lo, ext; void operator()(size_t k) { lo = m.d[k].min + R.below(m.d[k].ext); ext = 1 + R.below(m.d[k].max() - lo + 1); } } pick{R, m, 0, 0};
    Views::go(r, m, pick, at, std::integral_constant<size_t, N>());
  });
}
#endif
#if VERIF_PROP == 7
template <size_t... P, class A>
void permuted(const A& r, const MShape& m, bool reordered) {
  MShape w;
  for (size_t p : {P...}) w.d.push_back(m.d[p]);
  auto judge = [&](const char* how, auto v) {
    CHECK(to_mshape(v.shape()) == w, "%s of a far array_ref has shape %s, expected %s", how, to_mshape(v.shape()).str().c_str(), w.str().c_str());
    std::set<long> seen;
    w.each([&](const Idx& i) {
      Idx c(i.size());
      size_t k = 0;
      for (size_t p : {P...}) c[p] = i[k++];
      CHECK(&call_idx<sizeof...(P)>(v, i) == (U8*)FarMem::get().base() + m.offset(c), "%s of a far array_ref: element %s", how, idx_str(i).c_str());
    });
    v.for_each_value([&](U8& x) { seen.insert((long)(&x - (U8*)FarMem::get().base())); });
    CHECK(seen == m.flat_set(), "%s of a far array_ref: elements traversed", how);
    count("far_views");
  };
  if (reordered) judge("reorder", nda::reorder<P...>(r));
  judge("transpose", nda::transpose<P...>(r));
}
template <class A>
void perms(const A& r, const MShape& m, std::integral_constant<size_t, 1>) { permuted<0>(r, m, true); }
template <class A>
void perms(const A& r, const MShape& m, std::integral_constant<size_t, 2>) { permuted<1, 0>(r, m, true); permuted<0, 1>(r, m, true); }
template <class A>
void perms(const A& r, const MShape& m, std::integral_constant<size_t, 3>) { permuted<2, 0, 1>(r, m, true); permuted<1, 2, 0>(r, m, true); permuted<2, 1, 0>(r, m, true); }
template <class A>
void perms(const A& r, const MShape& m, std::integral_constant<size_t, 4>) { permuted<2, 3, 0, 1>(r, m, true); permuted<3, 2, 1, 0>(r, m, true); }
GROUP(far_reordered, 270, 3000) {
  if (!far_ready()) return;
  with_far(R, I, LIMIT, [&](auto tag, const MShape& m) {
    using Shape = typename decltype(tag)::type;
    constexpr size_t N = Shape::rank();
    auto r = far_ref<Shape>(m, FarMem::get());
    perms(r, m, std::integral_constant<size_t, N>());
    auto c = nda::convert_shape<nda::shape_of_rank<N + 1>>(r);
    MShape w = m;
    CHECK(to_mshape(c.shape()).d[N].ext == 1, "added dim");
    for (size_t k = 0; k < N; k++) CHECK(to_mshape(c.shape()).d[k] == w.d[k], "dim kept by convert_shape of a far array_ref");
    m.each([&](const Idx& i) {
      Idx j = i;
      j.push_back(to_mshape(c.shape()).d[N].min);
      CHECK(&call_idx<N + 1>(c, j) == (U8*)FarMem::get().base() + m.offset(i), "element of a converted far array_ref");
    });
    auto s = nda::reinterpret<signed char>(r);
    CHECK(to_mshape(s.shape()) == m && (void*)s.base() == (void*)r.base(), "reinterpret of a far array_ref");
  });
}
#endif
#if VERIF_PROP == 8
GROUP(far_copies, 360, 4000) {
  if (!far_ready()) return;
  with_far(R, I, LIMIT, [&](auto tag, const MShape& m) {
    using Shape = typename decltype(tag)::type;
    constexpr size_t N = Shape::rank();
    auto r = far_ref<Shape>(m, FarMem::get());
    auto same = [&](const char* how, auto& a, const MShape& got) {
      got.each([&](const Idx& i) { CHECK_EQF((int)call_idx<N>(a, i), (int)far_value(m, i), "%s of a far array_ref: element %s", how, idx_str(i).c_str()); });
      count("far_copies", (unsigned long long)got.size());
    };
    auto near = nda::make_compact_copy(r);
    same("make_compact_copy", near, m);
    nda::array_of_rank<U8, N> dst(dyn<N>([&] { MShape x = m; for (auto& d : x.d) d.str = (long)nda::unresolved; return x; }()));
    nda::copy(r, dst);
    same("copy", dst, m);
    // Part of it.
    MShape part = m;
    for (auto& d : part.d) {
      long lo = d.min + R.below(d.ext);
      d.ext = 1 + R.below(d.max() - lo + 1);
      d.min = lo;
      d.str = (long)nda::unresolved;
    }
    nda::array_of_rank<U8, N> p(dyn<N>(part));
    nda::move(r, p);
    same("move", p, part);
    // To another far layout.
    MShape f = m;
    if (!far_strides(R, f, std::vector<long>(N, 0), LIMIT)) return;
    nda::array_ref_of_rank<U8, N> far((U8*)FarMem::get2().base(), dyn<N>(f));
    nda::copy(r, far);
    same("copy to another far array_ref", far, m);
    f.each([&](const Idx& i) { CHECK(&call_idx<N>(far, i) == (U8*)FarMem::get2().base() + f.offset(i), "far destination"); });
    r.for_each_value([](U8& x) { x = 0; });
    nda::copy(near, r);
    same("copy from a compact array", r, m);
    r.for_each_value([](U8& x) { x = 0; });
    nda::move(far, r);
    same("move back", r, m);
  });
}
GROUP(endless_copies, 60, 600) {
  if (sizeof(index_t) < 8) return;
  size_t which;
  MShape m = endless(R, (size_t)(I % 3) + 1, &which);
  desc("endless %s", m.str().c_str());
  nontrivial();
  Stopper a, b;
  with_rank<1, 3>(m.rank(), [&](auto r) {
    constexpr size_t N = decltype(r)::value;
    nda::array_ref_of_rank<Stopper, N> x(&a, dyn<N>(m)), y(&b, dyn<N>(m));
    endless_ops("copy", [&] { nda::copy(x, y); });
    endless_ops("move", [&] { nda::move(x, y); });
  });
}
#endif
#if VERIF_PROP == 9
GROUP(far_writes, 270, 3000) {
  if (!far_ready()) return;
  with_far(R, I, LIMIT, [&](auto tag, const MShape& m) {
    using Shape = typename decltype(tag)::type;
    auto r = far_ref<Shape>(m, FarMem::get());
    U8* base = (U8*)FarMem::get().base();
    nda::fill(r, (U8)77);
    m.each([&](const Idx& i) { CHECK_EQ((int)base[m.offset(i)], 77, "fill of a far array_ref"); });
    int n = 0;
    nda::generate(r, [&]() { return (U8)++n; });
    CHECK_EQ(n, m.size(), "calls of the generator");
    std::set<int> got;
    m.each([&](const Idx& i) { got.insert(base[m.offset(i)]); });
    CHECK_EQ((long)got.size(), std::min<long>(256, m.size()), "values generated in a far array_ref");
    nda::transform_index(r, [&](const typename Shape::index_type& i) { return far_value(m, to_idx(i)); });
    m.each([&](const Idx& i) { CHECK_EQ((int)base[m.offset(i)], (int)far_value(m, i), "transform_index of a far array_ref"); });
    nda::transform_indices(r, [&](auto... i) { return (U8)~far_value(m, Idx{(long)i...}); });
    m.each([&](const Idx& i) { CHECK_EQ((int)base[m.offset(i)], (int)(U8)~far_value(m, i), "transform_indices of a far array_ref"); });
  });
}
GROUP(endless_writes, 60, 600) {
  if (sizeof(index_t) < 8) return;
  size_t which;
  MShape m = endless(R, (size_t)(I % 3) + 1, &which);
  desc("endless %s", m.str().c_str());
  nontrivial();
  Stopper a, v;
  U8 u = 0;
  with_rank<1, 3>(m.rank(), [&](auto r) {
    constexpr size_t N = decltype(r)::value;
    nda::array_ref_of_rank<Stopper, N> x(&a, dyn<N>(m));
    nda::array_ref_of_rank<U8, N> y(&u, dyn<N>(m));
    endless_ops("fill", [&] { nda::fill(x, v); });
    endless_loop("generate", STEPS, [&](auto step) { nda::generate(y, [&]() { return (U8)step(); }); });
    endless_loop("transform_index", STEPS, [&](auto step) { nda::transform_index(y, [&](const nda::index_of_rank<N>&) { return (U8)step(); }); });
    endless_loop("transform_indices", STEPS, [&](auto step) { nda::transform_indices(y, [&](auto...) { return (U8)step(); }); });
  });
}
#endif
#if VERIF_PROP == 10
GROUP(far_equal, 270, 3000) {
  if (!far_ready()) return;
  with_far(R, I, LIMIT, [&](auto tag, const MShape& m) {
    using Shape = typename decltype(tag)::type;
    constexpr size_t N = Shape::rank();
    auto r = far_ref<Shape>(m, FarMem::get());
    auto near = nda::make_compact_copy(r);
    auto f = far_ref<Shape>(m, FarMem::get2());
    CHECK(nda::equal(r, near) && nda::equal(near, r) && nda::equal(r, f), "equal of far array_refs with the same values");
    CHECK(r == f && !(r != f), "== of far array_refs with the same values");
    std::vector<Idx> all = m.indices();
    for (int t = 0; t < 4; t++) {
      const Idx& i = all[(size_t)R.below((long)all.size())];
      call_idx<N>(near, i) ^= 4;
      call_idx<N>(f, i) ^= 4;
      CHECK(!nda::equal(r, near) && !nda::equal(near, r) && !nda::equal(r, f), "equal of far array_refs that differ at %s", idx_str(i).c_str());
      CHECK(!(r == f) && r != f, "== of far array_refs that differ at %s", idx_str(i).c_str());
      call_idx<N>(near, i) ^= 4;
      call_idx<N>(f, i) ^= 4;
    }
    count("far_comparisons", 12);
  });
}
// Shapes that differ by a multiple of 2^32 are different.
GROUP(far_shapes_differ, 200, 2000) {
  if (sizeof(index_t) < 8) return;
  MShape m;
  m.d.resize(2);
  for (auto& d : m.d) d = MDim{R.range(-3, 3), R.range(0, 3), R.range(1, 4)};
  m.d[0].ext = 0;
  MShape n = m;
  long by = R.pick<long>({1L << 32, -(1L << 32), 1L << 33, 1L << 40, 1L << 31});
  size_t k = (size_t)R.below(2);
  int what = (int)(I % 3);
  if (what == 0) n.d[k].min += by;
  if (what == 1) n.d[k].str += by;
  if (what == 2) { k = 1; n.d[1].ext += labs(by); }
  desc("%s, %s", m.str().c_str(), n.str().c_str());
  nontrivial();
  U8 x = 0;
  nda::array_ref_of_rank<U8, 2> a(&x, dyn<2>(m)), b(&x, dyn<2>(n));
  CHECK(a != b && !(a == b), "== of array_refs whose shapes differ by 2^32");
  CHECK_EQ(nda::equal(a, b), what == 1, "equal of array_refs whose shapes differ by 2^32");
  CHECK(!(a.shape() == b.shape()) && a.shape() != b.shape(), "== of shapes that differ by 2^32");
  CHECK(!(a.shape().dim(k) == b.shape().dim(k)) && a.shape().dim(k) != b.shape().dim(k), "== of dims that differ by 2^32");
}
GROUP(endless_equal, 60, 600) {
  if (sizeof(index_t) < 8) return;
  size_t which;
  MShape m = endless(R, (size_t)(I % 3) + 1, &which);
  desc("endless %s", m.str().c_str());
  nontrivial();
  Stopper a, b;
  with_rank<1, 3>(m.rank(), [&](auto r) {
    constexpr size_t N = decltype(r)::value;
    nda::array_ref_of_rank<Stopper, N> x(&a, dyn<N>(m)), y(&b, dyn<N>(m));
    endless_ops("equal", [&] { (void)nda::equal(x, y); });
    endless_ops("==", [&] { (void)(x == y); });
    endless_ops("!=", [&] { (void)(x != y); });
  });
}
#endif
#if VERIF_PROP == 12 || VERIF_PROP == 13 || VERIF_PROP == 15 || VERIF_PROP == 16
// Reserves memory for as many elements as asked, and checks that as many are given back.
static std::map<void*, size_t> g_blocks;
template <class T>
struct FarAlloc {
  using value_type = T;
  FarAlloc() {}
  template <class U>
  FarAlloc(const FarAlloc<U>&) {}
  T* allocate(size_t n) {
    void* p = mmap(nullptr, n * sizeof(T) + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) throw std::bad_alloc();
    madvise(p, n * sizeof(T) + 8192, MADV_NOHUGEPAGE);
    g_blocks[p] = n;
    return (T*)p;
  }
  void deallocate(T* p, size_t n) {
    auto it = g_blocks.find((void*)p);
    if (it == g_blocks.end()) fail("a far array returned a block it did not get");
    if (it->second != n) fail("a far array returned %zu elements of a block of %zu", n, it->second);
    munmap((void*)p, n * sizeof(T) + 8192);
    g_blocks.erase(it);
    count("far_blocks_returned");
  }
  bool operator==(const FarAlloc&) const { return true; }
  bool operator!=(const FarAlloc&) const { return false; }
};
static bool far_arrays() {
  if (sizeof(index_t) < 8) return false;
  void* p = mmap(nullptr, 40ul << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    count("far_memory_skipped");
    return false;
  }
  munmap(p, 40ul << 30);
  return true;
}
template <class A>
void set(A& a, const MShape& m, int add = 0) {
  m.each([&](const Idx& i) { call_idx<A::rank()>(a, i) = (U8)(far_value(m, i) + add); });
}
template <class A>
void is(const char* how, A& a, const MShape& m, int add = 0) {
  CHECK(to_mshape(a.shape()) == m, "%s of a far array has shape %s, expected %s", how, to_mshape(a.shape()).str().c_str(), m.str().c_str());
  CHECK_EQF(g_blocks.count((void*)a.data()), 1, "%s of a far array: blocks at data()", how);
  long lo, hi;
  m.flat_range(&lo, &hi);
  CHECK((long)g_blocks[(void*)a.data()] >= hi - lo + 1, "%s of a far array: its block has %zu elements, its shape needs %ld", how, g_blocks[(void*)a.data()], hi - lo + 1);
  m.each([&](const Idx& i) {
    CHECK(&call_idx<A::rank()>(a, i) == a.data() + (m.offset(i) - lo), "%s of a far array: address of element %s", how, idx_str(i).c_str());
    CHECK_EQF((int)call_idx<A::rank()>(a, i), (int)(U8)(far_value(m, i) + add), "%s of a far array: element %s", how, idx_str(i).c_str());
  });
  count("far_arrays_checked");
}
GROUP(far_arrays, 180, 2000) {
  if (!far_arrays()) return;
  with_far(R, I, LIMIT, [&](auto tag, const MShape& m) {
    using Shape = typename decltype(tag)::type;
    constexpr size_t N = Shape::rank();
    using A = nda::array<U8, Shape, FarAlloc<U8>>;
    {
      Shape s = from_mshape<Shape>(m);
      A a(s);
      set(a, m);
      is("construction", a, m);
#if VERIF_PROP == 12 || VERIF_PROP == 13
      A b(a);
      is("copy construction", b, m);
      set(b, m, 1);
      is("write to a copy", a, m);
      A c;
      c = b;
      is("copy assignment", c, m, 1);
      A d(std::move(b));
      is("move construction", d, m, 1);
      b = a;
      is("assignment after a move", b, m);
      swap(b, d);
      is("swap", b, m, 1);
      is("swap", d, m);
      d = std::move(b);
      is("move assignment", d, m, 1);
      d.assign(s, (U8)9);
      m.each([&](const Idx& i) { CHECK_EQ((int)call_idx<N>(d, i), 9, "assign of a far array"); });
      d.clear();
      c.assign(a);
      is("assign", c, m);
#elif VERIF_PROP == 15
      MShape n = m;
      for (size_t k = 0; k < N; k++) {
        if (m.d[k].ext > 1 && R.chance(50)) n.d[k].ext = 1 + R.below(m.d[k].ext);
        if (R.chance(40)) n.d[k].min += R.range(-1, 1);
      }
      apply_static<Shape>(n, std::make_index_sequence<N>());
      a.reshape(from_mshape<Shape>(n));
      CHECK(to_mshape(a.shape()) == n, "shape of a reshaped far array");
      n.each([&](const Idx& i) {
        if (m.contains(i)) CHECK_EQF((int)call_idx<N>(a, i), (int)far_value(m, i), "element %s kept by reshape of a far array", idx_str(i).c_str());
        else CHECK_EQF((int)call_idx<N>(a, i), 0, "element %s made by reshape of a far array", idx_str(i).c_str());
      });
      auto near = nda::make_compact_copy(a, FarAlloc<U8>());
      (void)near;
#else
      U8* data = a.data();
      long lo, hi;
      m.flat_range(&lo, &hi);
      // One element, or two far apart, anywhere in the block.
      long at = R.chance(50) ? hi : lo + R.range(0, hi - lo);
      data[at - lo] = 201;
      auto one = nda::reinterpret_shape(a, nda::shape_of_rank<1>(nda::dim<>(5, 1, 1)), (index_t)at);
      CHECK(&one(5) == data + (at - lo) && one(5) == 201, "reinterpret_shape of a far array by %ld", at);
      auto two = nda::reinterpret_shape(a, nda::shape_of_rank<1>(nda::dim<>(-1, 2, (index_t)(lo - hi))), (index_t)hi);
      CHECK(&two(-1) == data + (hi - lo) && &two(0) == data, "reinterpret_shape of a far array, backwards");
      auto r = a.ref();
      r.set_shape(r.shape(), 0);
      CHECK(r.base() == a.base(), "set_shape of a far array_ref by 0");
      auto b = nda::move_reinterpret_shape<nda::shape_of_rank<1>>(std::move(a), nda::shape_of_rank<1>(nda::dim<>(-1, 2, (index_t)(lo - hi))), (index_t)hi);
      CHECK(&b(-1) == data + (hi - lo) && &b(0) == data, "move_reinterpret_shape of a far array");
      b.set_shape(nda::shape_of_rank<1>(nda::dim<>(3, 1, 1)), (index_t)(at - hi));
      CHECK(&b(3) == data + (at - lo) && b(3) == 201, "set_shape of a far array by %ld", at - hi);
#endif
    }
    CHECK_EQ((long)g_blocks.size(), 0, "blocks of far arrays left");
  });
}
#endif
#if VERIF_PROP == 17
GROUP(endless_split, 300, 3000) {
  if (sizeof(index_t) < 8) return;
  size_t which;
  MShape m = endless(R, 1, &which);
  MDim d = m.d[0];
  long n = R.pick<long>({1, 2, 3, 7, 16, 1000, (1L << 31) - 1, 1L << 31, 1L << 32, (1L << 32) + 1, 1L << 20});
  desc("split [%ld, +%ld) by %ld", d.min, d.ext, n);
  nontrivial();
  nda::interval<> v((index_t)d.min, (index_t)d.ext);
  auto judge = [&](const char* how, const auto& s, long w, bool overlap) {
    long pieces = (d.ext + w - 1) / w;
    CHECK_EQF((long)s.size(), pieces, "%s: size() of a huge split", how);
    auto piece = [&](long k, const auto& p) {
      long lo = d.min + k * w, e = w;
      if (k == pieces - 1) {
        if (overlap) lo = d.max() - w + 1;
        else e = d.max() - lo + 1;
      }
      CHECK(p.min() == lo && p.extent() == e, "%s: piece %ld of a huge split is [%ld, +%ld), expected [%ld, +%ld)", how, k, (long)p.min(), (long)p.extent(), lo, e);
      count("huge_pieces_checked");
    };
    for (long k : {0L, pieces - 1, pieces / 2, R.range(0, pieces - 1), R.range(0, pieces - 1)}) {
      piece(k, *s[(index_t)k]);
      piece(k, s.begin()[(index_t)k]);
      auto it = s.begin();
      it += (index_t)k;
      piece(k, *it);
    }
    long k = 0;
    for (auto p : s) {
      if (k >= 20) break;
      piece(k++, p);
    }
    CHECK_EQF(k, std::min(20L, pieces), "%s: pieces iterated", how);
    CHECK(s.begin() + (index_t)pieces == s.end(), "%s: begin() + size() of a huge split is end()", how);
  };
  judge("split(v, n)", nda::split(v, (index_t)n), n, false);
  judge("split(dim, n)", nda::split(nda::dim<>((index_t)d.min, (index_t)d.ext, 3), (index_t)n), n, false);
  judge("split<7>(v)", nda::split<7>(v), 7, true);
  judge("split<65536>(v)", nda::split<65536>(v), 65536, true);
}
#endif
#if VERIF_PROP == 18
GROUP(endless_z_order, 40, 400) {
  if (sizeof(index_t) < 8) return;
  size_t rank = (size_t)(I % 3) + 1, which;
  MShape m = endless(R, rank, &which);
  // Both dims long, so that the curve is that of a square or cube, or only one.
  if (R.chance(50))
    for (auto& d : m.d) d.ext = R.pick<long>({(1L << 32) + 5, (1L << 31) + 2, (1L << 33) + 1});
  desc("endless %s", m.str().c_str());
  nontrivial();
  auto iv = [&](size_t k) { return nda::interval<>((index_t)m.d[k].min, (index_t)m.d[k].ext); };
  unsigned __int128 last = 0;
  long n = 0;
  auto visit = [&](auto... i) {
    Idx x{(long)i...};
    unsigned __int128 code = 0;
    for (int b = 0; b < 42; b++)
      for (size_t k = 0; k < rank; k++) code |= (unsigned __int128)((unsigned long)(x[k] - m.d[k].min) >> b & 1) << (b * (long)rank + (long)k);
    for (size_t k = 0; k < rank; k++) CHECK(x[k] >= m.d[k].min && x[k] <= m.d[k].max(), "for_all_in_z_order called with an index outside");
    if (n++) CHECK(code > last, "for_all_in_z_order is not in Morton order");
    else CHECK(code == 0, "for_all_in_z_order does not begin at the first index");
    last = code;
  };
  endless_loop("for_all_in_z_order", STEPS, [&](auto step) {
    auto fn = [&](auto... i) { step(); visit(i...); };
    if (rank == 1) nda::for_all_in_z_order(std::make_tuple(iv(0)), fn);
    if (rank == 2) nda::for_all_in_z_order(std::make_tuple(iv(0), iv(1)), fn);
    if (rank == 3) nda::for_all_in_z_order(std::make_tuple(iv(0), iv(1), iv(2)), fn);
  });
}
#endif
#if VERIF_PROP == 19
using nda::ein;
enum { i = 0, j = 1, k = 2, l = 3 };
template <class A>
void sum(A& r, long& got, std::integral_constant<size_t, 1>) { nda::ein_reduce(ein(got) += nda::cast<long>(ein<i>(r))); }
template <class A>
void sum(A& r, long& got, std::integral_constant<size_t, 2>) { nda::ein_reduce(ein(got) += nda::cast<long>(ein<i, j>(r))); }
template <class A>
void sum(A& r, long& got, std::integral_constant<size_t, 3>) { nda::ein_reduce(ein(got) += nda::cast<long>(ein<k, i, j>(r))); }
template <class A>
void sum(A& r, long& got, std::integral_constant<size_t, 4>) { nda::ein_reduce(ein(got) += nda::cast<long>(ein<i, l, k, j>(r))); }
GROUP(far_reduce, 180, 2000) {
  if (!far_ready()) return;
  with_far(R, I, LIMIT, [&](auto tag, const MShape& m) {
    using Shape = typename decltype(tag)::type;
    constexpr size_t N = Shape::rank();
    auto r = far_ref<Shape>(m, FarMem::get());
    long want = 0, got = 0;
    m.each([&](const Idx& x) { want += far_value(m, x); });
    sum(r, got, std::integral_constant<size_t, N>());
    CHECK_EQ(got, want, "sum of a far array_ref");
    count("far_reductions");
  });
}
GROUP(far_assign, 90, 1000) {
  if (!far_ready()) return;
  MShape m;
  m.d = {MDim{gen_min(R), R.range(1, 4), 0}, MDim{gen_min(R), R.range(1, 4), 0}};
  if (!far_strides(R, m, {0, 0}, LIMIT)) return;
  desc("far assignment %s", m.str().c_str());
  nontrivial();
  auto r = far_ref<nda::shape_of_rank<2>>(m, FarMem::get());
  MShape t;
  t.d = {MDim{m.d[1].min, m.d[1].ext, 0}, MDim{m.d[0].min, m.d[0].ext, 0}};
  if (!far_strides(R, t, {0, 0}, LIMIT)) return;
  nda::array_ref_of_rank<U8, 2> q((U8*)FarMem::get2().base(), dyn<2>(t));
  enum { i = 0, j = 1 };
  nda::ein_reduce(nda::ein<j, i>(q) = nda::ein<i, j>(r));
  m.each([&](const Idx& x) { CHECK_EQ((int)((U8*)FarMem::get2().base())[t.offset(Idx{x[1], x[0]})], (int)far_value(m, x), "transposed assignment of far array_refs"); });
  count("far_reductions");
}
// Operands made from a pointer and a length.
GROUP(long_pointers, 40, 400) {
  long n = R.pick<long>({65535, 65536, 65537, 70000, 131073, 32768, 100000, 32767, 200000});
  desc("pointer and %ld", n);
  nontrivial();
  std::vector<U8> v((size_t)n);
  long want = 0, got = 0;
  for (auto& x : v) want += x = (U8)R.below(200);
  nda::ein_reduce(ein(got) += nda::cast<long>(ein<i>(v.data(), (size_t)n)));
  CHECK_EQ(got, want, "sum of a long pointer operand");
  nda::dense_array<U8, 1> w({(index_t)n}, 0);
  nda::ein_reduce(ein<i>(w) = ein<i>(v.data(), (size_t)n));
  CHECK(memcmp(w.data(), v.data(), (size_t)n) == 0, "assignment from a long pointer operand");
  CHECK_EQ(nda::make_ein_reduce_shape<i>(ein<i>(v.data(), (size_t)n)).template dim<0>().extent(), n, "extent of a long pointer operand");
  count("far_reductions", 3);
  if (sizeof(index_t) < 8 || !far_ready()) return;
  long far = R.pick<long>({1L << 31, (1L << 32) + 1, 1L << 32, (1L << 33) + 3});
  long sum = 0;
  endless_loop("ein_reduce of a pointer", STEPS, [&](auto step) {
    auto fn = [&](index_t x) { long c = step(); CHECK_EQ(x, c, "index of an endless reduction"); return 1L; };
    nda::ein_reduce(ein(sum) += nda::cast<long>(ein<i>((U8*)FarMem::get().base(), (size_t)far)) * ein<i>(fn));
  });
}
GROUP(endless_reduce, 60, 600) {
  if (sizeof(index_t) < 8) return;
  size_t which;
  MShape m = endless(R, (size_t)(I % 2) + 1, &which);
  desc("endless %s", m.str().c_str());
  nontrivial();
  U8 u = 1;
  long sum = 0;
  enum { i = 0, j = 1 };
  // The extents come from the broadcast array_ref; the function ends the loop.
  if (m.rank() == 1) {
    nda::array_ref_of_rank<U8, 1> a(&u, dyn<1>(m));
    endless_loop("ein_reduce", STEPS, [&](auto step) {
      auto fn = [&](index_t x) { long n = step(); CHECK_EQ(x, m.d[0].min + n, "index of an endless reduction"); return 1L; };
      nda::ein_reduce(nda::ein(sum) += nda::ein<i>(a) * nda::ein<i>(fn));
    });
  } else {
    nda::array_ref_of_rank<U8, 2> a(&u, dyn<2>(m));
    endless_loop("ein_reduce", STEPS, [&](auto step) {
      auto fn = [&](index_t x, index_t y) {
        long n = step();
        CHECK(x == m.d[0].min + n % m.d[0].ext && y == m.d[1].min + n / m.d[0].ext, "indices of an endless reduction");
        return 1L;
      };
      nda::ein_reduce(nda::ein(sum) += nda::ein<i, j>(a) * nda::ein<i, j>(fn));
    });
  }
}
#endif
#if VERIF_PROP == 20
GROUP(far_shapes, 200, 2000) {
  if (sizeof(index_t) < 8) return;
  // Only the shape can be made.
  MShape m;
  m.d.resize(3);
  for (auto& d : m.d) d = MDim{R.pick<long>({0, -5, 1L << 33, -(1L << 40)}), R.pick<long>({1, 2, (1L << 31) + 1, 1L << 32, 70000}), 0};
  while (m.d[0].ext > (1L << 60) / m.d[1].ext / m.d[2].ext) m.d[R.below(3) == 0 ? 0 : R.chance(50) ? 1 : 2].ext = 2;
  desc("far %s", m.str().c_str());
  nontrivial();
  U8 u = 0;
  enum { i = 0, j = 1, k = 2 };
  nda::array_ref_of_rank<U8, 2> a(&u, dyn<2>(MShape{{m.d[0], m.d[1]}}));
  nda::array_ref_of_rank<U8, 2> b(&u, dyn<2>(MShape{{m.d[1], m.d[2]}}));
  auto judge = [&](const char* how, const auto& s, std::vector<size_t> dims) {
    MShape w;
    for (size_t d : dims) w.d.push_back(m.d[d]);
    long st = 1;
    for (auto& d : w.d) { d.str = st; st *= d.ext; }
    CHECK(to_mshape(s) == w, "%s: shape %s, expected %s", how, to_mshape(s).str().c_str(), w.str().c_str());
    count("far_shapes_inferred");
  };
  judge("<i, k>", nda::make_ein_reduce_shape<i, k>(nda::ein<i, j>(a) * nda::ein<j, k>(b)), {0, 2});
  judge("<k, i>", nda::make_ein_reduce_shape<k, i>(nda::ein<i, j>(a) * nda::ein<j, k>(b)), {2, 0});
  judge("<j>", nda::make_ein_reduce_shape<j>(nda::ein<i, j>(a) * nda::ein<j, k>(b)), {1});
  judge("<k, j, i>", nda::make_ein_reduce_shape<k, j, i>(nda::ein<i, j>(a) * nda::ein<j, k>(b)), {2, 1, 0});
}
#endif
#if VERIF_PROP == 22
GROUP(far_predicates, 600, 6000) {
  if (sizeof(index_t) < 8) return;
  size_t rank = (size_t)(I % 4) + 1;
  MShape m;
  m.d.resize(rank);
  // Nested dims: compact, or with one gap.
  long st = 1, gap_at = R.chance(50) ? R.below((long)rank) : -1;
  std::vector<size_t> p = gen_perm(R, rank);
  for (size_t q = 0; q < rank; q++) {
    MDim& d = m.d[p[q]];
    d.min = R.pick<long>({0, -4, 1L << 35, -(1L << 33)});
    d.ext = R.pick<long>({2, 3, 1L << 16, (1L << 31) + 1, 1L << 32});
    if ((long)q == gap_at) st += R.pick<long>({1, 1L << 31, 1L << 32});
    if (st > (1L << 57) / d.ext) d.ext = 2;
    d.str = st;
    st = d.str * d.ext;
    if (R.chance(30)) d.str = -d.str;
  }
  long lo, hi;
  m.flat_range(&lo, &hi);
  desc("far %s", m.str().c_str());
  nontrivial();
  with_rank<1, 4>(rank, [&](auto r) {
    constexpr size_t N = decltype(r)::value;
    auto s = dyn<N>(m);
    CHECK_EQ(s.is_one_to_one(), true, "is_one_to_one of a huge shape");
    __int128 size = 1;
    for (auto& d : m.d) size *= d.ext;
    CHECK_EQ(s.is_compact(), size == (__int128)hi - lo + 1, "is_compact of a huge shape");
    CHECK_EQ((long)s.size(), (long)size, "size of a huge shape");
    CHECK_EQ(s.flat_min(), lo, "flat_min of a huge shape");
    CHECK_EQ(s.flat_max(), hi, "flat_max of a huge shape");
    CHECK_EQ(s.flat_extent(), hi - lo + 1, "flat_extent of a huge shape");
    for (long by : {0L, 1L, -1L, 1L << 32, -(1L << 32), 1L << 31, -(1L << 31), (1L << 40) + 1}) {
      // The same shape shifted fits only unshifted; one element fits where it is in range.
      CHECK_EQF(s.is_subset_of(s, (index_t)by), by == 0, "is_subset_of of a huge shape with itself shifted by %ld", by);
      nda::shape_of_rank<1> one(nda::dim<>(0, 1, 1));
      CHECK_EQF(one.is_subset_of(s, (index_t)by), 0 >= lo + by && 0 <= hi + by, "is_subset_of of one element in a huge shape shifted by %ld", by);
    }
    auto c = nda::make_compact(s);
    MShape w = m;
    long cs = 1;
    for (auto& d : w.d) { d.str = cs; cs *= d.ext; }
    CHECK(to_mshape(c) == w, "make_compact of a huge shape is %s, expected %s", to_mshape(c).str().c_str(), w.str().c_str());
    CHECK(c.is_compact() && c.is_one_to_one(), "make_compact of a huge shape is compact");
    count("far_predicates", 25);
  });
}
#endif
HARNESS_MAIN
