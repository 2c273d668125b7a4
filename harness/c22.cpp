// C22: compaction and the layout predicates.
#include "model.h"
#include "types.h"
using namespace vh;
#ifndef VERIF_PART
#define VERIF_PART 1
#endif

static const long UN = (long)nda::unresolved, DYN = (long)nda::dynamic;

template <class Shape, size_t... Is>
std::vector<std::array<long, 3>> statics_of(std::index_sequence<Is...>) {
  using D = typename Shape::dims_type;
  return {std::array<long, 3>{{(long)std::tuple_element<Is, D>::type::Min, (long)std::tuple_element<Is, D>::type::Extent,
      (long)std::tuple_element<Is, D>::type::Stride}}...};
}
template <class Shape>
std::vector<std::array<long, 3>> statics() {
  return statics_of<Shape>(std::make_index_sequence<Shape::rank()>());
}
static bool stride0(const MShape& m) {
  for (auto& x : m.d)
    if (x.str == 0 && x.ext > 1) return true;
  return false;
}

// ---------------------------------------------------------------- make_compact
template <class Shape>
void check_make_compact(const MShape& in, const Shape& s) {
  auto c = nda::make_compact(s);
  using C = decltype(c);
  static_assert(C::rank() == Shape::rank(), "rank");
  MShape got = to_mshape(c);
  auto ss = statics<Shape>(), cs = statics<C>();
  CHECK(to_mshape(s) == in, "make_compact changed its argument");
  CHECK(c.is_resolved(), "make_compact left a stride unresolved: %s", got.str().c_str());
  CHECK(got.same_bounds(in), "make_compact changed the bounds: %s", got.str().c_str());
  size_t known = 0, dense = 0;
  MShape fixed;
  for (size_t k = 0; k < in.rank(); k++) {
    CHECK(cs[k][0] == ss[k][0] && cs[k][1] == ss[k][1], "make_compact changed the static bounds of dim %zu", k);
    if (ss[k][2] != DYN) {
      CHECK(got.d[k].str == ss[k][2] && cs[k][2] == ss[k][2], "make_compact changed the static stride of dim %zu: %s", k, got.str().c_str());
      known++;
      dense += ss[k][2] == 1;
      if (in.d[k].ext > 1) fixed.d.push_back(got.d[k]);
    } else {
      CHECK(got.d[k].str > 0, "make_compact gave a non-positive stride: %s", got.str().c_str());
    }
  }
  if (in.empty() || in.size() > 5000) return;
  if (known == 0 || (known == 1 && dense == 1)) {
    long lo, hi;
    got.flat_range(&lo, &hi);
    CHECK_EQ(hi - lo + 1, in.size(), "flat extent of a compacted shape");
    CHECK(got.one_to_one(), "make_compact gave overlapping elements: %s", got.str().c_str());
    CHECK(c.is_compact() && c.is_one_to_one(), "a compacted shape is not said to be compact and one-to-one: %s", got.str().c_str());
    if (known == 0 && in.rank() > 0) {
      CHECK_EQ(got.d[0].str, 1, "stride of dim 0 of a compacted shape");
      // Row by row: an array of this shape is addressed like a dense array.
      long prod = 1;
      for (size_t k = 0; k < in.rank(); k++) {
        if (in.d[k].ext > 1) CHECK_EQ(got.d[k].str, prod, "row by row stride of a compacted shape");
        prod *= in.d[k].ext;
      }
    }
    count("compacted_shapes_enumerated");
  } else if (!stride0(fixed) && nested(fixed)) {
    CHECK(got.one_to_one(), "make_compact gave overlapping elements: %s", got.str().c_str());
    count("compacted_static_shapes_enumerated");
  }
  // Compacting again changes nothing.
  MShape again = to_mshape(nda::make_compact(c));
  if (known == 0 || (known == 1 && dense == 1)) {
    long lo, hi;
    again.flat_range(&lo, &hi);
    CHECK(again.same_bounds(in) && hi - lo + 1 == in.size() && again.one_to_one(), "compacting twice: %s", again.str().c_str());
  }
}

// make_compact_copy and make_compact_move.
template <class Shape>
void check_compact_copies(Rng& R, const MShape& in, const Shape& s) {
  if (in.empty() || in.size() > 800 || !in.one_to_one()) return;
  Arena<long> A(in);
  long n = 0;
  in.each([&](const Idx& i) { A.base[in.offset(i)] = 1000 + n++; });
  A.protect();
  nda::array_ref<long, Shape> ref(A.base, s);
  nda::const_array_ref<long, Shape> cref(A.base, s);
  nda::array<long, Shape> arr(s);
  // Fill by address: the array's element addresses are judged by C01.
  n = 0;
  in.each([&](const Idx& i) { call_idx<Shape::rank()>(arr, i) = 1000 + n++; });
  auto look = [&](auto&& c, const char* who) {
    MShape got = to_mshape(c.shape());
    CHECK(got == to_mshape(nda::make_compact(s)), "%s has shape %s", who, got.str().c_str());
    long k = 0;
    in.each([&](const Idx& i) { CHECK_EQ(call_idx<Shape::rank()>(c, i), 1000 + k, who); k++; });
    count("compact_copies_checked");
  };
  switch (R.below(6)) {
  case 0: look(nda::make_compact_copy(ref), "make_compact_copy(array_ref)"); break;
  case 1: look(nda::make_compact_copy(cref), "make_compact_copy(const_array_ref)"); break;
  case 2: look(nda::make_compact_copy(arr), "make_compact_copy(array)"); break;
  case 3: look(nda::make_compact_move(ref), "make_compact_move(array_ref)"); break;
  case 4: look(nda::make_compact_move(arr), "make_compact_move(array&)"); break;
  default: look(nda::make_compact_move(std::move(arr)), "make_compact_move(array&&)"); break;
  }
  A.verify("make_compact_copy or make_compact_move");
}

// ---------------------------------------------------------------- predicates
template <class Shape>
void check_predicates(const MShape& m, const Shape& s) {
  CHECK_EQ(s.size(), m.size(), "size()");
  CHECK_EQ(s.empty(), m.empty(), "empty()");
  if (m.empty() || m.size() > 5000) return;
  long lo = 0, hi = 0;
  bool first = true;
  std::unordered_set<long> flat;
  m.each([&](const Idx& i) {
    long o = m.offset(i);
    if (first) lo = hi = o, first = false;
    lo = std::min(lo, o);
    hi = std::max(hi, o);
    flat.insert(o);
  });
  CHECK_EQ(s.flat_min(), lo, "flat_min()");
  CHECK_EQ(s.flat_max(), hi, "flat_max()");
  CHECK_EQ(s.flat_extent(), hi - lo + 1, "flat_extent()");
  bool compact = (long)flat.size() == hi - lo + 1, inj = (long)flat.size() == m.size();
  if (nested(m) && !stride0(m)) {
    CHECK_EQ(s.is_compact(), compact, "is_compact()");
    CHECK_EQ(s.is_one_to_one(), inj, "is_one_to_one()");
    count("predicates_exact");
    count(compact ? "compact_shapes" : "sparse_shapes");
  } else {
    if (!s.is_compact()) CHECK(!compact, "is_compact() is false for a shape that addresses its whole flat range: %s", m.str().c_str());
    if (!s.is_one_to_one()) CHECK(!inj, "is_one_to_one() is false for a shape with distinct flat indices: %s", m.str().c_str());
    // Counting alone settles these, however the dims interleave.
    if (m.size() > hi - lo + 1) {
      CHECK(!s.is_one_to_one(), "is_one_to_one() is true for a shape with more indices than flat indices: %s", m.str().c_str());
      count("predicates_by_pigeonhole");
    } else if (m.size() < hi - lo + 1) {
      CHECK(!s.is_compact(), "is_compact() is true for a shape with fewer indices than flat indices: %s", m.str().c_str());
      count("predicates_by_pigeonhole");
    }
    count("predicates_one_sided");
  }
  // The same through arrays and refs.
  static long dummy[4];
  nda::array_ref<long, Shape> ref(dummy, s);
  CHECK_EQ(ref.is_compact(), s.is_compact(), "array_ref::is_compact()");
  if (hi - lo < 100000) {
    nda::array<char, Shape> a(s);
    CHECK_EQ(a.is_compact(), s.is_compact(), "array::is_compact()");
  }
}

template <class A, class B>
void check_subset(Rng& R, const MShape& ma, const A& a, const MShape& mb, const B& b) {
  if (ma.empty() || mb.empty()) return;
  long alo, ahi, blo, bhi;
  ma.flat_range(&alo, &ahi);
  mb.flat_range(&blo, &bhi);
  std::vector<long> offs{0, alo - blo, ahi - bhi, alo - blo + 1, alo - blo - 1, ahi - bhi - 1, ahi - bhi + 1, alo - bhi - 1, ahi - blo + 1, R.range(-50, 50), R.range(-2000, 2000)};
  for (long k : offs) {
    bool want = alo >= blo + k && ahi <= bhi + k;
    CHECK(a.is_subset_of(b, (index_t)k) == want, "%s.is_subset_of(%s, %ld) is not %d", ma.str().c_str(), mb.str().c_str(), k, want);
    count(want ? "subset_true" : "subset_false");
  }
}

template <class Shape>
void check_bounds(const MShape& m, const Shape& s) {
  auto b = s.bounds();
  using B = decltype(b);
  static_assert(B::rank() == Shape::rank(), "rank");
  MShape want = m;
  for (auto& x : want.d) x.str = UN;
  CHECK(to_mshape(b) == want, "bounds() is %s", to_mshape(b).str().c_str());
  for (auto& x : statics<B>()) CHECK(x[2] == DYN, "bounds() has a static stride");
  static long dummy[4];
  nda::array_ref<long, Shape> ref(dummy, s);
  MShape rb = to_mshape(ref.bounds());
  CHECK(rb == want, "array_ref::bounds() is %s", rb.str().c_str());
  if (!m.empty()) {
    long lo, hi;
    m.flat_range(&lo, &hi);
    if (hi - lo < 100000) {
      nda::array<char, Shape> a(s);
      MShape ab = to_mshape(a.bounds());
      CHECK(ab == want, "array::bounds() is %s", ab.str().c_str());
    }
    // The documented use: a compact array with the same mins and extents.
    if (m.size() < 5000) {
      auto c = nda::make_array<char>(b);
      MShape cm = to_mshape(c.shape());
      cm.flat_range(&lo, &hi);
      CHECK(cm.same_bounds(m) && hi - lo + 1 == m.size() && cm.one_to_one(), "an array made of bounds() has shape %s", cm.str().c_str());
    }
  }
}

template <class Shape>
void run(Rng& R, const MShape& m, const MShape& m2) {
  Shape s = from_mshape<Shape>(m);
  check_make_compact(m, s);
  check_compact_copies(R, m, s);
  check_predicates(m, s);
  check_bounds(m, s);
  if (m2.rank() == m.rank()) {
    Shape s2 = from_mshape<Shape>(m2);
    check_subset(R, m, s, m2, s2);
  }
  MShape l;
  l.d = {MDim{R.range(-3, 3), R.range(1, 9), R.range(-4, 9)}, MDim{R.range(-3, 3), R.range(1, 6), R.range(-40, 60)}};
  check_subset(R, m, s, l, dyn<2>(l));
  check_subset(R, l, dyn<2>(l), m, s);
}

#if VERIF_PART == 1
GROUP(dynamic, 3000, 100000) {
  size_t rank = (size_t)(I % 7);
  GenOpts o;
  o.max_size = 900;
  o.allow_broadcast = R.chance(15);
  o.pad_percent = R.chance(50) ? 0 : 40;
  MShape m = gen_shape(R, rank, o), m2 = gen_shape(R, rank, o);
  if (R.chance(30)) { // a neighbour of m
    m2 = m;
    if (rank) {
      auto& x = R.of(m2.d);
      if (R.chance(50)) x.ext = std::max(0L, x.ext + R.pick<long>({-1, 1}));
      else x.min += R.pick<long>({-1, 1});
    }
  }
  if (R.chance(15)) // interleaving and overlapping dims
    for (auto& x : m.d) x.str = R.pick<long>({0, 1, 2, 3, 4, 5, 6, 8, -1, -4});
  desc("%s %s", m.str().c_str(), m2.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<0, 6>(rank, [&](auto r) { run<nda::shape_of_rank<decltype(r)::value>>(R, m, m2); });
}

#else
using CompactShapes = TypeList<nda::shape<nda::dense_dim<>, nda::dim<>, nda::dim<>>, nda::shape<nda::dim<>, nda::dense_dim<>, nda::dim<>>,
    nda::shape<nda::dim<>, nda::dim<>, nda::dense_dim<0, 3>>, nda::shape<nda::dim<>, nda::fixed_dim<4>, nda::dense_dim<2, 3>>,
    nda::shape<nda::fixed_dim<2>, nda::fixed_dim<3>, nda::fixed_dim<4>>, nda::shape<nda::fixed_dim<2>, nda::dim<>, nda::fixed_dim<4>>,
    nda::shape<nda::dim<>, nda::fixed_dim<3>, nda::dense_dim<>, nda::fixed_dim<2>>, nda::shape<nda::dense_dim<0, 5>, nda::dense_dim<0, 1>, nda::dim<>>,
    nda::shape<nda::dim<0, 3, -1>, nda::dim<>>, nda::shape<nda::dim<0, 3, 1>, nda::dim<>, nda::dim<0, 2, 20>>,
    nda::shape<nda::dim<0, 2, 30>, nda::dim<>, nda::dense_dim<>>, nda::shape<nda::dim<>, nda::strided_dim<3>>,
    nda::shape<nda::dim<0, 4, 8>, nda::dim<0, 2, 4>, nda::dim<>>, nda::shape<nda::dim<1, 1, 1>, nda::dim<>>,
    nda::shape<nda::dim<1, 1>, nda::dim<>, nda::dense_dim<>>, nda::shape<nda::dim<>, nda::dim<>, nda::dim<0, 1, 1>, nda::fixed_dim<3>>,
    nda::shape<nda::dim<>, nda::dim<>, nda::dim<>, nda::dim<>, nda::dense_dim<0, 2>>>;
template <class L>
void statics_case(Rng& R, long I, L list) {
  with_type(list, (size_t)I % list_size(L()), [&](auto tag) {
    using Shape = typename decltype(tag)::type;
    GenOpts o;
    o.max_size = 600;
    o.allow_empty = R.chance(20);
    MShape m, m2;
    desc("type %ld ", I % (long)list_size(L()));
    if (!gen_for_type<Shape>(R, &m, o) || !gen_for_type<Shape>(R, &m2, o)) return;
    desc("%s %s", m.str().c_str(), m2.str().c_str());
    if (m.size() > 1) nontrivial();
    run<Shape>(R, m, m2);
  });
}
#if VERIF_PART == 2
GROUP(statics_a, 1500, 40000) { statics_case(R, I, StaticShapes()); }
#else
GROUP(statics_b, 1500, 40000) { statics_case(R, I, CompactShapes()); }
GROUP(statics_c, 300, 8000) { statics_case(R, I, BroadcastShapes()); }

#endif
#endif
#if VERIF_PART == 1
// Shapes with unresolved strides can be compacted.
GROUP(unresolved, 500, 10000) {
  size_t rank = (size_t)(I % 5);
  GenOpts o;
  MShape m = gen_bounds(R, rank, o);
  for (auto& x : m.d) x.str = UN;
  desc("%s", m.str().c_str());
  nontrivial();
  with_rank<0, 4>(rank, [&](auto r) {
    auto s = dyn<decltype(r)::value>(m);
    check_make_compact(m, s);
    MShape b = to_mshape(s.bounds());
    CHECK(b == m, "bounds() is %s", b.str().c_str());
  });
}

// Every small shape of rank 2, every combination of extents 1..4 and strides -4..8.
GROUP(small2, 4, 4) {
  nontrivial();
  for (long e1 = 1; e1 < 5; e1++)
    for (long s0 = -4; s0 <= 8; s0++)
      for (long s1 = -4; s1 <= 8; s1++) {
        MShape m;
        m.d = {MDim{0, I + 1, s0}, MDim{-9, e1, s1}};
        st().len = 0;
        desc("%s", m.str().c_str());
        auto s = dyn<2>(m);
        check_predicates(m, s);
        check_make_compact(m, s);
      }
}

// ---------------------------------------------------------------- fixed_dense_shape
template <nda::index_t... E>
void check_fixed() {
  using S = nda::fixed_dense_shape<E...>;
  std::vector<long> ext{(long)E...};
  static_assert(S::rank() == sizeof...(E), "rank");
  auto ss = statics<S>();
  long prod = 1;
  MShape m;
  for (size_t k = 0; k < ext.size(); k++) {
    CHECK_EQ(ss[k][0], 0, "min of fixed_dense_shape");
    CHECK_EQ(ss[k][1], ext[k], "extent of fixed_dense_shape");
    CHECK_EQ(ss[k][2], prod, "stride of fixed_dense_shape");
    m.d.push_back(MDim{0, ext[k], prod});
    prod *= ext[k];
  }
  S s;
  CHECK(to_mshape(s) == m, "fixed_dense_shape is %s", to_mshape(s).str().c_str());
  CHECK(s.is_resolved() && s.is_compact() && s.is_one_to_one(), "fixed_dense_shape is not compact and one-to-one");
  check_predicates(m, s);
  check_make_compact(m, s);
  check_bounds(m, s);
  nda::array<int, S> a;
  CHECK_EQ(a.size(), prod, "size of an array of fixed_dense_shape");
  int n = 0;
  m.each([&](const Idx& i) { call_idx<S::rank()>(a, i) = n++; });
  for (int k = 0; k < n; k++) CHECK_EQ(a.data()[k], k, "memory order of an array of fixed_dense_shape");
}
GROUP(fixed, 1, 1) {
  desc("fixed_dense_shape of several extents");
  nontrivial();
  check_fixed<1>();
  check_fixed<7>();
  check_fixed<4, 3>();
  check_fixed<3, 4>();
  check_fixed<1, 5>();
  check_fixed<5, 1, 2>();
  check_fixed<2, 3, 4>();
  check_fixed<4, 3, 2>();
  check_fixed<2, 2, 2, 2>();
  check_fixed<3, 1, 4, 1, 5>();
  check_fixed<2, 3, 1, 2, 3, 2>();
}

#endif
// The predicates on shapes whose dims interleave, or have stride 0 next to gaps (upstream issue #2).
PROBE(interleaved, "predicates_interleaved") {
  auto probe = [](MShape m) {
    auto s = dyn<2>(m);
    std::set<long> f = m.flat_set();
    bool compact = (long)f.size() == *f.rbegin() - *f.begin() + 1, inj = (long)f.size() == m.size();
    if (s.is_compact() != compact || s.is_one_to_one() != inj) _exit(1);
  };
  auto mk = [](long e0, long s0, long e1, long s1) {
    MShape m;
    m.d = {MDim{0, e0, s0}, MDim{0, e1, s1}};
    return m;
  };
  probe(mk(4, 4, 4, 4));
  probe(mk(10, 2, 10, 2));
  probe(mk(4, 0, 2, 3));
  probe(mk(4, 0, 2, 10));
}
HARNESS_MAIN
