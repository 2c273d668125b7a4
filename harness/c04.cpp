// C04: index loops visit every index exactly once in the documented order.
#include "model.h"
#include "types.h"
#include "perms.h"
using namespace vh;
static const long UN = (long)nda::unresolved;

// An online checker: the n-th call must be made with the n-th index of the specification.
struct Seq {
  std::vector<Idx> want;
  size_t n = 0;
  const char* who;
  Seq(const char* w, const MShape& m, const std::vector<size_t>& order) : who(w) {
    m.each_ordered(order, [&](const Idx& i) { want.push_back(i); });
  }
  void call(const Idx& i) {
    if (n >= want.size()) fail("%s made call %zu with %s, but there are only %zu indices", who, n + 1, idx_str(i).c_str(), want.size());
    if (i != want[n]) fail("%s call %zu was with %s, expected %s", who, n, idx_str(i).c_str(), idx_str(want[n]).c_str());
    n++;
  }
  void done() {
    if (n != want.size()) fail("%s made %zu calls, expected %zu", who, n, want.size());
    count("calls_checked", n);
    count("loops_checked");
  }
};
static std::vector<size_t> iota(size_t n) {
  std::vector<size_t> r;
  for (size_t i = 0; i < n; i++) r.push_back(i);
  return r;
}

template <class Shape>
void default_loops(const Shape& s, const MShape& m, const std::vector<size_t>& order) {
  using index_type = typename Shape::index_type;
  {
    Seq q("for_each_index", m, order);
    nda::for_each_index(s, [&](const index_type& i) { q.call(to_idx(i)); });
    q.done();
  }
  {
    Seq q("for_each_index with a by-value argument", m, order);
    auto fn = [&](index_type i) { q.call(to_idx(i)); };
    nda::for_each_index(s, fn);
    q.done();
  }
  {
    Seq q("for_all_indices", m, order);
    nda::for_all_indices(s, [&](auto... i) { q.call(Idx{(long)i...}); });
    q.done();
  }
  {
    Seq q("for_each_index_in_order", m, iota(m.rank()));
    nda::for_each_index_in_order(s, [&](const index_type& i) { q.call(to_idx(i)); });
    q.done();
  }
  {
    Seq q("shape_traits::for_each_index", m, order);
    nda::shape_traits<Shape>::for_each_index(s, [&](const index_type& i) { q.call(to_idx(i)); });
    q.done();
  }
}

template <size_t Rank, class Shape, size_t... Is>
void ordered_loops(const Shape& s, const MShape& m, std::index_sequence<Is...> seq) {
  std::vector<size_t> order = seq_vector(seq);
  using index_type = nda::index_of_rank<Rank>;
  {
    Seq q("for_each_index<LoopOrder>", m, order);
    nda::for_each_index<Is...>(s, [&](const index_type& i) { q.call(to_idx(i)); });
    q.done();
  }
  {
    Seq q("for_all_indices<LoopOrder>", m, order);
    nda::for_all_indices<Is...>(s, [&](auto... i) { q.call(Idx{(long)i...}); });
    q.done();
  }
}
template <size_t Rank, class Shape>
void perm_loops(const Shape& s, const MShape& m, size_t k) {
  with_perm<Rank>(k % fact(Rank), [&](auto seq) { ordered_loops<Rank>(s, m, seq); });
}

static MShape gen(Rng& R, size_t rank, long max_size = 600) {
  GenOpts o;
  o.max_size = max_size;
  MShape m = gen_bounds(R, rank, o);
  if (R.chance(50)) gen_strides(R, m, o);
  else
    for (auto& x : m.d) x.str = R.chance(50) ? UN : R.range(-3, 3); // index loops do not need strides
  return m;
}

GROUP(dyn, 3000, 60000) {
  size_t rank = (size_t)(I % 7);
  MShape m = gen(R, rank);
  desc("%s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<0, 6>(rank, [&](auto r) {
    constexpr size_t N = decltype(r)::value;
    default_loops(dyn<N>(m), m, iota(N));
  });
}
GROUP(perms, 1600, 40000) {
  size_t rank = (size_t)R.range(1, 4);
  size_t k = (size_t)I;
  MShape m = gen(R, rank, 400);
  desc("order %zu of rank %zu, %s", k % fact(rank), rank, m.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<1, 4>(rank, [&](auto r) { perm_loops<decltype(r)::value>(dyn<decltype(r)::value>(m), m, k); });
}
// All permutations up to rank 4 with pairwise different extents: any mix-up of dims shows.
GROUP(all_perms, 33, 33) {
  size_t rank = I < 1 ? 1 : I < 3 ? 2 : I < 9 ? 3 : 4;
  size_t k = (size_t)(I < 1 ? 0 : I < 3 ? I - 1 : I < 9 ? I - 3 : I - 9);
  MShape m;
  for (size_t d = 0; d < rank; d++) m.d.push_back(MDim{(long)d * 10 - 9, (long)d + 2, (long)d});
  desc("order %zu of rank %zu", k, rank);
  nontrivial();
  with_rank<1, 4>(rank, [&](auto r) { perm_loops<decltype(r)::value>(dyn<decltype(r)::value>(m), m, k); });
}
template <size_t... Is>
void big_order(const MShape& m) {
  ordered_loops<sizeof...(Is)>(dyn<sizeof...(Is)>(m), m, std::index_sequence<Is...>());
}
GROUP(high_rank_orders, 120, 3000) {
  size_t rank = I % 2 ? 5 : 6;
  MShape m = gen(R, rank, 400);
  desc("order %ld %s", I % 10, m.str().c_str());
  if (m.size() > 1) nontrivial();
  switch (I % 10) {
  case 0: big_order<5, 4, 3, 2, 1, 0>(m); break;
  case 1: big_order<4, 3, 2, 1, 0>(m); break;
  case 2: big_order<1, 0, 3, 2, 5, 4>(m); break;
  case 3: big_order<2, 0, 4, 1, 3>(m); break;
  case 4: big_order<3, 5, 0, 2, 4, 1>(m); break;
  case 5: big_order<1, 2, 3, 4, 0>(m); break;
  case 6: big_order<0, 1, 2, 3, 4, 5>(m); break;
  case 7: big_order<4, 0, 1, 2, 3>(m); break;
  case 8: big_order<5, 0, 1, 2, 3, 4>(m); break;
  default: big_order<0, 2, 1, 4, 3>(m); break;
  }
}
// LoopOrder naming only some dims loops over those dims only.
template <size_t... Is>
void subset(const MShape& m4) {
  constexpr size_t N = sizeof...(Is);
  auto s = dyn<4>(m4);
  std::vector<size_t> named{Is...}, sorted{Is...};
  std::sort(sorted.begin(), sorted.end());
  MShape m;
  for (size_t d : sorted) m.d.push_back(m4.d[d]);
  std::vector<size_t> order;
  for (size_t d : named) order.push_back((size_t)(std::find(sorted.begin(), sorted.end(), d) - sorted.begin()));
  {
    Seq q("for_all_indices<some dims>", m, order);
    nda::for_all_indices<Is...>(s, [&](auto... i) { q.call(Idx{(long)i...}); });
    q.done();
  }
  {
    Seq q("for_each_index<some dims>", m, order);
    nda::for_each_index<Is...>(s, [&](const nda::index_of_rank<N>& i) { q.call(to_idx(i)); });
    q.done();
  }
}
GROUP(subsets, 300, 6000) {
  MShape m = gen(R, 4, 400);
  desc("subset %ld %s", I % 12, m.str().c_str());
  nontrivial();
  switch (I % 12) {
  case 0: subset<0>(m); break;
  case 1: subset<3>(m); break;
  case 2: subset<0, 1>(m); break;
  case 3: subset<1, 0>(m); break;
  case 4: subset<2, 0>(m); break;
  case 5: subset<0, 2>(m); break;
  case 6: subset<3, 1>(m); break;
  case 7: subset<2, 1, 0>(m); break;
  case 8: subset<1, 3, 2>(m); break;
  case 9: subset<3, 0, 1>(m); break;
  case 10: subset<0, 1, 2>(m); break;
  default: subset<2>(m); break;
  }
}

// Default order of each shape type: dim 0 innermost, except matrices and chunky images.
template <class Shape>
struct Order {
  static std::vector<size_t> get() { return iota(Shape::rank()); }
};
template <index_t R, index_t C>
struct Order<nda::matrix_shape<R, C>> {
  static std::vector<size_t> get() { return {1, 0}; }
};
template <index_t C, index_t X>
struct Order<nda::chunky_image_shape<C, X>> {
  static std::vector<size_t> get() { return {2, 0, 1}; }
};
template <class Shape, std::enable_if_t<(Shape::rank() >= 1 && Shape::rank() <= 4), int> = 0>
void static_perms(const Shape& s, const MShape& m, size_t k) {
  perm_loops<Shape::rank()>(s, m, k);
}
template <class Shape, std::enable_if_t<(Shape::rank() < 1 || Shape::rank() > 4), int> = 0>
void static_perms(const Shape&, const MShape&, size_t) {}

GROUP(statics, 3100, 60000) {
  with_type(StaticShapes(), (size_t)I % list_size(StaticShapes()), [&](auto tag) {
    using Shape = typename decltype(tag)::type;
    GenOpts o;
    o.max_size = 300;
    MShape m;
    if (!gen_for_type<Shape>(R, &m, o)) return;
    desc("type %ld %s", I % (long)list_size(StaticShapes()), m.str().c_str());
    if (m.size() > 1) nontrivial();
    Shape s = from_mshape<Shape>(m);
    default_loops(s, m, Order<Shape>::get());
    static_perms(s, m, (size_t)(I / (long)list_size(StaticShapes())));
  });
}
// Nonzero static mins and small static extents at every nesting depth.
using StaticMins = TypeList<
    nda::shape<nda::dim<2, 1>>, nda::shape<nda::dim<3>>,
    nda::shape<nda::dim<>, nda::dim<2, 1>>, nda::shape<nda::dim<1>, nda::dim<-3, 2>>,
    nda::shape<nda::dim<4>, nda::dim<2, 1>>, nda::shape<nda::dense_dim<5, 1>, nda::dim<-2>>,
    nda::shape<nda::dim<2, 1>, nda::dim<3, 1>, nda::dim<>>,
    nda::shape<nda::dim<dynamic, 1>, nda::dim<1>, nda::dim<-3, 2>>,
    nda::shape<nda::dim<>, nda::dim<>, nda::dim<7, 1>>,
    nda::shape<nda::dim<1>, nda::dim<2>, nda::dim<3>, nda::dim<4>>,
    nda::shape<nda::dim<>, nda::dim<2, 1>, nda::dim<dynamic, 1>, nda::dim<-1, 2>>,
    nda::shape<nda::dim<2, 0>, nda::dim<>>, nda::shape<nda::dim<>, nda::dim<2, 0>>>;
GROUP(static_mins, 1300, 26000) {
  with_type(StaticMins(), (size_t)I % list_size(StaticMins()), [&](auto tag) {
    using Shape = typename decltype(tag)::type;
    GenOpts o;
    o.max_size = 200;
    MShape m;
    if (!gen_for_type<Shape>(R, &m, o)) return;
    desc("type %ld %s", I % (long)list_size(StaticMins()), m.str().c_str());
    if (m.size() > 1) nontrivial();
    Shape s = from_mshape<Shape>(m);
    default_loops(s, m, Order<Shape>::get());
    static_perms(s, m, (size_t)(I / (long)list_size(StaticMins())));
  });
}
// Range-for and iterators over dims and intervals.
GROUP(ranges, 600, 8000) {
  long mn = gen_min(R), e = R.chance(20) ? R.below(2) : R.range(0, 40);
  desc("[%ld, %ld)", mn, mn + e);
  if (e > 1) nontrivial();
  MShape m;
  m.d = {MDim{mn, e, 1}};
  auto all = [&](const char* who, const auto& range) {
    Seq q(who, m, {0});
    for (index_t i : range) q.call(Idx{(long)i});
    q.done();
    Seq p(who, m, {0});
    for (auto it = range.begin(); it != range.end(); ++it) p.call(Idx{(long)*it});
    p.done();
  };
  all("interval", nda::interval<>(mn, e));
  all("dim", nda::dim<>(mn, e, R.range(-5, 5)));
  all("dense_dim", nda::dense_dim<>(mn, e));
  all("range()", nda::range(mn, mn + e));
  all("r()", nda::r(mn, mn + e));
  Seq q("free begin/end", m, {0});
  nda::interval<> v(mn, e);
  for (auto it = nda::begin(v); it != nda::end(v); it++) q.call(Idx{(long)*it});
  q.done();
  m.d = {MDim{-9, 9, 1}};
  all("interval<-9 at run time, 9>", nda::interval<nda::dynamic, 9>(-9));
  m.d = {MDim{3, 4, 1}};
  all("interval<3, 4>", nda::interval<3, 4>());
  all("dim<3, 4, -2>", nda::dim<3, 4, -2>());
  m.d = {MDim{3, 0, 1}};
  all("interval<3, 0>", nda::interval<3, 0>());
}
// Bigger domains.
GROUP(large, 20, 200) {
  MShape m;
  m.d = {MDim{R.range(-9, 9), R.range(20, 60), 1}, MDim{R.range(-9, 9), R.range(20, 60), 1}, MDim{R.range(-9, 9), R.range(1, 12), 1}};
  desc("%s", m.str().c_str());
  nontrivial();
  default_loops(dyn<3>(m), m, iota(3));
  perm_loops<3>(dyn<3>(m), m, (size_t)I);
}
// Long dimensions next to other dimensions of more than one index, in every shape type with an order of its own.
template <class Shape>
void long_case(Rng& R, long I, const std::vector<size_t>& free, const MShape& fixed) {
  MShape m = fixed;
  for (size_t d : free) m.d[d] = MDim{gen_min(R), d == free[(size_t)(I / 7) % free.size()] ? R.pick<long>({512, 513, 1025, 2049, 4097}) + R.range(0, 40) : R.range(2, 3), m.d[d].str};
  desc("%s", m.str().c_str());
  nontrivial();
  default_loops(from_mshape<Shape>(m), m, Order<Shape>::get());
}
GROUP(long_dims, 63, 630) {
  MDim any{0, 0, UN}, dense{0, 0, 1};
  MShape m;
  switch (I % 7) {
  case 0: m.d = {any, dense}; long_case<nda::matrix_shape<>>(R, I, {0, 1}, m); break;
  case 1: m.d = {any, MDim{0, 3, 1}}; long_case<nda::matrix_shape<nda::dynamic, 3>>(R, I, {0}, m); break;
  case 2: m.d = {MDim{0, 0, 3}, any, MDim{0, 3, 1}}; long_case<nda::chunky_image_shape<3>>(R, I, {0, 1}, m); break;
  case 3: m.d = {dense, any, any}; long_case<nda::planar_image_shape>(R, I, {0, 1, 2}, m); break;
  case 4: m.d = {any, any, any, any}; long_case<nda::shape_of_rank<4>>(R, I, {0, 1, 2, 3}, m); break;
  case 5: m.d = {dense, any, any}; long_case<nda::dense_shape<3>>(R, I, {0, 1, 2}, m); break;
  default: m.d = {any, any}; long_case<nda::shape_of_rank<2>>(R, I, {0, 1}, m); break;
  }
}
HARNESS_MAIN
