// C07: transposed, reordered, converted and reinterpreted views alias the right elements.
#include "model.h"
#include "perms.h"
#include "types.h"
using namespace vh;
using nda::_;

static GenOpts opts(Rng& R) {
  GenOpts o;
  o.allow_empty = false;
  o.max_size = 300;
  o.allow_broadcast = R.chance(15);
  return o;
}

// What the result must be: result dim i is source dim map[i] (or an added dim if map[i] < 0), and
// source dims not in the map are at their min.
struct Want {
  MShape shape;
  std::vector<int> map;
  MShape src;
  Idx source_index(const Idx& r) const {
    Idx s;
    for (auto& d : src.d) s.push_back(d.min);
    for (size_t i = 0; i < map.size(); i++)
      if (map[i] >= 0) s[(size_t)map[i]] = r[i];
    return s;
  }
};
static Want permuted(const MShape& m, const std::vector<size_t>& p, bool keep_rest) {
  Want w;
  w.src = m;
  for (size_t k : p) {
    w.shape.d.push_back(m.d[k]);
    w.map.push_back((int)k);
  }
  if (keep_rest)
    for (size_t k = p.size(); k < m.rank(); k++) {
      w.shape.d.push_back(m.d[k]);
      w.map.push_back((int)k);
    }
  return w;
}

// The strides of dims of extent 1 added by convert_shape are free; all others are fixed.
static bool shape_ok(const MShape& got, const Want& w) {
  if (got.rank() != w.shape.rank()) return false;
  for (size_t k = 0; k < got.rank(); k++) {
    if (w.map[k] >= 0) {
      if (!(got.d[k] == w.shape.d[k])) return false;
    } else if (got.d[k].min != 0 || got.d[k].ext != 1 || got.d[k].str == (long)nda::unresolved) {
      return false;
    }
  }
  return true;
}

template <class T, std::enable_if_t<std::is_const<T>::value, int> = 0>
void poke(T&) {}
template <class T, std::enable_if_t<!std::is_const<T>::value, int> = 0>
void poke(T& x) { if (std::is_integral<T>::value) x = (T)(x + 1); }

// Monitor the view: shape, constness, element identity, and that using it touches exactly its elements.
template <bool Const, class T, class S, class Src>
void judge(const char* how, nda::array_ref<T, S> v, Src& src, const Want& w, Rng& R) {
  constexpr size_t N = S::rank();
  CHECK_EQ(std::is_const<T>::value, Const, "constness of the view");
  MShape got = to_mshape(v.shape());
  CHECK(shape_ok(got, w), "%s: view has shape %s, expected %s", how, got.str().c_str(), w.shape.str().c_str());
  std::map<const void*, long> want;
  w.shape.each([&](const Idx& i) {
    auto* p = &call_idx<N>(v, i);
    auto* q = &call_idx<Src::rank()>(src, w.source_index(i));
    CHECK((const void*)p == (const void*)q && p == &v[from_idx<N>(i)], "%s: element %s of the view is not element %s of the source", how, idx_str(i).c_str(), idx_str(w.source_index(i)).c_str());
    want[p]++;
  });
  long n = 0, total = w.shape.size();
  v.for_each_value([&](T& x) {
    if (++n > total) fail("%s: traversal of the view does not end", how);
    auto it = want.find(&x);
    if (it == want.end() || --it->second < 0) fail("%s: traversal of the view reached another element", how);
    poke(x);
  });
  CHECK_EQ(n, total, "elements traversed through the view");
  count("view_elements_checked", (unsigned long long)total);
  count("views_checked");
  // The view's own shape is usable as the shape of the view, and views of the view work.
  v.set_shape(v.shape());
  nda::array_ref<T, S> same = nda::reinterpret_shape(v, v.shape());
  CHECK(same.base() == v.base() && to_mshape(same.shape()) == got, "%s: identity reinterpretation of the view", how);
  nda::array_ref<T, nda::shape_of_rank<N>> dynview(v);
  CHECK(to_mshape(dynview.shape()) == got && dynview.base() == v.base(), "%s: dynamic view of the view", how);
  if (R.chance(30)) {
    // Copy out of the view and compare.
    auto c = nda::make_compact_copy(v);
    w.shape.each([&](const Idx& i) { CHECK(!memcmp(&call_idx<N>(c, i), &call_idx<N>(v, i), sizeof(T)), "%s: copy of the view differs at %s", how, idx_str(i).c_str()); });
    if (std::is_integral<T>::value) CHECK(nda::equal(c, v), "%s: the copy of the view is not equal to it", how);
  }
}
template <class T, class S>
void copy_into(nda::array_ref<T, S> v, const Want& w) {
  constexpr size_t N = S::rank();
  if (!w.src.one_to_one()) return;
  nda::array<T, nda::shape_of_rank<N>> from(nda::shape_of_rank<N>(v.shape().bounds()));
  long k = 100;
  w.shape.each([&](const Idx& i) { call_idx<N>(from, i) = (T)k++; });
  nda::copy(from, v);
  k = 100;
  w.shape.each([&](const Idx& i) { CHECK((call_idx<N>(v, i)) == (T)k, "copy into the view: element %s", idx_str(i).c_str()); k++; });
}

template <class Shape>
struct Source {
  MShape m;
  Arena<int64_t> mem;
  nda::array_ref<int64_t, Shape> ref;
  nda::const_array_ref<int64_t, Shape> cref;
  nda::array<int64_t, Shape> arr;
  const nda::array<int64_t, Shape>& carr;
  Source(const MShape& m_)
      : m(m_), mem(m_), ref(mem.base, from_mshape<Shape>(m_)), cref(mem.base, from_mshape<Shape>(m_)), arr(from_mshape<Shape>(m_), 3), carr(arr) {
    m.each([&](const Idx& i) { mem.base[m.offset(i)] = m.offset(i); });
    mem.protect();
  }
};

template <size_t... P, class Shape>
void transposes(Rng& R, Source<Shape>& s, std::index_sequence<P...>) {
  Want w = permuted(s.m, {P...}, true);
  if (s.m.size() > 1) nontrivial();
  auto ts = nda::transpose<P...>(s.ref.shape());
  CHECK(to_mshape(ts) == w.shape, "transpose of the shape is %s", to_mshape(ts).str().c_str());
}
template <size_t... P, class Shape>
void reorders(Rng& R, Source<Shape>& s, std::index_sequence<P...>);
template <size_t... P, class Shape>
void full_transposes(Rng& R, Source<Shape>& s, std::index_sequence<P...> p) {
  transposes(R, s, p);
  Want w = permuted(s.m, {P...}, true);
  judge<false>("transpose(array_ref)", nda::transpose<P...>(s.ref), s.ref, w, R);
  judge<true>("transpose(const_array_ref)", nda::transpose<P...>(s.cref), s.cref, w, R);
  judge<false>("transpose(array)", nda::transpose<P...>(s.arr), s.arr, w, R);
  judge<true>("transpose(const array)", nda::transpose<P...>(s.carr), s.carr, w, R);
  copy_into(nda::transpose<P...>(s.ref), w);
  reorders(R, s, p);
  s.mem.verify("transpose");
}
template <size_t... P, class Shape>
void reorders(Rng& R, Source<Shape>& s, std::index_sequence<P...>) {
  Want w = permuted(s.m, {P...}, false);
  auto rs = nda::reorder<P...>(s.ref.shape());
  CHECK(to_mshape(rs) == w.shape, "reorder of the shape is %s", to_mshape(rs).str().c_str());
  if (s.m.size() > 1) nontrivial();
  judge<false>("reorder(array_ref)", nda::reorder<P...>(s.ref), s.ref, w, R);
  judge<true>("reorder(const_array_ref)", nda::reorder<P...>(s.cref), s.cref, w, R);
  judge<false>("reorder(array)", nda::reorder<P...>(s.arr), s.arr, w, R);
  judge<true>("reorder(const array)", nda::reorder<P...>(s.carr), s.carr, w, R);
  copy_into(nda::reorder<P...>(s.ref), w);
  s.mem.verify("reorder");
}

template <class Shape>
bool make_model(Rng& R, MShape* m) {
  GenOpts o = opts(R);
  return gen_for_type<Shape>(R, m, o);
}

#if !defined(VERIF_PART) || VERIF_PART == 1
// Every permutation of ranks 1-3 (and a third of those of rank 4), run-time shapes.
template <size_t... Ps>
std::string pname(std::index_sequence<Ps...>) {
  return idx_str(Idx{(long)Ps...});
}
GROUP(perm1, 40, 1000) {
  MShape m = gen_shape(R, 1, opts(R));
  desc("%s order (0)", m.str().c_str());
  Source<nda::shape_of_rank<1>> s(m);
  full_transposes(R, s, std::index_sequence<0>());
}
template <size_t... P>
void one(Rng& R, std::index_sequence<P...> p) {
  MShape m = gen_shape(R, sizeof...(P), opts(R));
  desc("%s order %s", m.str().c_str(), pname(p).c_str());
  Source<nda::shape_of_rank<sizeof...(P)>> s(m);
  full_transposes(R, s, p);
}
GROUP(perm2, 200, 4000) {
  with_perm<2>((size_t)I % 2, [&](auto p) { one(R, p); });
}
GROUP(perm3, 600, 12000) {
  with_perm<3>((size_t)I % 6, [&](auto p) { one(R, p); });
}
GROUP(perm4, 500, 12000) {
  switch (I % 6) {
  case 0: return one(R, std::index_sequence<3, 2, 1, 0>());
  case 1: return one(R, std::index_sequence<1, 3, 0, 2>());
  case 2: return one(R, std::index_sequence<2, 0, 3, 1>());
  case 3: return one(R, std::index_sequence<0, 3, 2, 1>());
  case 4: return one(R, std::index_sequence<3, 0, 1, 2>());
  default: return one(R, std::index_sequence<1, 2, 3, 0>());
  }
}
template <size_t N, size_t... P>
void shape_only_n(const MShape& m, std::index_sequence<P...>) {
  auto s = dyn<N>(m);
  Want w = permuted(m, {P...}, true);
  CHECK(to_mshape(nda::transpose<P...>(s)) == w.shape, "transpose of the shape");
  Want w2 = permuted(m, {P...}, false);
  CHECK(to_mshape(nda::reorder<P...>(s)) == w2.shape, "reorder of the shape");
  auto t = nda::transpose<P...>(s);
  w.shape.each([&](const Idx& i) { CHECK_EQ(t[from_idx<N>(i)], m.offset(w.source_index(i)), "offset through the transposed shape"); });
}
template <size_t... P>
void shape_only(const MShape& m, std::index_sequence<P...> p) { shape_only_n<sizeof...(P)>(m, p); }
// Shapes only: every permutation of ranks 4, and partial transposes of ranks 3-6.
GROUP(shape_perm4, 480, 4800) {
  MShape m = gen_shape(R, 4, opts(R));
  with_perm<4>((size_t)I % 24, [&](auto p) {
    desc("%s order %s", m.str().c_str(), pname(p).c_str());
    nontrivial();
    shape_only(m, p);
  });
}
GROUP(partial, 400, 8000) {
  size_t rank = 3 + (size_t)(I % 4);
  MShape m = gen_shape(R, rank, opts(R));
  desc("%s partial %ld", m.str().c_str(), I % 8);
  nontrivial();
  auto go = [&](auto n) {
    constexpr size_t N = decltype(n)::value;
    switch (I / 4 % 4) {
    case 0: return shape_only_n<N>(m, std::index_sequence<1, 0>());
    case 1: return shape_only_n<N>(m, std::index_sequence<0>());
    case 2: return shape_only_n<N>(m, std::index_sequence<2, 0, 1>());
    default: return shape_only_n<N>(m, std::index_sequence<1, 2, 0>());
    }
  };
  with_rank<3, 6>(rank, go);
}
// reorder to a subset of the dims.
GROUP(subset, 400, 8000) {
  MShape m = gen_shape(R, 3, opts(R));
  desc("%s subset %ld", m.str().c_str(), I % 7);
  Source<nda::shape_of_rank<3>> s(m);
  switch (I % 7) {
  case 0: return reorders(R, s, std::index_sequence<0>());
  case 1: return reorders(R, s, std::index_sequence<1>());
  case 2: return reorders(R, s, std::index_sequence<2>());
  case 3: return reorders(R, s, std::index_sequence<2, 0>());
  case 4: return reorders(R, s, std::index_sequence<1, 2>());
  case 5: return reorders(R, s, std::index_sequence<2, 1>());
  default: return reorders(R, s, std::index_sequence<0, 2>());
  }
}
#endif

#if !defined(VERIF_PART) || VERIF_PART == 2
// Shapes with compile-time constants.
template <class Shape, size_t... P>
void typed(Rng& R, std::index_sequence<P...> p) {
  MShape m;
  if (!make_model<Shape>(R, &m)) return;
  desc("static %s order %s", m.str().c_str(), idx_str(Idx{(long)P...}).c_str());
  Source<Shape> s(m);
  full_transposes(R, s, p);
}
GROUP(static_types, 900, 16000) {
  switch (I % 10) {
  case 0: return typed<nda::matrix_shape<>>(R, std::index_sequence<1, 0>());
  case 1: return typed<nda::matrix_shape<3, 4>>(R, std::index_sequence<1, 0>());
  case 2: return typed<nda::dense_shape<3>>(R, std::index_sequence<2, 0, 1>());
  case 3: return typed<nda::chunky_image_shape<3>>(R, std::index_sequence<2, 0, 1>());
  case 4: return typed<nda::chunky_image_shape<3, 4>>(R, std::index_sequence<1, 2, 0>());
  case 5: return typed<nda::planar_image_shape>(R, std::index_sequence<0, 2, 1>());
  case 6: return typed<nda::fixed_dense_shape<2, 3, 4>>(R, std::index_sequence<2, 1, 0>());
  case 7: return typed<nda::shape<nda::strided_dim<-1>, nda::dim<>, nda::dim<>>>(R, std::index_sequence<1, 0, 2>());
  case 8: return typed<nda::shape<nda::dim<>, nda::broadcast_dim<0, 4>>>(R, std::index_sequence<1, 0>());
  default: return typed<nda::shape<nda::dim<2>, nda::dim<nda::dynamic, 3>, nda::dense_dim<-1>>>(R, std::index_sequence<2, 1, 0>());
  }
}

// convert_shape between types of equal and different rank.
static Want converted(const MShape& m, size_t to) {
  Want w;
  w.src = m;
  for (size_t k = 0; k < to; k++) {
    w.shape.d.push_back(k < m.rank() ? m.d[k] : MDim{0, 1, 0});
    w.map.push_back(k < m.rank() ? (int)k : -1);
  }
  return w;
}
template <class To, class Shape>
void convert(Rng& R, const MShape& m) {
  desc("convert %s to rank %zu", m.str().c_str(), To::rank());
  nontrivial();
  Source<Shape> s(m);
  Want w = converted(m, To::rank());
  MShape cs = to_mshape(nda::convert_shape<To>(s.ref.shape()));
  for (size_t k = 0; k < To::rank(); k++) {
    if (w.map[k] >= 0) CHECK(cs.d[k] == w.shape.d[k], "convert_shape of the shape is %s", cs.str().c_str());
    else CHECK(cs.d[k].min == 0 && cs.d[k].ext == 1, "convert_shape of the shape is %s", cs.str().c_str());
  }
  judge<false>("convert_shape(array_ref)", nda::convert_shape<To>(s.ref), s.ref, w, R);
  judge<true>("convert_shape(const_array_ref)", nda::convert_shape<To>(s.cref), s.cref, w, R);
  judge<false>("convert_shape(array)", nda::convert_shape<To>(s.arr), s.arr, w, R);
  judge<true>("convert_shape(const array)", nda::convert_shape<To>(s.carr), s.carr, w, R);
  copy_into(nda::convert_shape<To>(s.ref), w);
  s.mem.verify("convert_shape");
}
template <class To, class Shape>
void convert_up(Rng& R) {
  MShape m;
  if (make_model<Shape>(R, &m)) convert<To, Shape>(R, m);
}
template <class To, class Shape>
void convert_down(Rng& R) {
  MShape m;
  GenOpts o = opts(R);
  o.allow_broadcast = false;
  m = gen_bounds(R, Shape::rank(), o);
  for (size_t k = To::rank(); k < Shape::rank(); k++) m.d[k].ext = 1;
  gen_strides(R, m, o);
  convert<To, Shape>(R, m);
}
template <size_t N>
using dynshape = nda::shape_of_rank<N>;
GROUP(convert_up, 800, 16000) {
  switch (I % 10) {
  case 0: return convert_up<dynshape<3>, dynshape<2>>(R);
  case 1: return convert_up<dynshape<2>, dynshape<1>>(R);
  case 2: return convert_up<dynshape<4>, dynshape<2>>(R);
  case 3: return convert_up<dynshape<1>, dynshape<0>>(R);
  case 4: return convert_up<nda::dense_shape<3>, nda::dense_shape<2>>(R);
  case 5: return convert_up<nda::shape<nda::dim<>, nda::dense_dim<>, nda::dim<>>, nda::matrix_shape<>>(R);
  case 6: return convert_up<nda::shape<nda::dim<>, nda::dim<>, nda::dim<0, 1>>, dynshape<2>>(R);
  case 7: return convert_up<dynshape<3>, nda::matrix_shape<3, 4>>(R);
  case 8: return convert_up<dynshape<4>, nda::chunky_image_shape<3>>(R);
  default: return convert_up<dynshape<2>, dynshape<0>>(R);
  }
}
GROUP(convert_down, 500, 10000) {
  switch (I % 6) {
  case 0: return convert_down<dynshape<2>, dynshape<3>>(R);
  case 1: return convert_down<dynshape<1>, dynshape<3>>(R);
  case 2: return convert_down<dynshape<0>, dynshape<2>>(R);
  case 3: return convert_down<dynshape<3>, dynshape<4>>(R);
  case 4: return convert_down<dynshape<1>, dynshape<2>>(R);
  default: return convert_down<dynshape<0>, dynshape<1>>(R);
  }
}
GROUP(convert_same, 500, 10000) {
  switch (I % 6) {
  case 0: return convert_up<dynshape<2>, nda::matrix_shape<>>(R);
  case 1: return convert_up<dynshape<3>, nda::chunky_image_shape<3, 4>>(R);
  case 2: return convert_up<nda::dense_shape<2>, nda::fixed_dense_shape<4, 3>>(R);
  case 3: return convert_up<nda::shape<nda::dim<2>, nda::dim<>, nda::dense_dim<>>, nda::shape<nda::dim<2>, nda::dim<nda::dynamic, 3>, nda::dense_dim<-1>>>(R);
  case 4: return convert_up<dynshape<2>, dynshape<2>>(R);
  default: return convert_up<dynshape<1>, nda::shape<nda::strided_dim<3>>>(R);
  }
}

// reinterpret and reinterpret_const.
struct U8 { unsigned char b[8]; };
static_assert(sizeof(U8) == 8, "");
template <class Shape>
void reinterprets(Rng& R, const MShape& m) {
  desc("reinterpret %s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  Source<Shape> s(m);
  Want w = permuted(m, gen_perm(R, 0), true);
  judge<false>("reinterpret(array_ref)", nda::reinterpret<uint64_t>(s.ref), s.ref, w, R);
  judge<false>("reinterpret(array_ref)", nda::reinterpret<double>(s.ref), s.ref, w, R);
  judge<false>("reinterpret(array)", nda::reinterpret<uint64_t>(s.arr), s.arr, w, R);
  judge<true>("reinterpret(const array)", nda::reinterpret<uint64_t>(s.carr), s.carr, w, R);
  judge<true>("reinterpret(const_array_ref)", nda::reinterpret<const double>(s.cref), s.cref, w, R);
  judge<false>("reinterpret_const", nda::reinterpret_const<int64_t>(s.cref), s.cref, w, R);
  // The bytes are the same.
  auto b = nda::reinterpret<U8>(s.ref);
  auto rc = nda::reinterpret_const<int64_t>(s.cref);
  m.each([&](const Idx& i) {
    call_idx<Shape::rank()>(rc, i) = 0x0102030405060708ll + m.offset(i);
    int64_t v;
    U8 u = call_idx<Shape::rank()>(b, i);
    memcpy(&v, u.b, 8);
    CHECK(v == 0x0102030405060708ll + m.offset(i), "bytes through reinterpret at %s", idx_str(i).c_str());
  });
  s.mem.verify("reinterpret");
}
GROUP(reinterpret, 600, 12000) {
  MShape m;
  switch (I % 6) {
  case 0: if (make_model<dynshape<1>>(R, &m)) reinterprets<dynshape<1>>(R, m); return;
  case 1: if (make_model<dynshape<3>>(R, &m)) reinterprets<dynshape<3>>(R, m); return;
  case 2: if (make_model<nda::matrix_shape<>>(R, &m)) reinterprets<nda::matrix_shape<>>(R, m); return;
  case 3: if (make_model<nda::chunky_image_shape<3>>(R, &m)) reinterprets<nda::chunky_image_shape<3>>(R, m); return;
  case 4: if (make_model<nda::shape<nda::strided_dim<-1>, nda::dim<>, nda::dim<>>>(R, &m)) reinterprets<nda::shape<nda::strided_dim<-1>, nda::dim<>, nda::dim<>>>(R, m); return;
  default: if (make_model<dynshape<0>>(R, &m)) reinterprets<dynshape<0>>(R, m); return;
  }
}
// Null and empty views keep a null base and visit nothing.
GROUP(empties, 60, 600) {
  GenOpts o;
  MShape m = gen_bounds(R, 2, o);
  m.d[(size_t)(I % 2)].ext = 0;
  gen_strides(R, m, o);
  desc("empty %s", m.str().c_str());
  nontrivial();
  nda::array_ref_of_rank<int64_t, 2> n(nullptr, dyn<2>(m));
  nda::array_of_rank<int64_t, 2> a(dyn<2>(m));
  Want w = permuted(m, {1, 0}, true);
  auto none = [&](int64_t&) { fail("an empty view has an element"); };
  auto t = nda::transpose<1, 0>(n);
  auto t2 = nda::transpose<1, 0>(a);
  CHECK(to_mshape(t.shape()) == w.shape && to_mshape(t2.shape()) == w.shape && t.base() == nullptr, "transpose of an empty array_ref");
  t.for_each_value(none);
  t2.for_each_value(none);
  auto c = nda::convert_shape<dynshape<3>>(n);
  CHECK(c.base() == nullptr && c.empty() && c.rank() == 3, "convert_shape of an empty array_ref");
  c.for_each_value(none);
  nda::reinterpret<uint64_t>(n).for_each_value([&](uint64_t&) { fail("an empty view has an element"); });
}
#endif
HARNESS_MAIN
