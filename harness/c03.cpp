// C03: compile-time constants are transparent, conversions preserve values.
#include "model.h"
#include "types.h"
using namespace vh;

constexpr index_t DV = nda::dynamic;

// Every assignment of static/dynamic to (min, extent, stride) for one concrete value triple.
template <long Min, long Ext, long Str>
struct Triples {
  using list = TypeList<nda::dim<DV, DV, DV>, nda::dim<Min, DV, DV>, nda::dim<DV, Ext, DV>, nda::dim<Min, Ext, DV>,
      nda::dim<DV, DV, Str>, nda::dim<Min, DV, Str>, nda::dim<DV, Ext, Str>, nda::dim<Min, Ext, Str>>;
};

template <class D>
void dim_same(const D& d, const MDim& m) {
  CHECK_EQ(d.min(), m.min, "min");
  CHECK_EQ(d.extent(), m.ext, "extent");
  CHECK_EQ(d.stride(), m.str, "stride");
  CHECK_EQ(d.max(), m.max(), "max");
  for (long at : {m.min - 1, m.min, m.min + 1, m.max(), m.max() + 1}) {
    CHECK_EQ(d.is_in_range((index_t)at), at >= m.min && at <= m.max(), "is_in_range");
    CHECK_EQ(d.flat_offset((index_t)at), (at - m.min) * m.str, "flat_offset");
  }
  long k = m.min;
  for (index_t i : d) {
    CHECK(k <= m.max(), "dim iteration runs past max");
    CHECK_EQ(i, k++, "dim iteration");
  }
  CHECK_EQ(k, m.max() + 1, "dim iteration stops early");
}

template <class DA, class DB>
void dim_pair(const MDim& m, const MDim& other) {
  DA a((index_t)m.min, (index_t)m.ext, (index_t)m.str);
  dim_same(a, m);
  DB b(a); // converting construction
  dim_same(b, m);
  DB c((index_t)m.min, (index_t)m.ext, (index_t)m.str);
  CHECK(a == b && b == a && !(a != b) && c == a, "dims with equal values compare unequal");
  // Converting assignment, over values that differ in every parameter that can.
  for (const MDim& old : {other, MDim{m.min + 3, m.ext + 2, m.str - 5}, MDim{-9, 0, nda::unresolved}, m}) {
    MDim o{DB::Min == DV ? old.min : m.min, DB::Extent == DV ? old.ext : m.ext, DB::Stride == DV ? old.str : m.str};
    DB e((index_t)o.min, (index_t)o.ext, (index_t)o.str);
    e = a;
    dim_same(e, m);
    DB e2((index_t)o.min, (index_t)o.ext, (index_t)o.str);
    e2 = b; // the same type
    dim_same(e2, m);
    nda::interval<DB::Min, DB::Extent> e3((index_t)o.min, (index_t)o.ext);
    e3 = nda::interval<DA::Min, DA::Extent>((index_t)m.min, (index_t)m.ext);
    CHECK(e3.min() == m.min && e3.extent() == m.ext, "interval assigned (%ld, %ld)", (long)e3.min(), (long)e3.extent());
  }
  nda::interval<DA::Min, DA::Extent> ia((index_t)m.min, (index_t)m.ext);
  nda::interval<DB::Min, DB::Extent> ib(ia);
  CHECK(ib.min() == m.min && ib.extent() == m.ext && ia == ib && !(ia != ib), "interval conversion");
  nda::interval<DB::Min, DB::Extent> ic((index_t)m.min, (index_t)m.ext);
  ic = ia;
  CHECK(ic.min() == m.min && ic.extent() == m.ext && ic.max() == m.max() && ic.size() == m.ext, "interval assignment");
  DB id(ib, (index_t)m.str);
  dim_same(id, m);
  // Differences must be seen in every parameter that can differ at run time.
  nda::dim<> dd((index_t)other.min, (index_t)other.ext, (index_t)other.str);
  bool same = other == m;
  CHECK((a == dd) == same && (dd == a) == same && (a != dd) == !same && (dd != b) == !same, "dim == of different values");
  nda::interval<> vv((index_t)other.min, (index_t)other.ext);
  bool isame = other.min == m.min && other.ext == m.ext;
  CHECK((ia == vv) == isame && (vv == ia) == isame && (ia != vv) == !isame, "interval == of different values");
  // Setters on the dynamic parameters; setting a static one to its own value is allowed.
  DA f(a);
  f.set_min(DA::Min == DV ? (index_t)other.min : (index_t)m.min);
  f.set_extent(DA::Extent == DV ? (index_t)other.ext : (index_t)m.ext);
  f.set_stride(DA::Stride == DV ? (index_t)other.str : (index_t)m.str);
  MDim want{DA::Min == DV ? other.min : m.min, DA::Extent == DV ? other.ext : m.ext, DA::Stride == DV ? other.str : m.str};
  CHECK(to_mdim(f) == want, "setters");
  // set_max keeps the min and the stride; set_min keeps the extent.
  f.set_max((index_t)(want.min + want.ext - 1));
  CHECK(to_mdim(f) == want, "set_max to the current max");
  nda::interval<DA::Min, DA::Extent> fi(ia);
  if (DA::Extent == DV) {
    f.set_max((index_t)(want.min + 16));
    CHECK(f.min() == want.min && f.max() == want.min + 16 && f.extent() == 17 && f.stride() == want.str, "set_max");
    f.set_max((index_t)(want.min - 1));
    CHECK(f.min() == want.min && f.extent() == 0 && f.stride() == want.str, "set_max to the empty interval");
    fi.set_max((index_t)(m.min + 4));
    CHECK(fi.min() == m.min && fi.max() == m.min + 4 && fi.extent() == 5, "interval set_max");
  }
  if (DA::Min == DV) {
    fi.set_min((index_t)(m.min - 20));
    CHECK(fi.min() == m.min - 20 && fi.extent() == (DA::Extent == DV ? 5 : m.ext), "interval set_min");
  }
  count("dim_pairs_checked");
}

template <long Min, long Ext, long Str>
void triple(Rng& R, size_t ia, size_t ib) {
  MDim m{Min, Ext, Str};
  using L = typename Triples<Min, Ext, Str>::list;
  MDim other = m;
  switch (R.below(6)) {
  case 0: other.min += R.pick<long>({1, -1, 2, -9}); break;
  case 1: other.ext += R.range(1, 3); break;
  case 2: other.str += R.pick<long>({1, -1, -9, 9}); break;
  case 3: other = MDim{-9, 9, -9}; break;
  default: break;
  }
  desc("dim (%ld,%ld,%ld) types %zu -> %zu other (%ld,%ld,%ld)", Min, Ext, Str, ia, ib, other.min, other.ext, other.str);
  nontrivial();
  with_type(L(), ia, [&](auto ta) {
    with_type(L(), ib, [&](auto tb) { dim_pair<typename decltype(ta)::type, typename decltype(tb)::type>(m, other); });
  });
}
GROUP(dims, 448, 6400) {
  size_t ia = (size_t)I % 8, ib = (size_t)(I / 8) % 8;
  switch ((I / 64) % 7) {
  case 0: triple<0, 4, 1>(R, ia, ib); break;
  case 1: triple<-3, 5, -2>(R, ia, ib); break;
  case 2: triple<7, 0, 0>(R, ia, ib); break;
  case 3: triple<1, 1, 12>(R, ia, ib); break;
  case 4: triple<-1, 2, -7>(R, ia, ib); break;
  case 5: triple<100000, 33, 8>(R, ia, ib); break;
  default: triple<-2, 3, 0>(R, ia, ib); break;
  }
}
// Defaults: dims and intervals constructed with omitted arguments.
GROUP(defaults, 1, 1) {
  desc("default construction");
  nontrivial();
  nda::interval<> a;
  CHECK(a.min() == 0 && a.extent() == 1, "interval<>()");
  nda::interval<> b(5);
  CHECK(b.min() == 5 && b.extent() == 1, "interval<>(5)");
  nda::interval<3> c;
  CHECK(c.min() == 3 && c.extent() == 1, "interval<3>()");
  nda::interval<DV, 7> d;
  CHECK(d.min() == 0 && d.extent() == 7, "interval<dynamic, 7>()");
  nda::interval<DV, 7> e(-2);
  CHECK(e.min() == -2 && e.extent() == 7, "interval<dynamic, 7>(-2)");
  nda::interval<-4, 2> f;
  CHECK(f.min() == -4 && f.extent() == 2 && f.max() == -3, "interval<-4, 2>()");
  nda::fixed_interval<4> g(9);
  CHECK(g.min() == 9 && g.extent() == 4, "fixed_interval<4>(9)");
  nda::dim<> h;
  CHECK(h.min() == 0 && h.extent() == 0 && h.stride() == nda::unresolved, "dim<>()");
  nda::dim<> i(6);
  CHECK(i.min() == 0 && i.extent() == 6 && i.stride() == nda::unresolved, "dim<>(6)");
  nda::dim<2> j(6);
  CHECK(j.min() == 2 && j.extent() == 6, "dim<2>(6)");
  nda::dim<DV, 5> k;
  CHECK(k.min() == 0 && k.extent() == 5, "dim<dynamic, 5>()");
  nda::dense_dim<> l(3, 4);
  CHECK(l.min() == 3 && l.extent() == 4 && l.stride() == 1, "dense_dim<>(3, 4)");
  nda::broadcast_dim<> m(3, 4);
  CHECK(m.stride() == 0, "broadcast_dim");
  nda::strided_dim<6> n(3, 4);
  CHECK(n.stride() == 6, "strided_dim<6>");
  nda::fixed_dim<6> o;
  CHECK(o.extent() == 6 && o.min() == 0, "fixed_dim<6>");
  nda::dim<> p(nda::interval<>(4, 5));
  CHECK(p.min() == 4 && p.extent() == 5 && p.stride() == nda::unresolved, "dim(interval)");
  nda::dim<> q(nda::interval<>(4, 5), 6);
  CHECK(q.min() == 4 && q.extent() == 5 && q.stride() == 6, "dim(interval, stride)");
  nda::shape_of_rank<3> s;
  CHECK(s.empty() && s.size() == 0, "default shape is empty");
  nda::fixed_dense_shape<3, 4> t;
  CHECK(t.size() == 12 && !t.empty(), "default fixed shape");
}

template <class Shape, size_t... Is>
void param_static(size_t k, bool* out, std::index_sequence<Is...>) {
  using D = typename Shape::dims_type;
  bool a[] = {false, (std::tuple_element<Is, D>::type::Min != DV)...};
  bool b[] = {false, (std::tuple_element<Is, D>::type::Extent != DV)...};
  bool c[] = {false, (std::tuple_element<Is, D>::type::Stride != DV)...};
  out[0] = a[k + 1];
  out[1] = b[k + 1];
  out[2] = c[k + 1];
}
// Whole shapes: the static type against the all-runtime one.
template <class Shape>
void compare_shapes(Rng& R, const MShape& m) {
  constexpr size_t rank = Shape::rank();
  using Dyn = nda::shape_of_rank<rank>;
  Shape s = from_mshape<Shape>(m);
  Dyn d = from_mshape<Dyn>(m);
  CHECK(to_mshape(s) == m, "static shape holds %s", to_mshape(s).str().c_str());
  CHECK(to_mshape(d) == m, "dynamic shape holds %s", to_mshape(d).str().c_str());
  CHECK(s == d && d == s && !(s != d) && !(d != s), "shapes with equal values compare unequal");
  // Conversions both ways, construction and assignment.
  Dyn d2(s);
  CHECK(to_mshape(d2) == m, "Dyn(static) is %s", to_mshape(d2).str().c_str());
  Shape s2(d);
  CHECK(to_mshape(s2) == m, "Static(dyn) is %s", to_mshape(s2).str().c_str());
  Dyn d3;
  d3 = s;
  CHECK(to_mshape(d3) == m, "dyn = static gave %s", to_mshape(d3).str().c_str());
  // Assignment over values that differ wherever they can.
  MShape old = m;
  for (size_t k = 0; k < rank; k++) {
    bool fixed[3];
    param_static<Shape>(k, fixed, std::make_index_sequence<rank>());
    if (!fixed[0]) old.d[k].min += R.range(-4, 4);
    if (!fixed[1]) old.d[k].ext += R.range(0, 3);
    if (!fixed[2]) old.d[k].str += R.range(-6, 6);
  }
  // Sometimes as many elements in other extents.
  if (rank > 1 && R.chance(30)) {
    size_t i = R.below(rank), j = (i + 1) % rank;
    bool fi[3], fj[3];
    param_static<Shape>(i, fi, std::make_index_sequence<rank>());
    param_static<Shape>(j, fj, std::make_index_sequence<rank>());
    if (!fi[1] && !fj[1]) {
      for (size_t k = 0; k < rank; k++) old.d[k].ext = m.d[k].ext;
      std::swap(old.d[i].ext, old.d[j].ext);
    }
  }
  Shape s3 = from_mshape<Shape>(old);
  CHECK(to_mshape(s3) == old, "static shape holds %s", to_mshape(s3).str().c_str());
  s3 = d;
  CHECK(to_mshape(s3) == m, "static = dyn gave %s", to_mshape(s3).str().c_str());
  Shape s4 = from_mshape<Shape>(old);
  s4 = s;
  CHECK(to_mshape(s4) == m, "static = static gave %s", to_mshape(s4).str().c_str());
  Dyn d4 = from_mshape<Dyn>(old);
  d4 = s;
  CHECK(to_mshape(d4) == m, "dyn = static over other values gave %s", to_mshape(d4).str().c_str());
  Dyn d5 = from_mshape<Dyn>(old);
  d5 = d;
  CHECK(to_mshape(d5) == m, "dyn = dyn over other values gave %s", to_mshape(d5).str().c_str());
  s3 = d3;
  CHECK(s3 == s, "round trip");
  Shape s5(d.dims());
  CHECK(to_mshape(s5) == m, "Static(tuple of dims)");
  Shape s6 = nda::convert_shape<Shape>(d);
  CHECK(to_mshape(s6) == m, "convert_shape<Static>(dyn)");
  CHECK(to_mshape(nda::convert_shape<Dyn>(s)) == m, "convert_shape<Dyn>(static)");
  CHECK(nda::is_compatible<Shape>(d) && nda::is_compatible<Dyn>(s), "is_compatible of equal values");
  CHECK(nda::is_explicitly_compatible<Shape>(d) && nda::is_explicitly_compatible<Dyn>(s), "is_explicitly_compatible of equal values");
  // Geometry agrees.
  CHECK_EQ(s.size(), d.size(), "size");
  CHECK_EQ(s.empty(), d.empty(), "empty");
  CHECK_EQ(s.flat_extent(), d.flat_extent(), "flat_extent");
  if (!m.empty()) {
    CHECK_EQ(s.flat_min(), d.flat_min(), "flat_min");
    CHECK_EQ(s.flat_max(), d.flat_max(), "flat_max");
    CHECK_EQ(s.is_compact(), d.is_compact(), "is_compact");
    CHECK_EQ(s.is_one_to_one(), d.is_one_to_one(), "is_one_to_one");
  }
  std::vector<Idx> a, b;
  long budget = m.size() + 2;
  m.each([&](const Idx& i) { CHECK_EQ(s[from_idx<rank>(i)], d[from_idx<rank>(i)], "offset"); });
  nda::for_each_index_in_order(s, [&](const typename Shape::index_type& i) { CHECK(--budget > 0, "too many calls"); a.push_back(to_idx(i)); });
  budget = m.size() + 2;
  nda::for_each_index_in_order(d, [&](const typename Dyn::index_type& i) { CHECK(--budget > 0, "too many calls"); b.push_back(to_idx(i)); });
  CHECK(a == b, "iteration of static and dynamic shapes differs");
  // array_ref conversions keep addresses and values.
  Arena<int64_t> mem(m);
  nda::array_ref<int64_t, Shape> rs(mem.base, s);
  nda::array_ref<int64_t, Dyn> rd(rs);
  CHECK(rd.base() == mem.base && to_mshape(rd.shape()) == m, "array_ref<Dyn>(array_ref<Static>)");
  nda::array_ref<int64_t, Shape> rs2(rd);
  CHECK(rs2.base() == mem.base && to_mshape(rs2.shape()) == m, "array_ref<Static>(array_ref<Dyn>)");
  int64_t* at = R.chance(50) ? mem.base : mem.base + 1;
  nda::array_ref<int64_t, Dyn> rd2(at, from_mshape<Dyn>(old));
  rd2 = rs;
  CHECK(rd2.base() == mem.base && to_mshape(rd2.shape()) == m, "array_ref<Dyn> = array_ref<Static>");
  rs2 = nda::array_ref<int64_t, Shape>(at, from_mshape<Shape>(old));
  CHECK(rs2.base() == at && to_mshape(rs2.shape()) == old, "array_ref = array_ref");
  rs2 = rd2;
  CHECK(rs2.base() == mem.base && to_mshape(rs2.shape()) == m, "array_ref<Static> = array_ref<Dyn>");
  nda::const_array_ref<int64_t, Shape> rc = rs;
  CHECK(rc.base() == mem.base && to_mshape(rc.shape()) == m, "const_array_ref = array_ref");
  nda::const_array_ref<int64_t, Dyn> rc2 = rc;
  CHECK(rc2.base() == mem.base && to_mshape(rc2.shape()) == m, "const_array_ref<Dyn>(const_array_ref<Static>)");
  auto cv = nda::convert_shape<Dyn>(rs);
  CHECK(cv.base() == mem.base && to_mshape(cv.shape()) == m, "convert_shape<Dyn>(array_ref)");
  nda::array<int, Shape> arr(s);
  nda::array_ref<int, Dyn> ra = arr.ref();
  nda::const_array_ref<int, Dyn> rb = arr.cref();
  CHECK(ra.base() == arr.base() && rb.base() == arr.base() && to_mshape(ra.shape()) == m && to_mshape(rb.shape()) == m, "refs of an array");
  nda::array_ref<int, Shape> rt = arr;
  CHECK(rt.base() == arr.base() && to_mshape(rt.shape()) == m, "array converts to array_ref");
  // A single changed value makes the shapes unequal and the static type incompatible.
  long mins[] = {0, 0, 0, 0, 0, 0, 0, 0};
  (void)mins;
  for (size_t k = 0; k < rank; k++) {
    for (int f = 0; f < 3; f++) {
      MShape n = m;
      long delta = R.pick<long>({1, -1, 2, 9, 1000});
      if (f == 0) n.d[k].min += delta;
      if (f == 1) n.d[k].ext += labs(delta);
      if (f == 2) n.d[k].str += delta;
      Dyn e = from_mshape<Dyn>(n);
      CHECK(!(e == s) && !(s == e) && e != s && s != e && !(e == d) && e != d, "shapes differing in one value compare equal (dim %zu field %d)", k, f);
      bool fixed[3];
      param_static<Shape>(k, fixed, std::make_index_sequence<rank>());
      CHECK_EQ(nda::is_compatible<Shape>(e), !fixed[f], "is_compatible after changing one value");
      CHECK_EQ(nda::is_explicitly_compatible<Shape>(e), !fixed[f], "is_explicitly_compatible after changing one value");
      count("single_value_differences");
    }
  }
  count("shape_pairs_checked");
}
template <>
void compare_shapes<nda::shape<>>(Rng&, const MShape&) {
  nda::shape<> a, b;
  CHECK(a == b && !(a != b) && a.size() == 1 && a.flat_extent() == 1 && !a.empty(), "rank 0 shapes");
}

GROUP(shapes, 3500, 60000) {
  with_type(StaticShapes(), (size_t)I % list_size(StaticShapes()), [&](auto tag) {
    using Shape = typename decltype(tag)::type;
    GenOpts o;
    o.max_size = 300;
    MShape m;
    if (!gen_for_type<Shape>(R, &m, o)) return;
    desc("type %ld %s", I % (long)list_size(StaticShapes()), m.str().c_str());
    nontrivial();
    compare_shapes<Shape>(R, m);
  });
}
GROUP(broadcasts, 300, 6000) {
  with_type(BroadcastShapes(), (size_t)I % list_size(BroadcastShapes()), [&](auto tag) {
    using Shape = typename decltype(tag)::type;
    GenOpts o;
    o.max_size = 300;
    MShape m;
    if (!gen_for_type<Shape>(R, &m, o)) return;
    desc("btype %ld %s", I % (long)list_size(BroadcastShapes()), m.str().c_str());
    nontrivial();
    compare_shapes<Shape>(R, m);
  });
}
// Explicit conversion between ranks, and compatibility of unequal ranks.
GROUP(ranks, 800, 10000) {
  GenOpts o;
  o.max_size = 300;
  MShape m = gen_shape(R, 2, o);
  desc("%s", m.str().c_str());
  nontrivial();
  auto s = dyn<2>(m);
  auto s4 = nda::convert_shape<nda::shape_of_rank<4>>(s);
  MShape w = to_mshape(s4);
  CHECK(w.d[0] == m.d[0] && w.d[1] == m.d[1], "raised rank keeps leading dims, got %s", w.str().c_str());
  CHECK(w.d[2].min == 0 && w.d[2].ext == 1 && w.d[3].min == 0 && w.d[3].ext == 1, "added dims are min 0 extent 1, got %s", w.str().c_str());
  auto s2 = nda::convert_shape<nda::shape_of_rank<2>>(s4);
  CHECK(to_mshape(s2) == m, "lowered rank keeps leading dims");
  auto sd = nda::convert_shape<nda::shape<nda::dim<>, nda::dim<>, nda::broadcast_dim<0, 1>>>(s);
  CHECK(to_mshape(sd).d[0] == m.d[0] && sd.template dim<2>().stride() == 0 && sd.template dim<2>().extent() == 1, "raise with static dims");
}
HARNESS_MAIN
