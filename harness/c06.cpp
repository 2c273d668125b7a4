// C06: slices and crops alias exactly the selected elements.
#include "model.h"
#include "types.h"
using namespace vh;
using nda::_;

// What one indexing argument selects from a source dim.
struct Sel {
  bool slice;
  long at;       // slice index
  long min, ext; // crop
};
constexpr int KINDS = 6;
template <int K>
struct Arg;
template <>
struct Arg<0> { // an index
  static long get(Rng& R, const MDim& d, Sel& s) {
    s = {true, d.ext > 0 ? d.min + R.below(d.ext) : d.min, 0, 0};
    return s.at;
  }
};
static Sel pick_interval(Rng& R, const MDim& d) {
  Sel s{false, 0, d.min, d.ext};
  if (d.ext <= 0) return s;
  switch (R.below(6)) {
  case 0: break;
  case 1: s.ext = 1 + R.below(d.ext); break;                                  // prefix
  case 2: s.min = d.min + R.below(d.ext); s.ext = d.max() - s.min + 1; break; // suffix
  case 3: s.min = d.min + R.below(d.ext + 1); s.ext = 0; break;               // empty
  default: s.min = d.min + R.below(d.ext); s.ext = 1 + R.below(d.max() - s.min + 1); break;
  }
  return s;
}
template <>
struct Arg<1> { // a run-time interval
  static nda::interval<> get(Rng& R, const MDim& d, Sel& s) {
    s = pick_interval(R, d);
    return nda::interval<>(s.min, s.ext);
  }
};
template <>
struct Arg<2> { // the whole dim
  static const nda::interval<0, -1>& get(Rng&, const MDim& d, Sel& s) {
    s = Sel{false, 0, d.min, d.ext};
    return _;
  }
};
template <>
struct Arg<3> { // a dim, whose own stride must be ignored
  static nda::dim<> get(Rng& R, const MDim& d, Sel& s) {
    s = pick_interval(R, d);
    return nda::dim<>(s.min, s.ext, R.pick<long>({1, 0, -7, 1000}));
  }
};
template <>
struct Arg<4> { // a compile-time extent
  static nda::fixed_interval<2> get(Rng& R, const MDim& d, Sel& s) {
    REQUIRE(d.ext >= 2);
    s = Sel{false, 0, d.min + R.below(d.ext - 1), 2};
    return nda::range<2>(s.min);
  }
};
template <>
struct Arg<5> { // extent 1, which is kept as a dim (unlike an index)
  static nda::dim<nda::dynamic, 1, 3> get(Rng& R, const MDim& d, Sel& s) {
    REQUIRE(d.ext >= 1);
    s = Sel{false, 0, d.min + R.below(d.ext), 1};
    return nda::dim<nda::dynamic, 1, 3>(s.min, 1);
  }
};

static MShape view_shape(const MShape& src, const std::vector<Sel>& sel) {
  MShape v;
  for (size_t k = 0; k < src.rank(); k++)
    if (!sel[k].slice) v.d.push_back(MDim{sel[k].min, sel[k].ext, src.d[k].str});
  return v;
}
static Idx combine(const std::vector<Sel>& sel, const Idx& v) {
  Idx r;
  size_t n = 0;
  for (auto& s : sel) r.push_back(s.slice ? s.at : v[n++]);
  return r;
}

// Monitor: every element of the view is the source's element at the combined index.
template <bool Const, class View, class Src>
void judge(const char* how, View v, Src& src, const MShape& m, const std::vector<Sel>& sel) {
  constexpr size_t N = View::rank();
  CHECK_EQ(std::is_const<typename View::value_type>::value, Const, "constness of the view's elements");
  MShape want = view_shape(m, sel);
  MShape got = to_mshape(v.shape());
  CHECK(got == want, "%s: view has shape %s, expected %s", how, got.str().c_str(), want.str().c_str());
  CHECK_EQ(v.size(), want.size(), "size of the view");
  want.each([&](const Idx& i) {
    Idx c = combine(sel, i);
    auto* p = &call_idx<N>(v, i);
    auto* q = &v[from_idx<N>(i)];
    auto* w = &call_idx<Src::rank()>(src, c);
    CHECK(p == w && q == w, "%s: element %s of the view is not element %s of the source", how, idx_str(i).c_str(), idx_str(c).c_str());
  });
  count("view_elements_checked", (unsigned long long)want.size());
  count("views_checked");
}
template <class View, class Src>
void write_through(View v, Src& src, const MShape& m, const std::vector<Sel>& sel) {
  constexpr size_t N = View::rank();
  MShape want = view_shape(m, sel);
  long k = 1000;
  want.each([&](const Idx& i) { call_idx<N>(v, i) = k++; });
  k = 1000;
  if (m.one_to_one())
    want.each([&](const Idx& i) { CHECK_EQ(call_idx<Src::rank()>(src, combine(sel, i)), k, "value written through the view"); k++; });
  long n = 0;
  v.for_each_value([&](int64_t& x) { n++; x = 7; });
  CHECK_EQ(n, want.size(), "elements of the view traversed");
}

// Re-slice a view in the ways its rank allows, against the original source.
template <class View, class Src, std::enable_if_t<View::rank() == 0, int> = 0>
void nested_views(Rng&, View, Src&, const MShape&, std::vector<Sel>) {}
template <class View, class Src, size_t... Is>
void nested_crop(Rng& R, View v, Src& src, const MShape& m, std::vector<Sel> sel, std::index_sequence<Is...>) {
  std::vector<size_t> kept;
  for (size_t k = 0; k < sel.size(); k++)
    if (!sel[k].slice) kept.push_back(k);
  Sel inner[] = {pick_interval(R, MDim{sel[kept[Is]].min, sel[kept[Is]].ext, 0})...};
  auto w = v(nda::interval<>(inner[Is].min, inner[Is].ext)...);
  auto w2 = v[std::make_tuple(nda::interval<>(inner[Is].min, inner[Is].ext)...)];
  for (size_t n = 0; n < kept.size(); n++) sel[kept[n]] = inner[n];
  judge<false>("crop of a view", w, src, m, sel);
  judge<false>("crop of a view (tuple)", w2, src, m, sel);
}
template <class View, class Src, size_t... Is, std::enable_if_t<(sizeof...(Is) > 0), int> = 0>
void nested_slice(Rng& R, View v, Src& src, const MShape& m, std::vector<Sel> sel, std::index_sequence<Is...>) {
  // Slice the first remaining dim.
  size_t k = 0;
  while (sel[k].slice) k++;
  if (sel[k].ext <= 0) return;
  long at = sel[k].min + R.below(sel[k].ext);
  auto w = v((index_t)at, (Is, _)...);
  sel[k] = Sel{true, at, 0, 0};
  judge<false>("slice of a view", w, src, m, sel);
}
template <class View, class Src>
void nested_slice(Rng&, View, Src&, const MShape&, std::vector<Sel>, std::index_sequence<>) {}
template <class View, class Src, std::enable_if_t<(View::rank() > 0), int> = 0>
void nested_views(Rng& R, View v, Src& src, const MShape& m, std::vector<Sel> sel) {
  nested_crop(R, v, src, m, sel, std::make_index_sequence<View::rank()>());
  nested_slice(R, v, src, m, sel, std::make_index_sequence<View::rank() - 1>());
}

constexpr int kind_at(int pattern, int k, int kinds) { return k == 0 ? pattern % kinds : kind_at(pattern / kinds, k - 1, kinds); }
constexpr bool all_zero(int pattern, int rank, int kinds) { return rank == 0 ? true : pattern % kinds == 0 && all_zero(pattern / kinds, rank - 1, kinds); }

template <int Pattern, int Kinds, bool Nested, class Shape, size_t... Is>
void run_pattern(Rng& R, const MShape& m, std::index_sequence<Is...>) {
  constexpr size_t rank = Shape::rank();
  std::vector<Sel> sel(rank);
  // Evaluate the arguments once, in order.
  auto args = std::tuple<decltype(Arg<kind_at(Pattern, Is, Kinds)>::get(R, m.d[Is], sel[Is]))...>{Arg<kind_at(Pattern, Is, Kinds)>::get(R, m.d[Is], sel[Is])...};
  std::string t;
  for (auto& s : sel) t += s.slice ? "[" + std::to_string(s.at) + "]" : "[" + std::to_string(s.min) + "+" + std::to_string(s.ext) + "]";
  desc("%s pattern %d: %s", m.str().c_str(), Pattern, t.c_str());
  if (view_shape(m, sel).size() > 0) nontrivial();
  Shape s = from_mshape<Shape>(m);
  auto targs = std::make_tuple(std::get<Is>(args)...);
  // The shape itself.
  auto vs = s(std::get<Is>(args)...);
  CHECK(to_mshape(vs) == view_shape(m, sel), "slice of a shape is %s", to_mshape(vs).str().c_str());
  auto vt = s[targs];
  CHECK(to_mshape(vt) == view_shape(m, sel), "slice of a shape (tuple) is %s", to_mshape(vt).str().c_str());
  // array_ref and const_array_ref over guarded memory.
  Arena<int64_t> mem(m);
  nda::array_ref<int64_t, Shape> ref(mem.base, s);
  nda::const_array_ref<int64_t, Shape> cref(mem.base, s);
  mem.protect();
  m.each([&](const Idx& i) { call_idx<rank>(ref, i) = m.offset(i); });
  auto v = ref(std::get<Is>(args)...);
  judge<false>("array_ref(...)", v, ref, m, sel);
  write_through(v, ref, m, sel);
  judge<false>("array_ref[...]", ref[targs], ref, m, sel);
  judge<true>("const_array_ref(...)", cref(std::get<Is>(args)...), cref, m, sel);
  judge<true>("const_array_ref[...]", cref[targs], cref, m, sel);
  mem.verify("slicing");
  // array and const array.
  nda::array<int64_t, Shape> arr(s, 1);
  const auto& carr = arr;
  auto av = arr(std::get<Is>(args)...);
  judge<false>("array(...)", av, arr, m, sel);
  write_through(av, arr, m, sel);
  judge<false>("array[...]", arr[targs], arr, m, sel);
  judge<true>("const array(...)", carr(std::get<Is>(args)...), carr, m, sel);
  judge<true>("const array[...]", carr[targs], carr, m, sel);
  if (Nested) nested_views(R, av, arr, m, sel);
}
template <int Pattern, int Kinds, bool Nested, class Shape, std::enable_if_t<!all_zero(Pattern, (int)Shape::rank(), Kinds), int> = 0>
void run(Rng& R, const MShape& m) {
  run_pattern<Pattern, Kinds, Nested, Shape>(R, m, std::make_index_sequence<Shape::rank()>());
}
template <int Pattern, int Kinds, bool Nested, class Shape, std::enable_if_t<all_zero(Pattern, (int)Shape::rank(), Kinds), int> = 0>
void run(Rng&, const MShape&) {} // all indices: an element, not a view

template <int Kinds, bool Nested, class Shape, int Mul, int Add, size_t... Ps>
void dispatch(Rng& R, const MShape& m, size_t p, std::index_sequence<Ps...>) {
  int unused[] = {0, (p == Ps ? (run<(int)Ps * Mul + Add, Kinds, Nested, Shape>(R, m), 0) : 0)...};
  (void)unused;
}
static GenOpts opts() {
  GenOpts o;
  o.allow_empty = false;
  o.max_size = 400;
  return o;
}
static MShape gen(Rng& R, size_t rank, bool need2, bool small = false) {
  GenOpts o = opts();
  o.small_mins = small;
  MShape m = gen_bounds(R, rank, o);
  if (need2)
    for (auto& x : m.d)
      if (x.ext < 2) x.ext = R.range(2, 3);
  gen_strides(R, m, o);
  return m;
}

GROUP(rank1, 360, 6000) {
  dispatch<KINDS, true, nda::shape_of_rank<1>, 1, 0>(R, gen(R, 1, true), (size_t)(I % 6), std::make_index_sequence<6>());
}
GROUP(rank2, 1440, 24000) {
  dispatch<KINDS, true, nda::shape_of_rank<2>, 1, 0>(R, gen(R, 2, true), (size_t)(I % 36), std::make_index_sequence<36>());
}
#ifdef VERIF_RANK3
// Kinds index, interval, `_`, dim: all 64 patterns.
GROUP(rank3, 1536, 24000) {
  dispatch<4, false, nda::shape_of_rank<3>, 1, 0>(R, gen(R, 3, false), (size_t)(I % 64), std::make_index_sequence<64>());
}
// Rank 4 with kinds index, interval, `_`: every fourth pattern.
GROUP(rank4, 600, 9000) {
  dispatch<3, false, nda::shape_of_rank<4>, 4, 2>(R, gen(R, 4, false), (size_t)(I % 20), std::make_index_sequence<20>());
}
#else
template <class Shape, bool Nested, int Kinds, int Mul, int Add, size_t N>
void static_shape(Rng& R, long i) {
  GenOpts o = opts();
  MShape m;
  if (!gen_for_type<Shape>(R, &m, o)) return;
  dispatch<Kinds, Nested, Shape, Mul, Add>(R, m, (size_t)i % N, std::make_index_sequence<N>());
}
GROUP(matrix_dyn, 300, 4000) { static_shape<nda::matrix_shape<>, true, 4, 1, 0, 16>(R, I); }
GROUP(matrix_static, 300, 4000) { static_shape<nda::matrix_shape<3, 4>, false, 6, 1, 0, 36>(R, I); }
GROUP(mixed_static, 200, 4000) { static_shape<nda::shape<nda::dim<2>, nda::dense_dim<-1, 3>>, false, 4, 1, 0, 16>(R, I); }
GROUP(reversed, 200, 4000) { static_shape<nda::shape<nda::strided_dim<-1>, nda::dim<>>, false, 4, 1, 0, 16>(R, I); }
GROUP(broadcast, 200, 4000) { static_shape<nda::shape<nda::dim<>, nda::broadcast_dim<0, 4>>, false, 4, 1, 0, 16>(R, I); }
GROUP(chunky, 300, 4000) { static_shape<nda::chunky_image_shape<3>, false, 3, 2, 0, 13>(R, I); }
GROUP(fixed, 300, 4000) { static_shape<nda::fixed_dense_shape<4, 3, 2>, false, 4, 5, 1, 12>(R, I); }
// Crops with compile-time mins, alone and beside slices, intervals and `_`.
template <class A, class Shape>
void static_crop(Rng& R, const MShape& m, const A& arg, const Sel& s0) {
  Shape s = from_mshape<Shape>(m);
  nda::array<int64_t, Shape> src(s, 5);
  std::vector<Sel> sel{s0, pick_interval(R, m.d[1])};
  Sel all{false, 0, m.d[1].min, m.d[1].ext}, at{true, m.d[1].min + R.below(m.d[1].ext), 0, 0};
  judge<false>("a crop with a static min, and an interval", src(arg, nda::interval<>((index_t)sel[1].min, (index_t)sel[1].ext)), src, m, sel);
  judge<false>("a tuple of a crop with a static min, and an interval", src[std::make_tuple(arg, nda::interval<>((index_t)sel[1].min, (index_t)sel[1].ext))], src, m, sel);
  sel[1] = all;
  judge<false>("a crop with a static min, and _", src(arg, _), src, m, sel);
  judge<true>("a crop with a static min, and _, of a const array", static_cast<const decltype(src)&>(src)(arg, _), src, m, sel);
  nested_views(R, src.ref()(arg, _), src, m, sel);
  sel[1] = at;
  judge<false>("a crop with a static min, and an index", src(arg, (index_t)at.at), src, m, sel);
  write_through(src(arg, (index_t)at.at), src, m, sel);
}
template <class A>
void static_crops(Rng& R, long i, const A& arg) {
  GenOpts o = opts();
  MShape m = gen_bounds(R, 2, o);
  m.d[0].min = arg.min() - R.below(4);
  m.d[0].ext = arg.extent() + arg.min() - m.d[0].min + R.below(4);
  if (m.d[0].ext < 1) m.d[0].ext = 1;
  if (m.d[1].ext < 1) m.d[1].ext = 1 + R.below(4);
  gen_strides(R, m, o);
  if (!m.one_to_one()) return;
  Sel s{false, 0, (long)arg.min(), (long)arg.extent()};
  desc("[%ld,+%ld) of %s", s.min, s.ext, m.str().c_str());
  nontrivial();
  if (i % 2) {
    static_crop<A, nda::shape_of_rank<2>>(R, m, arg, s);
  } else {
    m.d[0].str = 1;
    m.d[1].str = m.d[0].ext;
    static_crop<A, nda::dense_shape<2>>(R, m, arg, s);
  }
}
GROUP(static_mins, 600, 9000) {
  index_t e = (index_t)R.range(0, 4);
  long j = I / 10;
  switch (I % 10) {
  case 0: static_crops(R, j, nda::dim<2, 1>()); break;
  case 1: static_crops(R, j, nda::dim<-3, 2, 5>()); break;
  case 2: static_crops(R, j, nda::interval<2, 3>()); break;
  case 3: static_crops(R, j, nda::interval<4>(4, e)); break;
  case 4: static_crops(R, j, nda::dim<2>(2, e)); break;
  case 5: static_crops(R, j, nda::dense_dim<1, 2>()); break;
  case 6: static_crops(R, j, nda::dim<3, 0>()); break;
  case 7: static_crops(R, j, nda::broadcast_dim<1, 2>()); break;
  case 8: static_crops(R, j, nda::interval<-1, 1>()); break;
  default: static_crops(R, j, nda::interval<0, 2>()); break;
  }
}
#endif
// Views of empty and null arrays.
GROUP(empties, 100, 1000) {
  GenOpts o = opts();
  MShape m = gen_bounds(R, 2, o);
  m.d[(size_t)(I % 2)].ext = 0;
  gen_strides(R, m, o);
  desc("empty %s", m.str().c_str());
  nontrivial();
  auto s = dyn<2>(m);
  nda::array_of_rank<int, 2> a(s);
  nda::array_ref_of_rank<int, 2> n(nullptr, s);
  MShape v;
  v.d = {m.d[0]};
  auto x = a(_, (index_t)m.d[1].min);
  auto y = n(_, (index_t)m.d[1].min);
  CHECK(to_mshape(x.shape()) == v && to_mshape(y.shape()) == v, "slice of an empty array");
  CHECK(n(_, _).base() == nullptr && y.base() == nullptr, "a view of a null array_ref has a null base");
  auto z = a(nda::interval<>(m.d[0].min, m.d[0].ext), _);
  CHECK(z.empty() && to_mshape(z.shape()) == m, "crop of an empty array");
  z.for_each_value([&](int&) { fail("an empty view has an element"); });
}
// Crops that stick out of the source: the view has the requested bounds, and the indices that are also
// indices of the source refer to the same elements.
template <class View, class Src>
void judge_outside(const char* how, View v, Src& src, const MShape& m, const std::vector<Sel>& sel) {
  MShape want = view_shape(m, sel), got = to_mshape(v.shape());
  CHECK(got == want, "%s: view has shape %s, expected %s", how, got.str().c_str(), want.str().c_str());
  bool empty = false;
  MShape common = want;
  size_t n = 0;
  for (size_t k = 0; k < m.rank(); k++) {
    if (sel[k].slice) continue;
    MDim& d = common.d[n++];
    long lo = std::max(d.min, m.d[k].min), hi = std::min(d.max(), m.d[k].max());
    d.min = lo;
    d.ext = hi - lo + 1;
    if (hi < lo) empty = true;
  }
  if (empty) return;
  common.each([&](const Idx& i) {
    Idx c = combine(sel, i);
    CHECK(&call_idx<View::rank()>(v, i) == &call_idx<Src::rank()>(src, c), "%s: element %s of a crop that sticks out is not element %s of the source", how, idx_str(i).c_str(), idx_str(c).c_str());
  });
  count("view_elements_checked", (unsigned long long)common.size());
  count("views_checked");
}
static Sel pick_outside(Rng& R, const MDim& d) {
  Sel s{false, 0, d.min + R.range(-3, 3), 0};
  s.ext = R.range(1, d.ext + 5);
  return s;
}
template <class Shape>
void outside(Rng& R, const MShape& m) {
  std::vector<Sel> sel = {pick_outside(R, m.d[0]), pick_outside(R, m.d[1])};
  desc("%s cropped to [%ld+%ld] [%ld+%ld]", m.str().c_str(), sel[0].min, sel[0].ext, sel[1].min, sel[1].ext);
  nontrivial();
  Shape s = from_mshape<Shape>(m);
  nda::array<int64_t, Shape> arr(s, 1);
  const auto& carr = arr;
  auto ref = arr.ref();
  nda::interval<> i0((index_t)sel[0].min, (index_t)sel[0].ext), i1((index_t)sel[1].min, (index_t)sel[1].ext);
  nda::dim<> d0(i0.min(), i0.extent(), 5), d1(i1.min(), i1.extent());
  CHECK(to_mshape(s(i0, d1)) == view_shape(m, sel), "crop of a shape is %s", to_mshape(s(i0, d1)).str().c_str());
  judge_outside("array", arr(i0, i1), arr, m, sel);
  judge_outside("array, dims", arr(d0, d1), arr, m, sel);
  judge_outside("const array", carr[std::make_tuple(i0, d1)], carr, m, sel);
  judge_outside("array_ref", ref(d0, i1), ref, m, sel);
  judge_outside("const_array_ref", carr.cref()(i0, i1), carr, m, sel);
  auto all = sel;
  all[1] = Sel{false, 0, m.d[1].min, m.d[1].ext};
  judge_outside("array with _", arr(i0, _), arr, m, all);
  // A wide crop of a narrow crop leads back to the source.
  judge_outside("crop of a crop", arr(nda::interval<>((index_t)m.d[0].min, 1), nda::interval<>((index_t)m.d[1].max(), 1))(i0, i1), arr, m, sel);
  auto sl = sel;
  sl[0] = Sel{true, m.d[0].min + R.below(m.d[0].ext), 0, 0};
  judge_outside("slice and crop", ref((index_t)sl[0].at, i1), ref, m, sl);
  std::swap(sl[0], sl[1]);
  sl[0] = sel[0];
  sl[1] = Sel{true, m.d[1].min + R.below(m.d[1].ext), 0, 0};
  judge_outside("crop and slice", carr(d0, (index_t)sl[1].at), carr, m, sl);
}
GROUP(outside, 600, 9000) {
#ifdef VERIF_RANK3
  using L = TypeList<nda::shape_of_rank<2>, nda::shape<nda::strided_dim<-1>, nda::dim<>>>;
#else
  using L = TypeList<nda::matrix_shape<>, nda::dense_shape<2>, nda::shape<nda::dim<2>, nda::dense_dim<-1, 3>>>;
#endif
  with_type(L(), (size_t)I % list_size(L()), [&](auto t) {
    using Shape = typename decltype(t)::type;
    GenOpts o = opts();
    MShape m;
    if (gen_for_type<Shape>(R, &m, o)) outside<Shape>(R, m);
  });
}
// Higher rank, and index types of different widths.
GROUP(rank5, 300, 4000) {
  MShape m = gen(R, 5, false, I % 4 != 3);
  bool small = I % 4 != 3; // indices that fit in an int
  desc("rank 5 %s", m.str().c_str());
  nontrivial();
  Arena<int64_t> mem(m);
  nda::array_ref_of_rank<int64_t, 5> ref(mem.base, dyn<5>(m));
  Idx at;
  for (auto& d : m.d) at.push_back(d.min + R.below(d.ext));
  std::vector<Sel> all;
  for (auto& d : m.d) all.push_back(Sel{false, 0, d.min, d.ext});
  if (small) {
    auto sel = all;
    sel[0] = Sel{true, at[0], 0, 0};
    sel[3] = Sel{true, at[3], 0, 0};
    sel[2] = pick_interval(R, m.d[2]);
    judge<false>("rank 5", ref((int)at[0], _, nda::interval<>(sel[2].min, sel[2].ext), (long long)at[3], _), ref, m, sel);
  }
  if (small) {
    auto sel = all;
    for (int k = 0; k < 4; k++) sel[(size_t)k] = Sel{true, at[(size_t)k], 0, 0};
    judge<false>("rank 5", ref((long)at[0], (int)at[1], (long long)at[2], (int)at[3], _), ref, m, sel);
  }
  if (small) {
    auto sel = all;
    sel[4] = Sel{true, at[4], 0, 0};
    sel[1] = pick_interval(R, m.d[1]);
    judge<false>("rank 5", ref(_, nda::r(sel[1].min, sel[1].min + sel[1].ext), _, nda::all, (int)at[4]), ref, m, sel);
  }
  {
    // Chains of single-dim slices from the outside in reach every element.
    auto a = ref(_, _, _, _, (index_t)at[4]);
    auto b = a(_, _, _, (index_t)at[3]);
    auto c = b(_, _, (index_t)at[2]);
    auto d = c(_, (index_t)at[1]);
    CHECK(&d((index_t)at[0]) == mem.base + m.offset(at), "chain of slices");
  }
}
HARNESS_MAIN
