// C02: automatic stride resolution.
#include "model.h"
#include "types.h"
using namespace vh;

static const long UN = (long)nda::unresolved;

// Independent statement of the rule: innermost to outermost, the smallest stride among 1 and
// extent*|stride| of the known dims that lies inside or outside every known dim.
static bool fits(long s, long e, const MDim& k) {
  long S = labs(k.str), E = k.ext;
  if (e == 1 && s == S && E > 1) return false;
  bool outside = s >= E * S;   // k is completely inside one step of the new dim
  bool inside = S >= e * s;    // the new dim is completely inside one step of k
  return outside || inside;
}
static MShape resolved(MShape m) {
  for (size_t i = 0; i < m.rank(); i++) {
    if (m.d[i].str != UN) continue;
    std::set<long> cands{1};
    for (auto& k : m.d)
      if (k.str != UN) cands.insert(std::max<long>(1, labs(k.str) * k.ext));
    long got = 0;
    for (long s : cands) {
      bool ok = true;
      for (auto& k : m.d)
        if (k.str != UN) ok = ok && fits(s, m.d[i].ext, k);
      if (ok) { got = s; break; }
    }
    if (got == 0) harness_error("no stride found");
    m.d[i].str = got;
  }
  return m;
}
static bool all_known(const MShape& m) {
  for (auto& x : m.d)
    if (x.str == UN) return false;
  return true;
}
// The dims given with a known stride do not overlap one another.
static bool known_disjoint(const MShape& m) {
  MShape k;
  for (auto& x : m.d)
    if (x.str != UN && x.ext > 1) k.d.push_back(x);
  for (auto& x : k.d)
    if (x.str == 0) return false;
  return nested(k);
}

template <class Shape>
void judge(const char* how, const Shape& s, const MShape& in, const MShape& want) {
  MShape got = to_mshape(s);
  CHECK(s.is_resolved(), "%s left a stride unresolved: %s", how, got.str().c_str());
  for (size_t k = 0; k < in.rank(); k++) {
    CHECK(got.d[k].min == in.d[k].min && got.d[k].ext == in.d[k].ext, "%s changed the bounds of dim %zu: %s", how, k, got.str().c_str());
    if (in.d[k].str != UN) CHECK(got.d[k].str == in.d[k].str, "%s changed the known stride of dim %zu: %s", how, k, got.str().c_str());
    else CHECK(got.d[k].str > 0, "%s gave a non-positive stride: %s", how, got.str().c_str());
  }
  CHECK(got == want, "%s gave %s, expected %s", how, got.str().c_str(), want.str().c_str());
  if (known_disjoint(in) && !in.empty() && in.size() <= 3000) {
    std::unordered_set<long> seen;
    in.each([&](const Idx& i) {
      long o = (long)s[from_idx<Shape::rank()>(i)];
      CHECK(seen.insert(o).second, "%s: two indices share flat offset %ld in %s", how, o, got.str().c_str());
    });
    count("injectivity_enumerated", seen.size());
  }
  count("resolved_shapes");
}

template <class Shape>
void run(Rng& R, const MShape& in) {
  desc("%s", in.str().c_str());
  if (!all_known(in)) nontrivial();
  MShape want = resolved(in);
  Shape s = from_mshape<Shape>(in);
  CHECK_EQ(s.is_resolved(), all_known(in), "is_resolved() before");
  CHECK(to_mshape(s) == in, "constructing a shape changed it: %s", to_mshape(s).str().c_str());
  Shape t = s;
  t.resolve();
  judge("resolve()", t, in, want);
  t.resolve();
  judge("resolve() again", t, in, want);
  // No known strides: compact with dim 0 densest.
  bool none = true;
  for (auto& x : in.d) none = none && x.str == UN;
  if (none && !in.empty()) {
    CHECK_EQ(t.flat_extent(), in.size(), "a shape without known strides is not compact");
    long prod = 1;
    for (size_t k = 0; k < in.rank(); k++) {
      if (in.d[k].ext > 1) CHECK_EQ(want.d[k].str, prod, "row by row strides");
      prod *= in.d[k].ext;
    }
  }
  static long dummy;
  nda::array_ref<long, Shape> ref(&dummy, s);
  judge("array_ref", ref.shape(), in, want);
  nda::array_ref<long, Shape> nref(nullptr, s);
  judge("array_ref(nullptr)", nref.shape(), in, want);
  auto mref = nda::make_array_ref(&dummy, s);
  judge("make_array_ref", mref.shape(), in, want);
  long lo = 0, hi = 0;
  if (!in.empty()) want.flat_range(&lo, &hi);
  if (hi - lo < 200000) {
    nda::array<char, Shape> a(s);
    judge("array(shape)", a.shape(), in, want);
    nda::array<char, Shape> b(s, 1);
    judge("array(shape, value)", b.shape(), in, want);
    auto c = nda::make_array<char>(s);
    judge("make_array", c.shape(), in, want);
    auto d = nda::make_array<char>(s, (char)2);
    judge("make_array(value)", d.shape(), in, want);
    nda::array<char, Shape> e;
    e.assign(s, 3);
    judge("assign(shape, value)", e.shape(), in, want);
    e.assign(s, 4);
    judge("assign(shape, value) again", e.shape(), in, want);
    nda::array<char, Shape> f;
    f.reshape(s);
    judge("reshape(shape)", f.shape(), in, want);
    if (known_disjoint(in) && !in.empty() && in.size() < 2000) {
      // Distinct elements of the array are distinct objects inside its allocation.
      long n = 0;
      std::set<const char*> seen;
      in.each([&](const Idx& i) { seen.insert(&call_idx<Shape::rank()>(b, i)); n++; });
      CHECK_EQ(seen.size(), n, "distinct elements of a resolved array");
      char k = 0;
      in.each([&](const Idx& i) { call_idx<Shape::rank()>(b, i) = k++; });
      k = 0;
      in.each([&](const Idx& i) { CHECK_EQ(call_idx<Shape::rank()>(b, i), (char)k, "value written through a resolved array"); k++; });
    }
  }
}

static MShape gen_partial(Rng& R, size_t rank, int known_percent) {
  GenOpts o;
  o.max_size = 1500;
  MShape m = gen_bounds(R, rank, o);
  switch (R.below(4)) {
  case 0: // strides of any kind
    for (auto& x : m.d) x.str = R.pick<long>({0, 1, 2, 3, 4, 5, 6, 8, 12, 20, -1, -2, -9, -12, 60});
    break;
  case 1: // exactly dense in some order, so that holes fit exactly
    o.pad_percent = 0;
    o.allow_negative = R.chance(50);
    gen_strides(R, m, o);
    break;
  default: gen_strides(R, m, o);
  }
  // Sometimes leave room inside one known dim for another one.
  if (R.chance(30) && rank > 1) {
    size_t a = (size_t)R.below((long)rank), b = (size_t)R.below((long)rank);
    if (a != b) {
      long f = m.d[b].ext + R.range(-1, 1);
      m.d[a].str = f < 1 ? 1 : f;
    }
  }
  for (auto& x : m.d)
    if (!R.chance(known_percent)) x.str = UN;
  return m;
}

GROUP(dyn, 5000, 150000) {
  size_t rank = (size_t)(I % 7);
  MShape m = gen_partial(R, rank, (int)R.pick<long>({0, 25, 50, 75}));
  with_rank<0, 6>(rank, [&](auto r) { run<nda::shape_of_rank<decltype(r)::value>>(R, m); });
}
// Every small case: ranks 2 and 3, extents 0..4, strides from a small set or unresolved.
GROUP(small2, 2, 2) {
  static const long strs[] = {UN, 0, 1, 2, 3, 4, 6, -1, -3};
  desc("all rank 2 shapes with small extents, min %ld", I);
  nontrivial();
  for (long e0 = 0; e0 < 5; e0++)
    for (long e1 = 0; e1 < 5; e1++)
      for (long s0 : strs)
        for (long s1 : strs) {
          MShape m;
          m.d = {MDim{I ? -9 : 0, e0, s0}, MDim{I ? 4 : 0, e1, s1}};
          auto s = dyn<2>(m);
          s.resolve();
          st().len = 0;
          desc("%s", m.str().c_str());
          judge("resolve()", s, m, resolved(m));
        }
}
GROUP(small3, 4, 4) {
  static const long strs[] = {UN, 1, 2, 4, -3, 12};
  nontrivial();
  long e2 = I;
  for (long e0 = 0; e0 < 5; e0++)
    for (long e1 = 0; e1 < 5; e1++)
      for (long s0 : strs)
        for (long s1 : strs)
          for (long s2 : strs) {
            MShape m;
            m.d = {MDim{0, e0, s0}, MDim{-2, e1, s1}, MDim{5, e2, s2}};
            auto s = dyn<3>(m);
            s.resolve();
            st().len = 0;
            desc("%s", m.str().c_str());
            judge("resolve()", s, m, resolved(m));
          }
}
// Large extents: strides beyond 2^31.
GROUP(large, 200, 4000) {
  if (sizeof(index_t) < 8) return;
  MShape m;
  for (int k = 0; k < 4; k++) m.d.push_back(MDim{R.range(-5, 5), R.range(1, 40000), R.chance(80) ? UN : R.range(1, 3)});
  desc("%s", m.str().c_str());
  nontrivial();
  auto s = dyn<4>(m);
  s.resolve();
  judge("resolve()", s, m, resolved(m));
}
using PartlyStatic = TypeList<
    nda::shape<nda::dim<>, nda::dense_dim<>>, nda::shape<nda::dense_dim<>, nda::dim<>>,
    nda::shape<nda::dim<>, nda::dim<>, nda::dense_dim<>>, nda::shape<nda::dim<>, nda::dense_dim<>, nda::dim<>>,
    nda::shape<nda::strided_dim<4>, nda::dim<>, nda::dense_dim<0, 3>>, nda::shape<nda::strided_dim<2>, nda::dim<>>,
    nda::shape<nda::dim<>, nda::strided_dim<6>, nda::dim<>>, nda::shape<nda::strided_dim<-1>, nda::dim<>>,
    nda::shape<nda::broadcast_dim<>, nda::dim<>>, nda::shape<nda::dim<>, nda::broadcast_dim<>, nda::dense_dim<>>,
    nda::shape<nda::dim<2>, nda::dim<nda::dynamic, 3>, nda::dim<-1, 4>>, nda::shape<nda::fixed_dim<4>, nda::fixed_dim<3>>,
    nda::shape<nda::dim<>, nda::dim<>, nda::dim<0, 1, 1>, nda::dim<>>, nda::shape<nda::dim<0, 5, 4>, nda::dim<0, 2, 2>, nda::dim<>>>;
GROUP(statics, 2500, 60000) {
  with_type(PartlyStatic(), (size_t)I % list_size(PartlyStatic()), [&](auto tag) {
    using Shape = typename decltype(tag)::type;
    constexpr size_t rank = Shape::rank();
    auto seq = std::make_index_sequence<rank>();
    MShape m = gen_partial(R, rank, R.chance(60) ? 0 : 40);
    apply_static<Shape>(m, seq);
    std::vector<long> ss = static_strides<Shape>(seq);
    for (size_t k = 0; k < rank; k++)
      if (ss[k] != (long)nda::dynamic) m.d[k].str = ss[k];
    desc("type %ld ", I % (long)list_size(PartlyStatic()));
    run<Shape>(R, m);
  });
}
HARNESS_MAIN
