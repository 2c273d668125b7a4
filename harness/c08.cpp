// C08: copies and moves transfer exactly the destination's region.
#include "model.h"
#include "types.h"
using namespace vh;

static GenOpts opts(Rng& R, bool empty = false) {
  GenOpts o;
  o.allow_empty = empty;
  o.max_size = 400;
  o.pad_percent = R.pick<int>({0, 15, 40});
  return o;
}

// An element that records how it was assigned.
struct Elem {
  int64_t v = 0;
  int32_t copied_to = 0; // times this element was copy-assigned to
  int32_t moved_to = 0;
  mutable int32_t copied_from = 0;
  int32_t moved_from = 0;
  static long copies; // of any element
  Elem() = default;
  Elem(int64_t x) : v(x) {}
  Elem(const Elem& o) : v(o.v) {
    o.copied_from++;
    copies++;
  }
  Elem(Elem&& o) : v(o.v) { o.moved_from++; }
  Elem& operator=(const Elem& o) {
    v = o.v;
    copied_to++;
    o.copied_from++;
    copies++;
    return *this;
  }
  Elem& operator=(Elem&& o) {
    v = o.v;
    moved_to++;
    o.moved_from++;
    return *this;
  }
  bool operator==(const Elem& o) const { return v == o.v; }
  bool operator!=(const Elem& o) const { return v != o.v; }
};
long Elem::copies = 0;
static_assert(sizeof(Elem) == 24, "");

struct Pixel3 {
  unsigned char b[3];
};
template <class T>
struct Val {
  static T make(long k) { return (T)k; }
  static bool is(const T& x, long k) { return x == (T)k; }
};
template <>
struct Val<Pixel3> {
  static Pixel3 make(long k) { return Pixel3{{(unsigned char)k, (unsigned char)(k >> 8), (unsigned char)(k >> 16)}}; }
  static bool is(const Pixel3& x, long k) { return x.b[0] == (unsigned char)k && x.b[1] == (unsigned char)(k >> 8) && x.b[2] == (unsigned char)(k >> 16); }
};
template <>
struct Val<Elem> {
  static Elem make(long k) { return Elem(k); }
  static bool is(const Elem& x, long k) { return x.v == k; }
};

template <class T, std::enable_if_t<!std::is_same<T, Elem>::value, int> = 0>
void judge_counts(const T&, const T&, bool, bool) {}
static void judge_counts(const Elem& s, const Elem& d, bool moved, bool src_unique) {
  CHECK_EQ(d.copied_to, moved ? 0 : 1, "copy assignments to the element");
  CHECK_EQ(d.moved_to, moved ? 1 : 0, "move assignments to the element");
  if (src_unique) {
    CHECK_EQ(s.copied_from, moved ? 0 : 1, "copies made from the source element");
    CHECK_EQ(s.moved_from, moved ? 1 : 0, "moves made from the source element");
  }
}
template <class A, class B, std::enable_if_t<!std::is_same<A, B>::value, int> = 0>
void judge_counts(const A&, const B&, bool, bool) {}

template <class T>
void put(T* p, long k) { new (p) T(Val<T>::make(k)); }

// src and dst in guarded storage; `how` 0 copy, 1 move.
template <class TS, class TD, class SS, class SD>
void transfer(Rng& R, const MShape& ms, const MShape& md, int how) {
  constexpr size_t N = SS::rank();
  desc("%s %s -> %s (%zu,%zu bytes)", how ? "move" : "copy", ms.str().c_str(), md.str().c_str(), sizeof(TS), sizeof(TD));
  if (md.size() > 0) nontrivial();
  Arena<TS> as(ms);
  Arena<TD> ad(md);
  std::map<long, long> val;
  long k = 1 + R.below(1000);
  for (long o : ms.flat_set()) {
    val[o] = k;
    put(as.base + o, k);
    k += 1;
  }
  for (long o : md.flat_set()) put(ad.base + o, -7);
  nda::array_ref<TS, SS> src(as.base, from_mshape<SS>(ms));
  nda::array_ref<TD, SD> dst(ad.base, from_mshape<SD>(md));
  as.protect();
  ad.protect();
  if (how == 0) {
    if (R.chance(50)) nda::copy(src.cref(), dst);
    else nda::copy(src, dst);
  } else {
    nda::move(src, dst);
  }
  bool unique = ms.one_to_one();
  md.each([&](const Idx& i) {
    TS& s = as.base[ms.offset(i)];
    TD& d = ad.base[md.offset(i)];
    CHECK((Val<TD>::is(d, val[ms.offset(i)])), "element %s of the destination has the wrong value", idx_str(i).c_str());
    judge_counts(s, d, how == 1, unique);
  });
  // The source outside the region, and with copy all of it, is untouched.
  ms.each([&](const Idx& i) {
    if (how == 0 || !md.contains(i)) CHECK((Val<TS>::is(as.base[ms.offset(i)], val[ms.offset(i)])), "source element %s changed", idx_str(i).c_str());
  });
  count("elements_checked", (unsigned long long)md.size());
  as.verify("source of a copy");
  ad.verify("destination of a copy");
}

// Source and destination model shapes for types SS, SD with dst's region inside src's.
template <class SS, class SD>
bool gen_pair(Rng& R, MShape* ms, MShape* md, bool broadcast) {
  constexpr size_t N = SS::rank();
  static_assert(N == SD::rank(), "");
  auto seq = std::make_index_sequence<N>();
  for (int tries = 0; tries < 200; tries++) {
    GenOpts o = opts(R);
    if (!gen_for_type<SD>(R, md, o) || !md->one_to_one()) continue;
    // Bounds of src: grow dst's.
    MShape b = *md;
    if (R.chance(75))
      for (auto& x : b.d)
        if (R.chance(50)) {
          long lo = R.below(3), hi = R.below(3);
          x.min -= lo;
          x.ext += lo + hi;
        }
    apply_static<SS>(b, seq);
    bool ok = b.size() < 3000;
    for (size_t k = 0; k < N; k++) ok &= b.d[k].min <= md->d[k].min && b.d[k].max() >= md->d[k].max();
    if (!ok) continue;
    std::vector<long> ss = static_strides<SS>(seq);
    for (int t2 = 0; t2 < 20; t2++) {
      o.allow_broadcast = broadcast;
      gen_strides(R, b, o);
      bool fixed = false;
      for (size_t k = 0; k < N; k++)
        if (ss[k] != (long)nda::dynamic) {
          b.d[k].str = ss[k];
          fixed = true;
        }
      if (fixed) {
        long span = 1;
        for (size_t k = 0; k < N; k++)
          if (ss[k] != (long)nda::dynamic) span = std::max(span, labs(ss[k]) * b.d[k].ext);
        for (size_t k : gen_perm(R, N))
          if (ss[k] == (long)nda::dynamic) {
            b.d[k].str = (span + (R.chance(20) ? R.below(3) : 0)) * (R.chance(15) ? -1 : 1);
            span = labs(b.d[k].str) * b.d[k].ext;
          }
      }
      if (broadcast || b.one_to_one()) {
        *ms = b;
        return true;
      }
    }
  }
  return false;
}
template <class TS, class TD, class SS, class SD>
void pair_case(Rng& R, int how, bool broadcast = false) {
  MShape s, d;
  if (gen_pair<SS, SD>(R, &s, &d, broadcast)) transfer<TS, TD, SS, SD>(R, s, d, how);
  else count("pairs_not_generated");
}
template <size_t N>
using DS = nda::shape_of_rank<N>;

#if !defined(VERIF_PART) || VERIF_PART == 1
GROUP(dyn, 2400, 60000) {
  int how = (int)(I / 6 % 2);
  bool b = how == 0 && R.chance(20);
  switch (I % 6) {
  case 0: return pair_case<int64_t, int64_t, DS<1>, DS<1>>(R, how, b);
  case 1: return pair_case<int64_t, int64_t, DS<2>, DS<2>>(R, how, b);
  case 2: return pair_case<int64_t, int64_t, DS<3>, DS<3>>(R, how, b);
  case 3: return pair_case<int64_t, int64_t, DS<4>, DS<4>>(R, how, b);
  case 4: return pair_case<int64_t, int64_t, DS<5>, DS<5>>(R, how, b);
  default: return pair_case<int64_t, int64_t, DS<2>, DS<2>>(R, how, b);
  }
}
GROUP(types, 1600, 40000) {
  int how = (int)(I / 6 % 2);
  switch (I % 6) {
  case 0: return pair_case<Elem, Elem, DS<2>, DS<2>>(R, how);
  case 1: return pair_case<Elem, Elem, DS<3>, DS<3>>(R, how);
  case 2: return pair_case<int32_t, int64_t, DS<2>, DS<2>>(R, how);
  case 3: return pair_case<int16_t, double, DS<3>, DS<3>>(R, how);
  case 4: return pair_case<Pixel3, Pixel3, DS<2>, DS<2>>(R, how);
  default: return pair_case<Elem, Elem, DS<1>, DS<1>>(R, how);
  }
}
// Both layouts dense or nearly so in related orders: the boundaries of the loop fusion.
template <size_t N>
void near(Rng& R, long i) {
  GenOpts o = opts(R);
  o.pad_percent = 0;
  o.allow_negative = false;
  MShape d = gen_bounds(R, N, o);
  std::vector<size_t> order = gen_perm(R, N);
  auto dense = [](MShape& m, const std::vector<size_t>& order) {
    long s = 1;
    for (size_t k : order) {
      m.d[k].str = s;
      s *= m.d[k].ext;
    }
  };
  MShape s = d;
  // Possibly a larger source in one dim, so that it is padded relative to dst.
  if (R.chance(50)) {
    auto& x = s.d[(size_t)R.below((long)N)];
    long lo = R.below(2);
    x.min -= lo;
    x.ext += lo + R.below(2);
  }
  dense(d, order);
  if (R.chance(25)) std::swap(order[0], order[N - 1]);
  dense(s, order);
  auto disturb = [&](MShape& m) {
    int w = (int)R.below(5);
    size_t k = (size_t)R.below((long)N);
    if (w == 0) {
      // Pad everything outside dim k.
      long st = labs(m.d[k].str);
      for (auto& x : m.d)
        if (labs(x.str) > st) x.str += (x.str > 0 ? 1 : -1) * (x.str / st);
    } else if (w == 1) {
      m.d[k].str = -m.d[k].str;
    } else if (w == 2) {
      long f = R.range(2, 3);
      for (auto& x : m.d) x.str *= f;
    }
  };
  disturb(d);
  disturb(s);
  if (!d.one_to_one() || !s.one_to_one()) return;
  if (i % 3 == 0) transfer<Elem, Elem, DS<N>, DS<N>>(R, s, d, (int)(i / 3 % 2));
  else transfer<int64_t, int64_t, DS<N>, DS<N>>(R, s, d, (int)(i / 3 % 2));
}
GROUP(near_dense, 2000, 60000) {
  switch (I % 4) {
  case 0: return near<2>(R, I / 4);
  case 1: return near<3>(R, I / 4);
  case 2: return near<4>(R, I / 4);
  default: return near<2>(R, I / 4);
  }
}
// Rank 0.
GROUP(scalar, 20, 60) {
  desc("scalar %ld", I);
  nontrivial();
  long a = I * 3, b = -1;
  nda::array_ref_of_rank<long, 0> ra(&a), rb(&b);
  if (I % 2) nda::copy(ra, rb);
  else nda::move(ra, rb);
  CHECK_EQ(b, a, "scalar copied");
  auto c = nda::make_copy(ra);
  CHECK_EQ((long)c(), a, "scalar make_copy");
}
// Empty destinations: nothing is read or written, wherever the destination is.
template <size_t N>
void empty_case(Rng& R) {
  GenOpts o = opts(R);
  MShape d = gen_bounds(R, N, o);
  d.d[(size_t)R.below((long)N)].ext = 0;
  gen_strides(R, d, o);
  MShape s = gen_shape(R, N, o);
  if (R.chance(30)) s = d;
  transfer<int64_t, int64_t, DS<N>, DS<N>>(R, s, d, (int)R.below(2));
  nda::array_of_rank<int64_t, N> ea(dyn<N>(d)), src(dyn<N>(s), 3);
  nda::copy(src, ea);
  nda::move(src, ea);
  nda::array_ref_of_rank<int64_t, N> null(nullptr, dyn<N>(d));
  nda::copy(src, null);
  nda::move(src, null);
  auto c = nda::make_copy(src, dyn<N>(d));
  CHECK(c.empty() && to_mshape(c.shape()) == d, "make_copy with an empty shape");
  count("empty_destinations");
}
GROUP(empties, 300, 6000) {
  switch (I % 3) {
  case 0: return empty_case<1>(R);
  case 1: return empty_case<2>(R);
  default: return empty_case<3>(R);
  }
}
#endif

#if !defined(VERIF_PART) || VERIF_PART == 2
template <class SS, class SD>
void both(Rng& R, long i) {
  int how = (int)(i % 2);
  pair_case<int64_t, int64_t, SS, SD>(R, how);
}
GROUP(static_types, 1800, 50000) {
  switch (I % 18) {
  case 0: return both<nda::matrix_shape<>, nda::matrix_shape<>>(R, I / 18);
  case 1: return both<nda::matrix_shape<>, DS<2>>(R, I / 18);
  case 2: return both<DS<2>, nda::matrix_shape<3, 4>>(R, I / 18);
  case 3: return both<nda::matrix_shape<3, 4>, nda::matrix_shape<3, 4>>(R, I / 18);
  case 4: return both<nda::chunky_image_shape<3>, nda::chunky_image_shape<3>>(R, I / 18);
  case 5: return both<nda::chunky_image_shape<3>, nda::planar_image_shape>(R, I / 18);
  case 6: return both<nda::planar_image_shape, nda::chunky_image_shape<3, 4>>(R, I / 18);
  case 7: return both<nda::chunky_image_shape<4, 4>, nda::chunky_image_shape<3, 4>>(R, I / 18);
  case 8: return both<DS<3>, nda::chunky_image_shape<>>(R, I / 18);
  case 9: return both<nda::chunky_image_shape<>, nda::dense_shape<3>>(R, I / 18);
  case 10: return both<nda::dense_shape<2>, nda::matrix_shape<>>(R, I / 18);
  case 11: return both<nda::fixed_dense_shape<4, 3>, nda::fixed_dense_shape<4, 3>>(R, I / 18);
  case 12: return both<nda::dense_shape<3>, nda::fixed_dense_shape<2, 3, 4>>(R, I / 18);
  case 13: return both<nda::shape<nda::strided_dim<-1>, nda::dim<>>, DS<2>>(R, I / 18);
  case 14: return both<DS<2>, nda::shape<nda::strided_dim<-1>, nda::dim<>>>(R, I / 18);
  case 15: return both<nda::dense_shape<4>, nda::dense_shape<4>>(R, I / 18);
  case 16: return both<nda::dense_shape<1>, nda::vector_shape<6>>(R, I / 18);
  default: return both<nda::shape<nda::dim<>, nda::dense_dim<>, nda::dim<>>, nda::shape<nda::dim<>, nda::dense_dim<>, nda::dim<>>>(R, I / 18);
  }
}

// Functions returning arrays.
template <class A>
void judge_array(const char* how, A& a, const MShape& want, const MShape& ms, std::map<long, long>& val, const void* not_base) {
  constexpr size_t N = A::rank();
  MShape got = to_mshape(a.shape());
  CHECK(got == want, "%s: result has shape %s, expected %s", how, got.str().c_str(), want.str().c_str());
  CHECK(want.empty() || (const void*)a.base() != not_base, "%s: result shares the storage of its source", how);
  want.each([&](const Idx& i) { CHECK((call_idx<N>(a, i)).v == val[ms.offset(i)], "%s: element %s", how, idx_str(i).c_str()); });
  count("result_arrays_checked");
}
template <class SS, class SD>
void makes(Rng& R) {
  MShape ms, md;
  if (!gen_pair<SS, SD>(R, &ms, &md, false)) return;
  desc("make %s -> %s", ms.str().c_str(), md.str().c_str());
  if (md.size() > 0) nontrivial();
  SS ss = from_mshape<SS>(ms);
  SD sd = from_mshape<SD>(md);
  std::map<long, long> val;
  ms.each([&](const Idx& i) { val[ms.offset(i)] = 7 + (long)val.size(); });
  nda::array<Elem, SS> a(ss);
  ms.each([&](const Idx& i) { a.base()[ms.offset(i)].v = val[ms.offset(i)]; });
  const auto& ca = a;
  auto compact = nda::make_compact(ss);
  MShape mc = to_mshape(compact);
  CHECK(mc.same_bounds(ms), "bounds of the compact shape");
  using CS = decltype(compact);
  {
    auto c = nda::make_copy(a);
    static_assert(std::is_same<decltype(c), nda::array<Elem, SS>>::value, "");
    judge_array("make_copy(array)", c, ms, ms, val, a.base());
    auto c2 = nda::make_copy(ca.cref());
    static_assert(std::is_same<decltype(c2), nda::array<Elem, SS>>::value, "");
    judge_array("make_copy(const_array_ref)", c2, ms, ms, val, a.base());
    auto c3 = nda::make_copy(a.ref());
    judge_array("make_copy(array_ref)", c3, ms, ms, val, a.base());
    auto d = nda::make_copy(a, sd);
    static_assert(std::is_same<decltype(d), nda::array<Elem, SD>>::value, "");
    judge_array("make_copy(array, shape)", d, md, ms, val, a.base());
    auto d2 = nda::make_copy(ca.cref(), sd);
    judge_array("make_copy(const_array_ref, shape)", d2, md, ms, val, a.base());
    auto e = nda::make_compact_copy(a);
    judge_array("make_compact_copy(array)", e, mc, ms, val, a.base());
    auto e2 = nda::make_compact_copy(ca.cref());
    judge_array("make_compact_copy(const_array_ref)", e2, mc, ms, val, a.base());
    static_assert(std::is_same<decltype(e), nda::array<Elem, CS>>::value, "");
  }
  ms.each([&](const Idx& i) {
    CHECK(a.base()[ms.offset(i)].moved_from == 0, "a copy function moved from its source");
    CHECK_EQ(a.base()[ms.offset(i)].v, val[ms.offset(i)], "copy functions leave the source unchanged");
  });
  auto reset = [&] {
    ms.each([&](const Idx& i) {
      Elem& e = a.base()[ms.offset(i)];
      e = Elem(val[ms.offset(i)]);
      e.copied_from = e.moved_from = e.copied_to = e.moved_to = 0;
    });
  };
  auto moved = [&](const char* how, const MShape& region) {
    ms.each([&](const Idx& i) {
      Elem& e = a.base()[ms.offset(i)];
      CHECK(e.copied_from == 0, "%s copied element %s of its source", how, idx_str(i).c_str());
      CHECK(e.moved_from == (region.contains(i) ? 1 : 0), "%s moved from element %s of its source %d times", how, idx_str(i).c_str(), e.moved_from);
    });
  };
  {
    reset();
    auto d = nda::make_move(a, sd);
    judge_array("make_move(array, shape)", d, md, ms, val, a.base());
    moved("make_move(array, shape)", md);
    reset();
    auto d2 = nda::make_move(a.ref(), sd);
    judge_array("make_move(array_ref, shape)", d2, md, ms, val, a.base());
    moved("make_move(array_ref, shape)", md);
    reset();
    auto e = nda::make_compact_move(a);
    judge_array("make_compact_move(array)", e, mc, ms, val, a.base());
    moved("make_compact_move(array)", ms);
    reset();
    auto e2 = nda::make_compact_move(a.ref());
    judge_array("make_compact_move(array_ref)", e2, mc, ms, val, a.base());
    moved("make_compact_move(array_ref)", ms);
    reset();
    // To an rvalue of the same type: a different shape moves the elements, the same shape the array.
    long copies = Elem::copies;
    auto f = nda::make_move(std::move(a), from_mshape<SS>(ms));
    judge_array("make_move(array&&, same shape)", f, ms, ms, val, nullptr);
    CHECK_EQ(Elem::copies - copies, 0, "elements copied by make_move(array&&)");
    nda::array<Elem, SS> g(ss);
    nda::move(std::move(f), g);
    judge_array("move(array&&, array)", g, ms, ms, val, nullptr);
    CHECK_EQ(Elem::copies - copies, 0, "elements copied by move(array&&, array)");
    auto h = nda::make_compact_move(std::move(g));
    CHECK_EQ(Elem::copies - copies, 0, "elements copied by make_compact_move(array&&)");
    judge_array("make_compact_move(array&&)", h, mc, ms, val, nullptr);
  }
}
GROUP(make_fns, 800, 20000) {
  switch (I % 7) {
  case 0: return makes<DS<2>, DS<2>>(R);
  case 1: return makes<DS<3>, nda::dense_shape<3>>(R);
  case 2: return makes<nda::matrix_shape<>, nda::matrix_shape<>>(R);
  case 3: return makes<nda::chunky_image_shape<3>, nda::planar_image_shape>(R);
  case 4: return makes<nda::fixed_dense_shape<4, 3>, DS<2>>(R);
  case 5: return makes<DS<1>, DS<1>>(R);
  default: return makes<nda::planar_image_shape, nda::chunky_image_shape<>>(R);
  }
}
// make_move of an rvalue to a shape of the same type: another layout, a part, or the same shape.
template <class SS>
void rvalue(Rng& R) {
  MShape ms, md;
  bool same_bounds = R.chance(50), ok = false;
  for (int t = 0; t < 40 && !ok; t++) ok = gen_pair<SS, SS>(R, &ms, &md, false) && (!same_bounds || ms.same_bounds(md));
  if (!ok) return;
  desc("make_move(array&&) %s -> %s", ms.str().c_str(), md.str().c_str());
  if (md.size() > 0) nontrivial();
  std::map<long, long> val;
  ms.each([&](const Idx& i) { val[ms.offset(i)] = 7 + (long)val.size(); });
  nda::array<Elem, SS> a(from_mshape<SS>(ms));
  ms.each([&](const Idx& i) { a.base()[ms.offset(i)].v = val[ms.offset(i)]; });
  SS sd = from_mshape<SS>(md);
  bool is_same = ms == md;
  const void* base = a.base();
  long copies = Elem::copies;
  auto b = nda::make_move(std::move(a), sd);
  judge_array("make_move(array&&, shape)", b, md, ms, val, nullptr);
  if (is_same) CHECK((const void*)b.base() == base, "make_move(array&&) of the same shape takes the allocation");
  CHECK_EQ(Elem::copies - copies, 0, "elements copied by make_move(array&&)");
  // Moving back: the result is again of the requested shape.
  auto c = nda::make_move(std::move(b), sd);
  judge_array("make_move(array&&, its shape)", c, md, ms, val, nullptr);
  nda::array<Elem, SS> d;
  d = nda::make_move(std::move(c), sd);
  judge_array("assigned make_move(array&&, shape)", d, md, ms, val, nullptr);
  // To a compact shape, which the source may or may not have already.
  MShape mc = md;
  SS sc = nda::make_compact(sd);
  mc = to_mshape(sc);
  auto e = nda::make_compact_move(std::move(d));
  judge_array("make_compact_move(array&&)", e, mc, ms, val, nullptr);
  auto f = nda::make_compact_move(std::move(e));
  judge_array("make_compact_move(compact array&&)", f, mc, ms, val, nullptr);
  CHECK_EQ(Elem::copies - copies, 0, "elements copied by moves of rvalues");
}
GROUP(rvalues, 300, 6000) {
  switch (I % 6) {
  case 0: return rvalue<DS<2>>(R);
  case 1: return rvalue<DS<3>>(R);
  case 2: return rvalue<DS<1>>(R);
  case 3: return rvalue<nda::planar_image_shape>(R);
  case 4: return rvalue<nda::matrix_shape<>>(R);
  default: return rvalue<nda::chunky_image_shape<>>(R);
  }
}
// Move-only elements can be moved by every move function.
GROUP(move_only, 200, 4000) {
  using P = std::unique_ptr<int>;
  GenOpts o = opts(R);
  MShape m = gen_shape(R, 2, o), d = gen_subregion(R, m);
  gen_strides(R, d, o);
  desc("move-only %s -> %s", m.str().c_str(), d.str().c_str());
  nontrivial();
  nda::array_of_rank<P, 2> a(dyn<2>(m)), b(dyn<2>(d));
  auto set = [&](nda::array_of_rank<P, 2>& x) { m.each([&](const Idx& i) { call_idx<2>(x, i).reset(new int((int)m.offset(i))); }); };
  auto is = [&](const char* how, P& p, const Idx& i) { CHECK(p && *p == (int)m.offset(i), "%s of move-only element %s", how, idx_str(i).c_str()); };
  set(a);
  nda::move(a, b);
  d.each([&](const Idx& i) { is("move", call_idx<2>(b, i), i); });
  m.each([&](const Idx& i) { CHECK((call_idx<2>(a, i) != nullptr) == !d.contains(i), "source element after move"); });
  set(a);
  auto c = nda::make_move(a, dyn<2>(d));
  d.each([&](const Idx& i) { is("make_move", call_idx<2>(c, i), i); });
  set(a);
  auto e = nda::make_compact_move(a);
  m.each([&](const Idx& i) { is("make_compact_move", call_idx<2>(e, i), i); });
  set(a);
  const void* base = a.base();
  auto f = nda::make_move(std::move(a), dyn<2>(m));
  CHECK(f.base() == base, "make_move(array&&) of the same shape takes the allocation");
  m.each([&](const Idx& i) { is("make_move(array&&)", call_idx<2>(f, i), i); });
  auto g = nda::make_move(std::move(f), dyn<2>(d));
  d.each([&](const Idx& i) { is("make_move(array&&, other shape)", call_idx<2>(g, i), i); });
  auto h = nda::make_compact_move(std::move(g));
  d.each([&](const Idx& i) { is("make_compact_move(array&&)", call_idx<2>(h, i), i); });
}
// Overlapping views of one allocation that do not share elements.
GROUP(interleaved, 200, 4000) {
  long n = R.range(1, 20), rows = R.range(1, 4);
  desc("interleaved n=%ld rows=%ld", n, rows);
  nontrivial();
  nda::array_of_rank<long, 3> a(nda::shape_of_rank<3>(nda::dim<>(0, 2, 1), nda::dim<>(0, n, 2), nda::dim<>(0, rows, 2 * n)));
  std::vector<long> before((size_t)(2 * n * rows));
  for (size_t k = 0; k < before.size(); k++) a.base()[k] = before[k] = 10 + (long)k;
  int from = (int)R.below(2);
  nda::copy(a(from, nda::_, nda::_), a(1 - from, nda::_, nda::_));
  for (long y = 0; y < rows; y++)
    for (long x = 0; x < n; x++)
      for (long c = 0; c < 2; c++) CHECK_EQ(a(c, x, y), before[(size_t)(from + 2 * x + 2 * n * y)], "interleaved planes");
}
#endif
HARNESS_MAIN
