// C16: reinterpret_shape, set_shape and move_reinterpret_shape relocate by exactly the offset.
#define VERIF_PROP 13
#include "ledger.h"
#include "types.h"
using namespace vh;

// A random shape of rank N whose flat range, shifted by *k, lies in [lo, hi].
template <class Shape>
bool inner_shape(Rng& R, long lo, long hi, MShape* m, long* k) {
  GenOpts o;
  o.allow_empty = false;
  o.allow_broadcast = true;
  o.max_ext = 5;
  for (int t = 0; t < 60; t++) {
    o.max_size = t < 20 ? 60 : 6;
    if (!gen_for_type<Shape>(R, m, o)) continue;
    // Overlapping elements are fine for a view.
    std::vector<long> ss = static_strides<Shape>(std::make_index_sequence<Shape::rank()>());
    if (R.chance(25))
      for (size_t d = 0; d < Shape::rank(); d++)
        if (ss[d] == (long)nda::dynamic && R.chance(50)) m->d[d].str = R.range(-4, 4);
    long a, b;
    m->flat_range(&a, &b);
    if (b - a > hi - lo) continue;
    long kmin = lo - a, kmax = hi - b;
    *k = R.chance(25) ? kmin : R.chance(25) ? kmax : R.range(kmin, kmax);
    return true;
  }
  return false;
}

template <class Ref>
void check_view(Ref r, const MShape& s, const int64_t* at, const char* who) {
  CHECK(to_mshape(r.shape()) == s, "%s: shape is %s, expected %s", who, to_mshape(r.shape()).str().c_str(), s.str().c_str());
  CHECK(r.base() == at, "%s: base is %ld elements from where it should be", who, (long)(r.base() - at));
  s.each([&](const Idx& i) {
    const int64_t* p = &call_idx<std::decay_t<decltype(r.shape())>::rank()>(r, i);
    CHECK(p == at + s.offset(i), "%s: element %s is %ld elements from where it should be", who, idx_str(i).c_str(), (long)(p - (at + s.offset(i))));
  });
  count("relocated_elements", (unsigned long long)s.size());
}

template <class Shape>
void views(Rng& R, const MShape& am) {
  constexpr size_t N = Shape::rank();
  long lo, hi;
  am.flat_range(&lo, &hi);
  MShape s;
  long k;
  if (!inner_shape<Shape>(R, lo, hi, &s, &k)) return;
  nontrivial();
  desc("%s as %s at %ld", am.str().c_str(), s.str().c_str(), k);
  // Every slot between lo and hi is memory of the array.
  Arena<int64_t> mem(lo, hi);
  for (long o = lo; o <= hi; o++) mem.use(o), mem.base[o] = o * 11 + 5;
  Shape ns = from_mshape<Shape>(s);
  with_rank<0, 3>(am.rank(), [&](auto rc) {
    constexpr size_t AR = decltype(rc)::value;
    nda::array_ref<int64_t, nda::shape_of_rank<AR>> a(mem.base, dyn<AR>(am));
    nda::const_array_ref<int64_t, nda::shape_of_rank<AR>> ca(mem.base, dyn<AR>(am));
    mem.protect();
    auto r = nda::reinterpret_shape(a, ns, (index_t)k);
    static_assert(std::is_same<decltype(r), nda::array_ref<int64_t, Shape>>::value, "reinterpret_shape of an array_ref");
    check_view(r, s, mem.base + k, "reinterpret_shape");
    auto cr = nda::reinterpret_shape(ca, ns, (index_t)k);
    check_view(cr, s, mem.base + k, "reinterpret_shape of a const_array_ref");
    s.each([&](const Idx& i) { CHECK_EQ(call_idx<N>(r, i), (k + s.offset(i)) * 11 + 5, "contents"); });
    long k2;
    MShape s2;
    if (inner_shape<nda::shape_of_rank<AR>>(R, lo, hi, &s2, &k2)) {
      auto b = a;
      b.set_shape(dyn<AR>(s2), (index_t)k2);
      check_view(b, s2, mem.base + k2, "array_ref set_shape");
      check_view(a, am, mem.base, "array_ref not set");
      auto cb = ca;
      cb.set_shape(dyn<AR>(s2), (index_t)k2);
      check_view(cb, s2, mem.base + k2, "const_array_ref set_shape");
      if (k2 == 0) {
        auto c = a;
        c.set_shape(dyn<AR>(s2));
        check_view(c, s2, mem.base, "array_ref set_shape without offset");
      }
    }
    if (k == 0) check_view(nda::reinterpret_shape(a, ns), s, mem.base, "reinterpret_shape without offset");
    mem.unprotect();
    for (long o = lo; o <= hi; o++) CHECK_EQ(mem.base[o], o * 11 + 5, "memory changed");
    mem.verify("reinterpretation");
    // A write through the view hits exactly that element.
    if (R.chance(50)) {
      Idx w;
      long n = R.below(s.size());
      s.each([&](const Idx& i) { if (n-- == 0) w = i; });
      call_idx<N>(r, w) = -1;
      for (long o = lo; o <= hi; o++) CHECK_EQ(mem.base[o], o == k + s.offset(w) ? -1 : o * 11 + 5, "write through a reinterpreted view");
    }
  });
}

template <class Alloc, class Shape>
using Arr = nda::array<int64_t, Shape, Alloc>;
template <int F>
using LA = LedgerAlloc<int64_t, F>;

// Owned arrays: chains of set_shape / reinterpret / move_reinterpret, then everything an array does.
template <class S1, class S2, int F>
void owned(Rng& R) {
  using A1 = Arr<LA<F>, S1>;
  using A2 = Arr<LA<F>, S2>;
  L().reset();
  MShape m;
  GenOpts o;
  o.allow_empty = false;
  o.max_size = 80;
  if (!gen_for_type<S1>(R, &m, o) || !m.one_to_one()) return;
  int id = F & 2 ? (int)R.below(4) : 0;
  desc("flags %d id %d %s", F, id, m.str().c_str());
  nontrivial();
  {
    A1 a(from_mshape<S1>(m), LA<F>(id));
    long lo, hi;
    m.flat_range(&lo, &hi);
    int64_t* origin = a.base();
    const Block* blk = L().find(origin + lo);
    REQUIRE(blk && L().find(origin + hi) == blk);
    for (long q = lo; q <= hi; q++) origin[q] = q * 7 + 3;
    Events e0 = L().ev;
    long at = 0;
    MShape cur = m;
    auto verify = [&](const char* who) {
      cur.each([&](const Idx& i) { CHECK_EQ(call_idx<S1::rank()>(a, i), (at + cur.offset(i)) * 7 + 3, who); });
      const A1& c = a;
      check_view(a.ref(), cur, origin + at, who);
      check_view(c.ref(), cur, origin + at, who);
      long clo, chi;
      cur.flat_range(&clo, &chi);
      CHECK(a.data() == origin + at + clo, "%s: data() is %ld elements off", who, (long)(a.data() - (origin + at + clo)));
      CHECK_EQ(a.size(), cur.size(), "size after a change of shape");
    };
    long n = R.range(0, 3);
    for (long t = 0; t < n; t++) {
      long clo, chi, k;
      cur.flat_range(&clo, &chi);
      MShape s;
      // Only what the current shape spans may be reached.
      if (!inner_shape<S1>(R, clo, chi, &s, &k)) continue;
      desc(" set %s at %ld", s.str().c_str(), k);
      a.set_shape(from_mshape<S1>(s), (index_t)k);
      cur = s;
      at += k;
      verify("set_shape");
    }
    Events e = L().ev - e0;
    CHECK(e.allocs == 0 && e.frees == 0, "set_shape allocates or frees");
    long clo, chi;
    cur.flat_range(&clo, &chi);
    MShape s;
    long k;
    int end = (int)R.below(7);
    bool have = inner_shape<S2>(R, clo, chi, &s, &k);
    if (!have) end = 3 + end % 4;
    desc(" end %d", end);
    if (have && R.chance(50)) {
      const A1& ca = a;
      auto v = nda::reinterpret_shape(a, from_mshape<S2>(s), (index_t)k);
      check_view(v, s, origin + at + k, "reinterpret_shape of an array");
      check_view(nda::reinterpret_shape(ca, from_mshape<S2>(s), (index_t)k), s, origin + at + k, "reinterpret_shape of a const array");
    }
    if (end <= 2) {
      desc(" as %s at %ld", s.str().c_str(), k);
      long static_allocs = A2(LA<F>(0)).size() ? 1 : 0;
      e0 = L().ev;
      A2 b = nda::move_reinterpret_shape(std::move(a), from_mshape<S2>(s), (index_t)k);
      e = L().ev - e0;
      CHECK(e.allocs <= static_allocs, "move_reinterpret_shape allocates");
      check_view(b.ref(), s, origin + at + k, "move_reinterpret_shape");
      CHECK_EQ(AllocTraits<LA<F>>::id(b.get_allocator()), id, "allocator of the result of move_reinterpret_shape");
      s.each([&](const Idx& i) { CHECK_EQ(call_idx<S2::rank()>(b, i), (at + k + s.offset(i)) * 7 + 3, "contents after move_reinterpret_shape"); });
      // The source is empty or default, and fully usable.
      CHECK(a.base() != b.base() || b.shape().empty(), "the source of move_reinterpret_shape still refers to the memory");
      CHECK(a.shape() == S1() || a.shape().empty(), "the source of move_reinterpret_shape is neither empty nor default");
      if (end == 1) {
        A1 c(a);
        A1 d;
        d = c;
        a = std::move(d);
        a.clear();
      }
      if (end == 2) {
        MShape f;
        if (gen_for_type<S1>(R, &f, o) && f.one_to_one()) {
          a = A1(from_mshape<S1>(f), 6, LA<F>(id));
          f.each([&](const Idx& i) { CHECK_EQ(call_idx<S1::rank()>(a, i), 6, "assignment to the source of move_reinterpret_shape"); });
        }
        A2 c = std::move(b);
        if (F & 2) CHECK(c.base() == origin + at + k, "moving a reinterpreted array");
        s.each([&](const Idx& i) { CHECK_EQ(call_idx<S2::rank()>(c, i), (at + k + s.offset(i)) * 7 + 3, "contents after another move"); });
      }
    } else if (end == 3 && cur.one_to_one()) {
      // A copy has the same shape and values in a block of its own.
      A1 c = a;
      CHECK(to_mshape(c.shape()) == cur, "shape of a copy after set_shape");
      cur.each([&](const Idx& i) { CHECK_EQ(call_idx<S1::rank()>(c, i), (at + cur.offset(i)) * 7 + 3, "copy after set_shape"); });
      c = a;
      a = c;
      cur.each([&](const Idx& i) { CHECK_EQ(call_idx<S1::rank()>(a, i), (at + cur.offset(i)) * 7 + 3, "assignment after set_shape"); });
    } else if (end == 4) {
      A1 c = std::move(a);
      check_view(c.ref(), cur, origin + at, "moved array after set_shape");
      a = std::move(c);
    } else if (end == 5) {
      A1 c(from_mshape<S1>(m), 9, LA<F>(id));
      a.swap(c);
      check_view(c.ref(), cur, origin + at, "swapped array after set_shape");
      CHECK_EQ(a.size(), m.size(), "swapped array");
    } else if (end == 6) {
      a.clear();
    }
  }
  CHECK(L().blocks.empty(), "%zu blocks were not freed", L().blocks.size());
  count("owned_histories");
}

GROUP(reinterpret, 4000, 120000) {
  GenOpts o;
  o.allow_empty = false;
  o.allow_broadcast = true;
  MShape a = gen_shape(R, (size_t)R.range(0, 3), o);
  switch (I % 9) {
  case 0: return views<nda::shape_of_rank<0>>(R, a);
  case 1: return views<nda::shape_of_rank<1>>(R, a);
  case 2: return views<nda::shape_of_rank<2>>(R, a);
  case 3: return views<nda::shape_of_rank<3>>(R, a);
  case 4: return views<nda::shape_of_rank<4>>(R, a);
  case 5: return views<nda::fixed_dense_shape<2, 3>>(R, a);
  case 6: return views<nda::dense_shape<2>>(R, a);
  case 7: return views<nda::shape<nda::dim<2>, nda::dim<nda::dynamic, 3>, nda::dense_dim<-1>>>(R, a);
  default: return views<nda::chunky_image_shape<3>>(R, a);
  }
}
GROUP(arrays, 2400, 80000) {
  using D1 = nda::shape_of_rank<1>;
  using D2 = nda::shape_of_rank<2>;
  using D3 = nda::shape_of_rank<3>;
  using F23 = nda::fixed_dense_shape<2, 3>;
  using F22 = nda::fixed_dense_shape<2, 2>;
  switch (I % 8) {
  case 0: return owned<D2, D2, 0>(R);
  case 1: return owned<D2, D1, 2>(R);
  case 2: return owned<D1, D3, 2>(R);
  case 3: return owned<nda::dense_shape<2>, D1, 0>(R);
  case 4: return owned<F23, F22, 2>(R);
  case 5: return owned<D2, F22, 2>(R);
  case 6: return owned<nda::fixed_dense_shape<3, 4>, F23, 0>(R);
  default: return owned<D3, D2, 7>(R);
  }
}
// The overload that converts the shape.
GROUP(convert, 600, 10000) {
  L().reset();
  long w = R.range(1, 6), h = R.range(1, 5);
  desc("%ldx%ld", w, h);
  nontrivial();
  {
    Arr<LA<2>, nda::dense_shape<2>> a(nda::dense_shape<2>(w, h), LA<2>((int)R.below(3)));
    long k = 0;
    a.for_each_value([&](int64_t& x) { x = k++; });
    const int64_t* p = a.base();
    if (R.chance(50)) {
      auto b = nda::move_reinterpret_shape<nda::shape_of_rank<2>>(std::move(a));
      check_view(b.ref(), MShape{{{0, w, 1}, {0, h, w}}}, p, "move_reinterpret_shape to a converted shape");
      auto c = nda::move_reinterpret_shape<nda::dense_shape<2>>(std::move(b));
      check_view(c.ref(), MShape{{{0, w, 1}, {0, h, w}}}, p, "move_reinterpret_shape to a converted shape");
    } else {
      auto b = nda::move_reinterpret_shape<nda::shape_of_rank<3>>(std::move(a));
      CHECK(b.base() == p && b.dim(0).extent() == w && b.dim(1).extent() == h && b.dim(2).extent() == 1, "move_reinterpret_shape to a higher rank");
      CHECK(b.shape().is_resolved(), "move_reinterpret_shape to a higher rank leaves a stride unresolved");
      CHECK_EQ(b.shape().flat_max() - b.shape().flat_min(), (long)(w * h - 1), "flat range after move_reinterpret_shape to a higher rank");
      CHECK(b.shape().is_compact() && b.data() == p, "memory after move_reinterpret_shape to a higher rank");
      CHECK_EQ(b(w - 1, h - 1, 0), w * h - 1, "last element");
    }
  }
  CHECK(L().blocks.empty(), "blocks were not freed");
}
HARNESS_MAIN
