// C25: with assertions enabled, each checked misuse aborts before any out-of-bounds access, and
// legal uses next to it do not. Misuses run in child processes, legal uses in this one. Built with
// AddressSanitizer the memory around and between the elements is poisoned, so an access made before
// the assertion ends the child with a sanitizer report instead of an abort.
#ifndef VERIF_PART
#define VERIF_PART 1
#endif
#include "model.h"
#include "types.h"

#include "array/ein_reduce.h"

using namespace vh;
using nda::dynamic;
using nda::unresolved;

namespace {
template <class Fn>
int misuse_status(Fn&& fn) {
  return run_child([&] {
    signal(SIGABRT, SIG_DFL);
    fn();
  }, true, 20);
}
// The misuse must abort, by an assertion.
template <class Fn>
void aborts(const char* what, const std::string& detail, Fn&& fn) {
  int w = misuse_status(fn);
  count("misuses_run");
  if (WIFSIGNALED(w) && WTERMSIG(w) == SIGABRT) return;
  if (WIFEXITED(w) && WEXITSTATUS(w) == 0) fail("%s %s: the misuse was not stopped", what, detail.c_str());
  if (WIFEXITED(w)) fail("%s %s: memory was harmed before the misuse was stopped (sanitizer report, exit %d)", what, detail.c_str(), WEXITSTATUS(w));
  fail("%s %s: the misuse ended with signal %d, not with an assertion", what, detail.c_str(), WTERMSIG(w));
}
template <class Fn>
void legal(const char* what, const std::string& detail, Fn&& fn) {
  count("legal_uses_run");
  size_t at = st().len;
  desc(" | legal %s %s", what, detail.c_str());
  fn();
  st().len = at;
  st().desc[at] = 0;
}
// Keep the optimiser from dropping a computation whose only effect is the assertion.
template <class T>
void keep(const T& x) {
  asm volatile("" : : "r"(&x) : "memory");
}

GenOpts small_opts(bool empty = false) {
  GenOpts o;
  o.allow_empty = empty;
  o.max_size = 200;
  o.max_ext = 5;
  return o;
}
} // namespace

#if VERIF_PART == 1
// ---------------------------------------------------------------- copy, move
namespace {
using E = int64_t;
template <class S, class D>
struct Pair {
  MShape sm, dm;
  std::string text;
};

template <class SS, class DS>
void run_transfer(int op, const SS& ss, const DS& ds, const MShape& sm, const MShape& dm, bool ok, const std::string& text) {
  static const char* names[] = {"copy(ref, ref)", "copy(array, ref)", "copy(ref, array)", "copy(array, array)", "move(ref, ref)", "move(array, ref)",
      "move(ref, array)", "move(array, array)", "make_copy(ref, shape)", "make_copy(array, shape)", "make_move(ref, shape)", "make_move(array&, shape)",
      "make_move(ref, shape, allocator)", "copy(const array, ref)", "copy of a sliced const ref"};
  Arena<E> sa(sm), da(dm);
  sm.each([&](const Idx& i) { sa.base[sm.offset(i)] = 7; });
  dm.each([&](const Idx& i) { da.base[dm.offset(i)] = 9; });
  nda::array_ref<E, SS> s(sa.base, ss);
  nda::array_ref<E, DS> d(da.base, ds);
  nda::array<E, SS> a(ss, 5);
  nda::array<E, DS> b(ds, 6);
  const nda::array<E, SS>& ca = a;
  sa.protect();
  da.protect();
  auto act = [&] {
    switch (op) {
    case 0: nda::copy(s, d); break;
    case 1: nda::copy(a, d); break;
    case 2: nda::copy(s, b); break;
    case 3: nda::copy(a, b); break;
    case 4: nda::move(s, d); break;
    case 5: nda::move(a, d); break;
    case 6: nda::move(s, b); break;
    case 7: nda::move(a, b); break;
    case 8: keep(nda::make_copy(s, ds)); break;
    case 9: keep(nda::make_copy(a, ds)); break;
    case 10: keep(nda::make_move(s, ds)); break;
    case 11: keep(nda::make_move(a, ds)); break;
    case 12: keep(nda::make_move(a.ref(), ds, std::allocator<E>())); break;
    case 13: nda::copy(ca, d); break;
    default: nda::copy(s.cref(), d); break;
    }
  };
  if (ok) legal(names[op], text, act);
  else aborts(names[op], text, act);
  sa.verify("source");
  da.verify("destination");
}

// Every way of leaving the source: one dimension, one side, by some amount.
struct Escape {
  MShape d;
  bool ok;
  std::string text;
};
std::vector<Escape> escapes(Rng& R, const MShape& s, const MShape& in) {
  std::vector<Escape> r;
  r.push_back({in, true, "inside"});
  for (size_t k = 0; k < s.rank(); k++) {
    for (int side = 0; side < 2; side++) {
      long by = R.pick<long>({1, 1, 1, 2, s.d[k].ext, 1000});
      std::string t = "dim " + std::to_string(k) + (side ? " high" : " low");
      // Shifted or grown so that it sticks out on one side.
      MShape m = in;
      bool grow = R.chance(50) && by < 10;
      if (side == 0) {
        long lo = s.d[k].min - by;
        if (grow) m.d[k].ext += m.d[k].min - lo;
        m.d[k].min = lo;
      } else {
        long hi = s.d[k].max() + by;
        if (grow) m.d[k].ext += hi - m.d[k].max();
        else m.d[k].min += hi - m.d[k].max();
      }
      if (m.size() <= 2000) r.push_back({m, false, t + (grow ? " grown by " : " shifted by ") + std::to_string(by)});
      // Touching that side exactly.
      MShape q = in;
      if (side == 0) {
        q.d[k].ext += q.d[k].min - s.d[k].min;
        q.d[k].min = s.d[k].min;
      } else {
        q.d[k].ext += s.d[k].max() - q.d[k].max();
      }
      r.push_back({q, true, t + " touching"});
      // Sticking out, but empty in some dimension: nothing is transferred.
      if (R.chance(20)) {
        MShape e = m;
        e.d[R.below((long)e.rank())].ext = 0;
        r.push_back({e, true, t + " empty"});
      }
    }
  }
  return r;
}
} // namespace

// Dynamic shapes of every rank, both layouts random.
GROUP(transfer, 80, 1500) {
  size_t rank = 1 + (size_t)(I % 5);
  MShape s = gen_shape(R, rank, small_opts());
  MShape in = gen_subregion(R, s);
  desc("transfer from %s to %s", s.str().c_str(), in.str().c_str());
  nontrivial();
  with_rank<1, 5>(rank, [&](auto r) {
    constexpr size_t N = decltype(r)::value;
    for (Escape& e : escapes(R, s, in)) {
      GenOpts o = small_opts(true);
      gen_strides(R, e.d, o);
      run_transfer((int)R.below(15), dyn<N>(s), dyn<N>(e.d), s, e.d, e.ok, e.text);
    }
  });
}
// Static source shapes, destination with the same type where its values allow, or dynamic.
using Sources = TypeList<nda::dense_shape<1>, nda::dense_shape<2>, nda::dense_shape<3>, nda::matrix_shape<>, nda::matrix_shape<3>, nda::matrix_shape<2, 5>,
    nda::vector_shape<6>, nda::chunky_image_shape<>, nda::chunky_image_shape<3, 4>, nda::planar_image_shape, nda::fixed_dense_shape<4, 3>,
    nda::shape<nda::dim<2>, nda::dim<dynamic, 3>, nda::dense_dim<-1>>>;
GROUP(transfer_types, 72, 700) {
  with_type(Sources(), (size_t)I % list_size(Sources()), [&](auto tag) {
    using S = typename decltype(tag)::type;
    MShape s;
    if (!gen_for_type<S>(R, &s, small_opts()) || s.size() > 300) return;
    MShape in = gen_subregion(R, s);
    desc("transfer from type %ld %s to %s", I % (long)list_size(Sources()), s.str().c_str(), in.str().c_str());
    nontrivial();
    for (Escape& e : escapes(R, s, in)) {
      gen_strides(R, e.d, small_opts(true));
      run_transfer((int)R.below(15), from_mshape<S>(s), dyn<S::rank()>(e.d), s, e.d, e.ok, e.text);
    }
  });
}
using Dense3 = nda::dense_shape<3>;
GROUP(transfer_dense, 66, 700) {
  // Dense destinations, the layouts with an optimised copy.
  MShape s = gen_bounds(R, 3, small_opts());
  GenOpts o = small_opts();
  o.allow_negative = false;
  MShape in = gen_subregion(R, s);
  auto dense = [](MShape& m) {
    m.d[0].str = 1;
    m.d[1].str = std::max(1L, m.d[0].ext);
    m.d[2].str = m.d[1].str * std::max(1L, m.d[1].ext);
  };
  dense(s);
  desc("dense transfer from %s to %s", s.str().c_str(), in.str().c_str());
  nontrivial();
  for (Escape& e : escapes(R, s, in)) {
    dense(e.d);
    run_transfer((int)R.below(15), from_mshape<Dense3>(s), from_mshape<Dense3>(e.d), s, e.d, e.ok, e.text);
  }
}

// ---------------------------------------------------------------- set_shape, reinterpret_shape, move_reinterpret_shape
namespace {
template <class S, class N>
void window(int op, const S& s, const N& n, const MShape& sm, const MShape& nm, long off, bool ok, const std::string& text) {
  static const char* names[] = {"reinterpret_shape(ref)", "reinterpret_shape(const ref)", "reinterpret_shape(array)", "reinterpret_shape(const array)", "move_reinterpret_shape"};
  Arena<E> sa(sm);
  sm.each([&](const Idx& i) { sa.base[sm.offset(i)] = sm.offset(i); });
  nda::array_ref<E, S> ref(sa.base, s);
  nda::array<E, S> a(s, 5);
  const nda::array<E, S>& ca = a;
  sa.protect();
  auto act = [&] {
    switch (op) {
    case 0: keep(nda::reinterpret_shape(ref, n, (index_t)off)); break;
    case 1: keep(nda::reinterpret_shape(ref.cref(), n, (index_t)off)); break;
    case 2: keep(nda::reinterpret_shape(a, n, (index_t)off)); break;
    case 3: keep(nda::reinterpret_shape(ca, n, (index_t)off)); break;
    default: keep(nda::move_reinterpret_shape(std::move(a), n, (index_t)off)); break;
    }
  };
  if (ok) legal(names[op], text, act);
  else aborts(names[op], text, act);
  (void)nm;
}
template <class S>
void same_type_window(int op, const S& s, const S& n, const MShape& sm, long off, bool ok, const std::string& text) {
  static const char* names[] = {"array_ref::set_shape", "const array_ref::set_shape", "array::set_shape"};
  Arena<E> sa(sm);
  nda::array_ref<E, S> ref(sa.base, s);
  nda::const_array_ref<E, S> cref(sa.base, s);
  nda::array<E, S> a(s, 5);
  sa.protect();
  auto act = [&] {
    switch (op) {
    case 0: ref.set_shape(n, (index_t)off); break;
    case 1: cref.set_shape(n, (index_t)off); break;
    default: a.set_shape(n, (index_t)off); break;
    }
  };
  if (ok) legal(names[op], text, act);
  else aborts(names[op], text, act);
}
struct Window {
  long off;
  bool ok;
};
// Offsets around the ends of the range where nm fits inside sm's memory.
std::vector<Window> windows(Rng& R, const MShape& sm, const MShape& nm) {
  long slo, shi, nlo, nhi;
  sm.flat_range(&slo, &shi);
  nm.flat_range(&nlo, &nhi);
  long first = slo - nlo, last = shi - nhi; // legal offsets: [first, last]
  std::vector<Window> r;
  bool fits = first <= last;
  auto add = [&](long o) { r.push_back({o, false}); };
  if (fits) {
    add(first - 1);
    add(last + 1);
    add(R.chance(50) ? first - R.range(2, 40) : last + R.range(2, 40));
    // Legal only where every element really is an element of the source: what the flat range is
    // promised to mean.
    std::set<long> se = sm.flat_set(), ne = nm.flat_set();
    for (long o : std::vector<long>{first, last, R.range(first, last), 0}) {
      if (o < first || o > last) continue;
      bool all = true;
      for (long x : ne) all &= se.count(x + o) != 0;
      if (all) r.push_back({o, true});
    }
  } else {
    add(first);
    add(last);
    add(R.range(last, first));
    add(0);
  }
  return r;
}
} // namespace

GROUP(windows_same_rank, 80, 1500) {
  size_t rank = 1 + (size_t)(I % 4);
  MShape s = gen_shape(R, rank, small_opts());
  MShape n = R.chance(70) ? gen_subregion(R, s) : gen_bounds(R, rank, small_opts());
  if (R.chance(40)) gen_strides(R, n, small_opts());
  else
    for (size_t k = 0; k < rank; k++) n.d[k].str = s.d[k].str;
  desc("windows %s of %s", n.str().c_str(), s.str().c_str());
  nontrivial();
  with_rank<1, 4>(rank, [&](auto r) {
    constexpr size_t N = decltype(r)::value;
    for (const Window& w : windows(R, s, n)) {
      std::string t = "offset " + std::to_string(w.off);
      same_type_window((int)R.below(3), dyn<N>(s), dyn<N>(n), s, w.off, w.ok, t);
      window((int)R.below(5), dyn<N>(s), dyn<N>(n), s, n, w.off, w.ok, t);
    }
  });
}
using Windows = TypeList<nda::shape<>, nda::dense_shape<1>, nda::dense_shape<2>, nda::dense_shape<3>, nda::matrix_shape<2, 3>, nda::chunky_image_shape<2>, nda::shape_of_rank<3>, nda::fixed_dense_shape<4>>;
GROUP(windows_types, 80, 1500) {
  size_t rank = (size_t)R.below(4);
  MShape s = gen_shape(R, rank, small_opts());
  with_type(Windows(), (size_t)I % list_size(Windows()), [&](auto tag) {
    using N = typename decltype(tag)::type;
    MShape n;
    if (!gen_for_type<N>(R, &n, small_opts()) || n.size() > 400) return;
    desc("window type %ld %s of %s", I % (long)list_size(Windows()), n.str().c_str(), s.str().c_str());
    nontrivial();
    with_rank<0, 3>(rank, [&](auto r) {
      for (const Window& w : windows(R, s, n))
        window((int)R.below(5), dyn<decltype(r)::value>(s), from_mshape<N>(n), s, n, w.off, w.ok, "offset " + std::to_string(w.off));
    });
  });
}
// move_reinterpret_shape without an explicit shape: only the offset can leave the memory.
GROUP(windows_offset_only, 20, 300) {
  MShape s = gen_bounds(R, 2, small_opts());
  s.d[0].str = 1;
  s.d[1].str = s.d[0].ext;
  desc("move_reinterpret_shape by offset of %s", s.str().c_str());
  nontrivial();
  for (long off : {0L, 1L, -1L, s.size(), -s.size(), 1000L}) {
    nda::array<E, nda::dense_shape<2>> a(from_mshape<nda::dense_shape<2>>(s), 5);
    auto act = [&] { keep(nda::move_reinterpret_shape<nda::shape_of_rank<2>>(std::move(a), (index_t)off)); };
    if (off == 0) legal("move_reinterpret_shape(offset)", "0", act);
    else aborts("move_reinterpret_shape(offset)", std::to_string(off), act);
  }
}

// ---------------------------------------------------------------- split<N>
namespace {
template <long N, class V>
void split_one(const V& v, long ext, const char* kind) {
  std::string t = std::string(kind) + " extent " + std::to_string(ext);
  std::string what = "split<" + std::to_string(N) + ">";
  auto act = [&] { keep(nda::split<N>(v)); };
  if (ext >= N) legal(what.c_str(), t, act);
  else aborts(what.c_str(), t, act);
}
template <long N>
void split_dynamic(long min, long ext) {
  split_one<N>(nda::interval<>((index_t)min, (index_t)ext), ext, "interval");
  split_one<N>(nda::dim<>((index_t)min, (index_t)ext, 1), ext, "dim");
  split_one<N>(nda::interval<2>(2, (index_t)ext), ext, "interval with static min");
  split_one<N>(nda::dense_dim<-1>(-1, (index_t)ext), ext, "dense dim");
}
template <long N, long Ext>
void split_static() {
  split_one<N>(nda::interval<1, Ext>(), Ext, "static interval");
  split_one<N>(nda::interval<dynamic, Ext>(-4, Ext), Ext, "fixed interval");
  split_one<N>(nda::dim<0, Ext, 3>(), Ext, "static dim");
}
} // namespace
GROUP(split_extents, 14, 14) {
  long min = R.range(-6, 6);
  desc("split<N> of [%ld, +%ld)", min, I);
  nontrivial();
  split_dynamic<1>(min, I);
  split_dynamic<2>(min, I);
  split_dynamic<3>(min, I);
  split_dynamic<5>(min, I);
  split_dynamic<8>(min, I);
  split_dynamic<13>(min, I);
}
GROUP(split_static_extents, 1, 1) {
  desc("split<N> of static extents");
  nontrivial();
  split_static<1, 1>();
  split_static<2, 1>();
  split_static<2, 2>();
  split_static<3, 2>();
  split_static<3, 3>();
  split_static<3, 4>();
  split_static<4, 3>();
  split_static<8, 7>();
  split_static<8, 8>();
  split_static<8, 9>();
  split_static<16, 8>();
}

// ---------------------------------------------------------------- shape::dim(d)
GROUP(runtime_dim, 14, 14) {
  size_t rank = (size_t)(I % 7);
  MShape s = rank ? gen_shape(R, rank, small_opts(true)) : MShape();
  desc("dim(d) of %s", s.str().c_str());
  nontrivial();
  with_rank<0, 6>(rank, [&](auto r) {
    constexpr size_t N = decltype(r)::value;
    auto sh = dyn<N>(s);
    for (size_t d : std::vector<size_t>{0, 1, 2, 3, 4, 5, 6, 7, 8, 100, (size_t)1 << 31, (size_t)1 << 32, ((size_t)1 << 32) + 1, (size_t)-1, (size_t)-9}) {
      auto act = [&] {
        nda::dim<> x = sh.dim(d);
        keep(x);
        if (d < N) CHECK(to_mdim(x) == s.d[d], "shape::dim(%zu) returned another dim", d);
      };
      if (d < N) legal("shape::dim", std::to_string(d), act);
      else aborts("shape::dim", std::to_string(d), act);
    }
  });
}
GROUP(runtime_dim_types, 40, 40) {
  with_type(StaticShapes(), (size_t)I % list_size(StaticShapes()), [&](auto tag) {
    using S = typename decltype(tag)::type;
    MShape m;
    if (!gen_for_type<S>(R, &m, small_opts())) return;
    desc("dim(d) of type %ld %s", I % (long)list_size(StaticShapes()), m.str().c_str());
    nontrivial();
    S s = from_mshape<S>(m);
    for (size_t d = 0; d < S::rank() + 2; d++) {
      auto act = [&] { keep(s.dim(d)); };
      if (d < S::rank()) legal("shape::dim", std::to_string(d), act);
      else aborts("shape::dim", std::to_string(d), act);
    }
  });
}
#endif

#if VERIF_PART == 2
// ---------------------------------------------------------------- compile-time constants
namespace {
constexpr long SMin = 2, SExt = 3, SStr = 4;
template <bool M, bool X, bool S>
using DimOf = nda::dim<M ? SMin : dynamic, X ? SExt : dynamic, S ? SStr : dynamic>;
template <bool M, bool X>
using IntervalOf = nda::interval<M ? SMin : dynamic, X ? SExt : dynamic>;

const long Offs[] = {0, 1, -1, 2, 1000};

template <class Fn>
void expect(bool ok, const char* what, const std::string& t, Fn&& fn) {
  if (ok) legal(what, t, fn);
  else aborts(what, t, fn);
}
std::string triple(const MDim& m) {
  MShape s;
  s.d.push_back(m);
  return s.str();
}

template <bool M, bool X>
void intervals(const MDim& v) {
  using D = IntervalOf<M, X>;
  bool okm = !M || v.min == SMin, okx = !X || v.ext == SExt, ok = okm && okx;
  std::string t = std::string(M ? "static min " : "") + (X ? "static extent " : "") + triple(v);
  index_t mn = (index_t)v.min, ex = (index_t)v.ext;
  expect(ok, "interval(min, extent)", t, [&] { keep(D(mn, ex)); });
  expect(okm, "interval(min)", t, [&] { keep(D(mn)); });
  expect(ok, "interval from interval<>", t, [&] { D d = nda::interval<>(mn, ex); keep(d); });
  expect(ok, "assigned interval<>", t, [&] { D d; d = nda::interval<>(mn, ex); keep(d); });
  expect(okm, "set_min", t, [&] { D d; d.set_min(mn); keep(d); });
  expect(okx, "set_extent", t, [&] { D d; d.set_extent(ex); keep(d); });
  D d;
  index_t mx = (index_t)(d.min() + ex - 1);
  expect(okx, "set_max", t, [&] { D e; e.set_max(mx); keep(e); });
  // Sources that are themselves partly static.
  if (v.min == SMin) {
    expect(ok, "interval from interval<Min>", t, [&] { D e = nda::interval<SMin>(mn, ex); keep(e); });
    expect(ok, "assigned interval<Min>", t, [&] { D e; e = nda::interval<SMin>(mn, ex); keep(e); });
  }
  if (v.ext == SExt) {
    expect(ok, "interval from fixed_interval", t, [&] { D e = nda::fixed_interval<SExt>(mn, ex); keep(e); });
    expect(ok, "assigned fixed_interval", t, [&] { D e; e = nda::fixed_interval<SExt>(mn, ex); keep(e); });
  }
}
template <bool M, bool X, bool S>
void dims(const MDim& v) {
  using D = DimOf<M, X, S>;
  bool okm = !M || v.min == SMin, okx = !X || v.ext == SExt, oks = !S || v.str == SStr, ok = okm && okx && oks;
  std::string t = std::string(M ? "static min " : "") + (X ? "static extent " : "") + (S ? "static stride " : "") + triple(v);
  index_t mn = (index_t)v.min, ex = (index_t)v.ext, sr = (index_t)v.str;
  expect(ok, "dim(min, extent, stride)", t, [&] { keep(D(mn, ex, sr)); });
  expect(okm && okx, "dim(min, extent)", t, [&] { keep(D(mn, ex)); });
  expect(okx, "dim(extent)", t, [&] { keep(D(ex)); });
  expect(ok, "dim from dim<>", t, [&] { D d = nda::dim<>(mn, ex, sr); keep(d); });
  expect(ok, "assigned dim<>", t, [&] { D d; d = nda::dim<>(mn, ex, sr); keep(d); });
  expect(okm && okx, "dim from a dim<> with unresolved stride", t, [&] { D d = nda::dim<>(mn, ex); keep(d); });
  expect(okm && okx, "assigned a dim<> with unresolved stride", t, [&] { D d; d = nda::dim<>(mn, ex); keep(d); });
  expect(okm, "dim::set_min", t, [&] { D d; d.set_min(mn); keep(d); });
  expect(okx, "dim::set_extent", t, [&] { D d; d.set_extent(ex); keep(d); });
  expect(oks, "dim::set_stride", t, [&] { D d; d.set_stride(sr); keep(d); });
  expect(true, "dim::set_stride(unresolved)", t, [&] { D d; d.set_stride(unresolved); keep(d); });
  D e;
  index_t mx = (index_t)(e.min() + ex - 1);
  expect(okx, "dim::set_max", t, [&] { D d; d.set_max(mx); keep(d); });
  if (okm && okx) expect(ok, "dim(interval, stride)", t, [&] { keep(D(IntervalOf<M, X>(mn, ex), sr)); });
}
template <bool M, bool X, bool S, class Src>
void from_static_impl(const MDim& v, const Src& src) {
  using D = DimOf<M, X, S>;
  bool ok = (!M || v.min == SMin) && (!X || v.ext == SExt) && (!S || v.str == SStr);
  std::string t = std::string(M ? "to static min " : "to ") + (X ? "static extent " : "") + (S ? "static stride " : "") + triple(v);
  expect(ok, "dim from a partly static dim", t, [&] { D d = src; keep(d); });
  expect(ok, "assigned a partly static dim", t, [&] { D d; d = src; keep(d); });
}
template <class Src>
void from_static(const MDim& v, const Src& src, int which) {
  switch (which % 8) {
  case 0: from_static_impl<0, 0, 0>(v, src); break;
  case 1: from_static_impl<1, 0, 0>(v, src); break;
  case 2: from_static_impl<0, 1, 0>(v, src); break;
  case 3: from_static_impl<1, 1, 0>(v, src); break;
  case 4: from_static_impl<0, 0, 1>(v, src); break;
  case 5: from_static_impl<1, 0, 1>(v, src); break;
  case 6: from_static_impl<0, 1, 1>(v, src); break;
  default: from_static_impl<1, 1, 1>(v, src); break;
  }
}
} // namespace
GROUP(interval_values, 12, 60) {
  long om = Offs[I % 5], ox = I < 12 ? Offs[(I / 5 + R.below(2)) % 4] : Offs[R.below(5)];
  MDim v;
  v.min = R.chance(15) && om ? R.pick<long>({dynamic, 0, -SMin}) : SMin + om;
  v.ext = SExt + ox;
  desc("interval values %s", triple(v).c_str());
  nontrivial();
  intervals<0, 0>(v);
  intervals<1, 0>(v);
  intervals<0, 1>(v);
  intervals<1, 1>(v);
}
GROUP(dim_values, 24, 200) {
  MDim v;
  v.min = SMin + (I % 4 == 1 ? Offs[1 + R.below(4)] : 0);
  v.ext = SExt + (I % 4 == 2 ? Offs[1 + R.below(4)] : 0);
  v.str = SStr + (I % 4 == 3 ? Offs[1 + R.below(4)] : 0);
  if (I % 4 == 3 && R.chance(30)) v.str = R.pick<long>({0, dynamic, -SStr});
  if (R.chance(20)) v.min = R.pick<long>({dynamic, 0, -SMin, 100000});
  desc("dim values %s", triple(v).c_str());
  nontrivial();
  dims<0, 0, 0>(v);
  dims<1, 0, 0>(v);
  dims<0, 1, 0>(v);
  dims<0, 0, 1>(v);
  dims<1, 1, 0>(v);
  dims<1, 0, 1>(v);
  dims<0, 1, 1>(v);
  dims<1, 1, 1>(v);
}
GROUP(dim_from_static, 64, 640) {
  MDim v;
  int src = (int)(I / 8 % 8);
  v.min = SMin + (!(src & 1) && R.chance(40) ? Offs[1 + R.below(4)] : 0);
  v.ext = SExt + (!(src & 2) && R.chance(40) ? Offs[1 + R.below(4)] : 0);
  v.str = SStr + (!(src & 4) && R.chance(40) ? Offs[1 + R.below(4)] : 0);
  desc("dim %s from static kind %d to %ld", triple(v).c_str(), src, I % 8);
  nontrivial();
  index_t mn = (index_t)v.min, ex = (index_t)v.ext, sr = (index_t)v.str;
  switch (src) {
  case 0: from_static(v, DimOf<0, 0, 0>(mn, ex, sr), (int)I); break;
  case 1: from_static(v, DimOf<1, 0, 0>(mn, ex, sr), (int)I); break;
  case 2: from_static(v, DimOf<0, 1, 0>(mn, ex, sr), (int)I); break;
  case 3: from_static(v, DimOf<1, 1, 0>(mn, ex, sr), (int)I); break;
  case 4: from_static(v, DimOf<0, 0, 1>(mn, ex, sr), (int)I); break;
  case 5: from_static(v, DimOf<1, 0, 1>(mn, ex, sr), (int)I); break;
  case 6: from_static(v, DimOf<0, 1, 1>(mn, ex, sr), (int)I); break;
  default: from_static(v, DimOf<1, 1, 1>(mn, ex, sr), (int)I); break;
  }
}

// ---------------------------------------------------------------- shapes and arrays of static types
namespace {
template <class S>
void convert_all(const MShape& m, bool ok, const std::string& t, int op) {
  constexpr size_t N = S::rank();
  auto s = dyn<N>(m);
  Arena<int64_t> mem(m);
  m.each([&](const Idx& i) { mem.base[m.offset(i)] = 3; });
  nda::array_ref<int64_t, nda::shape_of_rank<N>> ref(mem.base, s);
  mem.protect();
  switch (op) {
  case 0: expect(ok, "shape from a dynamic shape", t, [&] { S x = s; keep(x); }); break;
  case 1: expect(ok, "assigned a dynamic shape", t, [&] { S x; x = s; keep(x); }); break;
  case 2: expect(ok, "shape(dims)", t, [&] { S x = from_mshape<S>(m); keep(x); }); break;
  case 3: expect(ok, "shape(tuple)", t, [&] { S x(s.dims()); keep(x); }); break;
  case 4: expect(ok, "convert_shape", t, [&] { S x = nda::convert_shape<S>(s); keep(x); }); break;
  case 5: expect(ok, "array of a dynamic shape", t, [&] { nda::array<int64_t, S> x(s, 5); keep(x); }); break;
  case 6: expect(ok, "array_ref over a dynamic shape", t, [&] { nda::array_ref<int64_t, S> x(mem.base, s); keep(x); }); break;
  case 7: expect(ok, "array_ref from an array_ref", t, [&] { nda::array_ref<int64_t, S> x(ref); keep(x); }); break;
  case 8: expect(ok, "reshape to a dynamic shape", t, [&] { nda::array<int64_t, S> x; x.reshape(s); keep(x); }); break;
  case 9: expect(ok, "assign(dynamic shape, value)", t, [&] { nda::array<int64_t, S> x; x.assign(s, 5); keep(x); }); break;
  case 10: expect(ok, "make_copy to a static shape", t, [&] { nda::array<int64_t, S> x = nda::make_copy(ref, S(s)); keep(x); }); break;
  default: expect(ok, "array_ref from a const array_ref", t, [&] { nda::const_array_ref<int64_t, S> x(ref.cref()); keep(x); }); break;
  }
}
template <class S, size_t... Is>
void mutate(Rng& R, MShape m, std::index_sequence<Is...> seq) {
  using D = typename S::dims_type;
  const long mins[] = {0, (long)std::tuple_element<Is, D>::type::Min...};
  const long exts[] = {0, (long)std::tuple_element<Is, D>::type::Extent...};
  std::vector<long> strs = static_strides<S>(seq);
  convert_all<S>(m, true, "compatible", (int)R.below(12));
  for (size_t k = 0; k < S::rank(); k++) {
    for (int what = 0; what < 3; what++) {
      bool fixed = (what == 0 ? mins[k + 1] : what == 1 ? exts[k + 1] : strs[k]) != (long)dynamic;
      if (!fixed && R.chance(70)) continue;
      MShape q = m;
      long by = R.pick<long>({1, -1, 1, -1, 2, 7});
      if (what == 0) q.d[k].min += by;
      else if (what == 1) q.d[k].ext += by;
      else q.d[k].str += by;
      if (q.d[k].ext < 0 || q.size() > 3000) continue;
      if (what == 2 && !fixed) continue; // aliasing strides are another matter
      std::string t = std::string(fixed ? "differing static " : "other dynamic ") + (what == 0 ? "min" : what == 1 ? "extent" : "stride") + " of dim " + std::to_string(k) + ": " + q.str();
      if (!fixed && what == 1) continue; // static strides may depend on it
      convert_all<S>(q, !fixed, t, (int)R.below(12));
    }
  }
}
} // namespace
GROUP(static_types, 66, 1200) {
  with_type(StaticShapes(), (size_t)I % list_size(StaticShapes()), [&](auto tag) {
    using S = typename decltype(tag)::type;
    MShape m;
    if (!gen_for_type<S>(R, &m, small_opts()) || m.size() > 500) return;
    desc("conversions to type %ld of %s", I % (long)list_size(StaticShapes()), m.str().c_str());
    nontrivial();
    mutate<S>(R, m, std::make_index_sequence<S::rank()>());
  });
}

// ---------------------------------------------------------------- convert_shape
namespace {
template <class Dst, size_t From>
void drop_dims(Rng& R, MShape m) {
  constexpr size_t To = Dst::rank();
  for (size_t k = To; k < From; k++) m.d[k].ext = 1;
  expect(true, "convert_shape", "to rank " + std::to_string(To) + " of " + m.str(), [&] {
    auto s = dyn<From>(m);
    Dst d = nda::convert_shape<Dst>(s);
    MShape got = to_mshape(d);
    for (size_t k = 0; k < To && k < From; k++) CHECK(got.d[k] == m.d[k], "convert_shape changed dim %zu", k);
  });
  for (size_t k = To; k < From; k++) {
    for (long e : {0L, 2L, R.range(3, 9)}) {
      MShape q = m;
      q.d[k].ext = e;
      // Other dropped dims may also be wrong, or only this one.
      aborts("convert_shape", "to rank " + std::to_string(To) + " of " + q.str(), [&] { keep(nda::convert_shape<Dst>(dyn<From>(q))); });
    }
  }
}
template <size_t From>
void drop_all(Rng& R, const MShape& m) {
  drop_dims<nda::shape<>, From>(R, m);
  drop_dims<nda::shape_of_rank<1>, From>(R, m);
  drop_dims<nda::shape_of_rank<2>, From>(R, m);
  drop_dims<nda::shape_of_rank<3>, From>(R, m);
}
} // namespace
GROUP(convert_drop, 24, 300) {
  size_t rank = 1 + (size_t)(I % 4);
  MShape m = gen_shape(R, rank, small_opts());
  desc("convert_shape of %s", m.str().c_str());
  nontrivial();
  with_rank<1, 4>(rank, [&](auto r) { drop_all<decltype(r)::value>(R, m); });
}
GROUP(convert_static, 24, 300) {
  // Static sources and destinations, dropped and added dims.
  long e = R.range(0, 3), mn = R.range(-3, 3);
  desc("convert_shape with extent %ld min %ld", e, mn);
  nontrivial();
  auto t = std::to_string(e);
  index_t ee = (index_t)e, m = (index_t)mn;
  using nda::convert_shape;
  expect(e == 1, "convert_shape<dense 2>(dense 3)", t, [&] { keep(convert_shape<nda::dense_shape<2>>(nda::dense_shape<3>(nda::dense_dim<>(m, 3), nda::dim<>(0, 2, 3), nda::dim<>(m, ee, 6)))); });
  expect(e == 1, "convert_shape<matrix>(rank 3)", t, [&] { keep(convert_shape<nda::matrix_shape<>>(nda::shape<nda::dim<>, nda::dense_dim<>, nda::dim<>>(nda::dim<>(0, 2, 5), nda::dense_dim<>(m, 5), nda::dim<>(m, ee, 0)))); });
  expect(e == 1, "convert_shape to a static extent of 1", t, [&] { keep(convert_shape<nda::shape<nda::dim<dynamic, 1>, nda::dim<>>>(nda::shape_of_rank<2>(nda::dim<>(m, ee, 1), nda::dim<>(m, 4, 7)))); });
  expect(true, "convert_shape adding dims", t, [&] { keep(convert_shape<nda::shape_of_rank<3>>(nda::shape_of_rank<1>(nda::dim<>(m, ee, 1)))); });
  expect(true, "convert_shape adding a dim of static extent 1", t, [&] { keep(convert_shape<nda::shape<nda::dim<>, nda::dim<0, 1, 3>>>(nda::shape_of_rank<1>(nda::dim<>(m, ee, 1)))); });
  aborts("convert_shape adding a dim of static extent 2", t, [&] { keep(convert_shape<nda::shape<nda::dim<>, nda::dim<0, 2, 3>>>(nda::shape_of_rank<1>(nda::dim<>(m, ee, 1)))); });
  aborts("convert_shape dropping a static extent of 2", t, [&] { keep(convert_shape<nda::shape_of_rank<1>>(nda::shape<nda::dim<>, nda::dim<0, 2, 1>>(nda::dim<>(m, ee, 2), nda::dim<0, 2, 1>()))); });
  legal("convert_shape dropping a static extent of 1", t, [&] { keep(convert_shape<nda::shape_of_rank<1>>(nda::shape<nda::dim<>, nda::dim<5, 1, 9>>(nda::dim<>(m, ee, 2), nda::dim<5, 1, 9>()))); });
  // Through arrays.
  nda::array_of_rank<int64_t, 2> a(nda::shape_of_rank<2>(nda::dim<>(m, 4), nda::dim<>(m, ee)), 5);
  expect(e == 1, "convert_shape(array_ref)", t, [&] { keep(nda::convert_shape<nda::shape_of_rank<1>>(a.ref())); });
  expect(e == 1, "convert_shape(array)", t, [&] { keep(nda::convert_shape<nda::shape_of_rank<1>>(a)); });
  if (e > 0) expect(e == 1, "move_reinterpret_shape to a lower rank", t, [&] { auto b = a; keep(nda::move_reinterpret_shape<nda::shape_of_rank<1>>(std::move(b))); });
}
#endif

#if VERIF_PART == 3
// ---------------------------------------------------------------- ein_reduce
namespace {
using nda::ein;
using E = int64_t;
enum { i, j, k };
// An operand over poisoned storage.
template <size_t N>
struct Operand {
  MShape m;
  Arena<E> mem;
  nda::array_ref_of_rank<E, N> ref;
  Operand(const MShape& s) : m(s), mem(s), ref(mem.base, dyn<N>(s)) {
    m.each([&](const Idx& x) { mem.base[m.offset(x)] = 1; });
    mem.protect();
  }
};
MShape shape_of(Rng& R, std::vector<MDim> d) {
  MShape m;
  m.d = std::move(d);
  GenOpts o = small_opts();
  gen_strides(R, m, o);
  // Strides of zero make a result dimension a reduction dimension.
  for (auto& x : m.d)
    if (x.str == 0) x.str = 1;
  return m;
}
bool in(const MDim& inner, const MDim& outer) { return outer.min <= inner.min && inner.max() <= outer.max(); }
bool same(const MDim& a, const MDim& b) { return a.min == b.min && a.ext == b.ext; }
MDim gen(Rng& R) {
  MDim d;
  d.min = R.chance(50) ? 0 : R.range(-5, 5);
  d.ext = R.range(1, 5);
  return d;
}
// Leave it, or change its min or extent a little.
MDim vary(Rng& R, MDim d, int percent) {
  if (!R.chance(percent)) return d;
  switch (R.below(6)) {
  case 0: d.min++; break;
  case 1: d.min--; break;
  case 2: d.ext++; break;
  case 3: d.ext = d.ext > 1 ? d.ext - 1 : d.ext; break;
  case 4: d.min++; d.ext = d.ext > 1 ? d.ext - 1 : d.ext; break;
  default: d.min--; d.ext++; break;
  }
  return d;
}
template <class Fn>
void expect(bool ok, const char* what, const std::string& t, Fn&& fn) {
  count(ok ? "agreeing_bounds" : "disagreeing_bounds");
  if (ok) legal(what, t, fn);
  else aborts(what, t, fn);
}
} // namespace

GROUP(elementwise, 120, 2400) {
  MDim d = gen(R), e = gen(R);
  int p = 35;
  MShape rm = shape_of(R, {vary(R, d, p), vary(R, e, p)}), am = shape_of(R, {vary(R, d, p), vary(R, e, p)}), bm = shape_of(R, {vary(R, e, p), vary(R, d, p)});
  bool a_ok = in(rm.d[0], am.d[0]) && in(rm.d[1], am.d[1]);
  bool b_ok = in(rm.d[0], bm.d[1]) && in(rm.d[1], bm.d[0]);
  std::string t = rm.str() + " " + am.str() + " " + bm.str();
  desc("elementwise %s", t.c_str());
  nontrivial();
  Operand<2> r(rm), a(am), b(bm);
  expect(a_ok, "r(i,j) = a(i,j)", t, [&] { nda::ein_reduce(ein<i, j>(r.ref) = ein<i, j>(a.ref)); });
  expect(b_ok, "r(i,j) += b(j,i)", t, [&] { nda::ein_reduce(ein<i, j>(r.ref) += ein<j, i>(b.ref)); });
  expect(a_ok && b_ok, "r(i,j) = a(i,j)*b(j,i)", t, [&] { nda::ein_reduce(ein<i, j>(r.ref) = ein<i, j>(a.ref) * ein<j, i>(b.ref)); });
  expect(a_ok && b_ok, "r(i,j) = max(-a(i,j), b(j,i))", t, [&] { nda::ein_reduce(ein<i, j>(r.ref) = nda::max(-ein<i, j>(a.ref), ein<j, i>(b.ref))); });
  expect(a_ok && b_ok, "r(i,j) -= b(j,i) + a(i,j)", t, [&] { nda::ein_reduce(ein<i, j>(r.ref) -= ein<j, i>(b.ref) + ein<i, j>(a.ref)); });
}
GROUP(reductions, 120, 2400) {
  MDim d = gen(R);
  int p = 30;
  MShape xm = shape_of(R, {vary(R, d, p)}), ym = shape_of(R, {vary(R, d, p)}), zm = shape_of(R, {vary(R, d, p)});
  std::string t = xm.str() + " " + ym.str() + " " + zm.str();
  desc("reductions %s", t.c_str());
  nontrivial();
  Operand<1> x(xm), y(ym), z(zm);
  bool xy = same(xm.d[0], ym.d[0]), xz = same(xm.d[0], zm.d[0]);
  E s = 0;
  expect(xy, "s += x(i)*y(i)", t, [&] { nda::ein_reduce(ein<>(s) += ein<i>(x.ref) * ein<i>(y.ref)); });
  expect(xy && xz, "s += (x(i)+y(i))*z(i)", t, [&] { nda::ein_reduce(ein<>(s) += (ein<i>(x.ref) + ein<i>(y.ref)) * ein<i>(z.ref)); });
  expect(xy && xz, "s += x(i)*(y(i)-z(i))", t, [&] { nda::ein_reduce(ein<>(s) += ein<i>(x.ref) * (ein<i>(y.ref) - ein<i>(z.ref))); });
  expect(xy && xz, "make_ein_sum(x(i)*y(i)*z(i))", t, [&] { keep(nda::make_ein_sum<E>(ein<i>(x.ref) * ein<i>(y.ref) * ein<i>(z.ref))); });
  expect(xy, "make_ein_sum(min(x(i), y(i)))", t, [&] { keep(nda::make_ein_sum<E>(nda::min(ein<i>(x.ref), ein<i>(y.ref)))); });
}
GROUP(products, 120, 2400) {
  MDim di = gen(R), dj = gen(R), dk = gen(R);
  int p = 22;
  MShape am = shape_of(R, {vary(R, di, p), vary(R, dk, p)}), bm = shape_of(R, {vary(R, dk, p), vary(R, dj, p)}), rm = shape_of(R, {vary(R, di, p), vary(R, dj, p)});
  MShape vm = shape_of(R, {vary(R, dk, p)}), wm = shape_of(R, {vary(R, di, p)});
  std::string t = rm.str() + " " + am.str() + " " + bm.str() + " " + vm.str() + " " + wm.str();
  desc("products %s", t.c_str());
  nontrivial();
  Operand<2> a(am), b(bm), r(rm);
  Operand<1> v(vm), w(wm);
  bool ik = in(rm.d[0], am.d[0]), kj = in(rm.d[1], bm.d[1]), kk = same(am.d[1], bm.d[0]);
  expect(ik && kj && kk, "r(i,j) += a(i,k)*b(k,j)", t, [&] { nda::ein_reduce(ein<i, j>(r.ref) += ein<i, k>(a.ref) * ein<k, j>(b.ref)); });
  expect(ik && kj && kk, "r(i,j) += b(k,j)*a(i,k)", t, [&] { nda::ein_reduce(ein<i, j>(r.ref) += ein<k, j>(b.ref) * ein<i, k>(a.ref)); });
  bool av = same(am.d[1], vm.d[0]), wa = in(wm.d[0], am.d[0]);
  expect(av && wa, "w(i) += a(i,k)*v(k)", t, [&] { nda::ein_reduce(ein<i>(w.ref) += ein<i, k>(a.ref) * ein<k>(v.ref)); });
  expect(av, "make_ein_sum<i>(a(i,k)*v(k))", t, [&] { keep(nda::make_ein_sum<E, i>(ein<i, k>(a.ref) * ein<k>(v.ref))); });
  expect(kk, "make_ein_sum<i,j>(a(i,k)*b(k,j))", t, [&] { keep(nda::make_ein_sum<E, i, j>(ein<i, k>(a.ref) * ein<k, j>(b.ref))); });
  expect(av && kk, "make_ein_sum<j>(v(k)*b(k,j)*... )", t, [&] { keep(nda::make_ein_sum<E, i, j>(ein<i, k>(a.ref) * ein<k>(v.ref) * ein<k, j>(b.ref))); });
  // The first operand gives the bounds of an inferred dimension; the others must contain it.
  bool same_ik = same(wm.d[0], am.d[0]);
  if (same_ik || !in(am.d[0], wm.d[0]))
    expect(same_ik, "make_ein_sum<i>(a(i,k)*w(i))", t, [&] { keep(nda::make_ein_sum<E, i>(ein<i, k>(a.ref) * ein<i>(w.ref))); });
}
GROUP(diagonals, 80, 1200) {
  MDim d = gen(R);
  int p = 30;
  MDim e = vary(R, d, p);
  MShape am = shape_of(R, {e, e}), rm = shape_of(R, {vary(R, d, p)}), xm = shape_of(R, {vary(R, d, p)});
  std::string t = rm.str() + " " + am.str() + " " + xm.str();
  desc("diagonals %s", t.c_str());
  nontrivial();
  Operand<2> a(am);
  Operand<1> r(rm), x(xm);
  E s = 0;
  bool ra = in(rm.d[0], am.d[0]), xa = same(xm.d[0], am.d[0]), rx = in(rm.d[0], xm.d[0]);
  expect(ra, "r(i) = a(i,i)", t, [&] { nda::ein_reduce(ein<i>(r.ref) = ein<i, i>(a.ref)); });
  expect(ra && rx, "r(i) = a(i,i)*x(i)", t, [&] { nda::ein_reduce(ein<i>(r.ref) = ein<i, i>(a.ref) * ein<i>(x.ref)); });
  expect(xa, "s += a(i,i)*x(i)", t, [&] { nda::ein_reduce(ein<>(s) += ein<i, i>(a.ref) * ein<i>(x.ref)); });
  expect(xa, "s += x(i)*a(i,i)", t, [&] { nda::ein_reduce(ein<>(s) += ein<i>(x.ref) * ein<i, i>(a.ref)); });
}
// Operands with static bounds, C arrays, pointers with a size, and scalars.
GROUP(static_operands, 80, 1200) {
  MDim d = gen(R);
  d.min = 0;
  d.ext = R.range(2, 4);
  MShape xm = shape_of(R, {vary(R, d, 30)});
  std::string t = xm.str() + " against 3 and " + std::to_string(d.ext);
  desc("static operands %s", t.c_str());
  nontrivial();
  Operand<1> x(xm);
  MDim three;
  three.min = 0;
  three.ext = 3;
  E s = 0, c[3] = {1, 2, 3}, out[3] = {0, 0, 0};
  std::vector<E> v((size_t)d.ext, 1);
  nda::array<E, nda::shape<nda::dim<0, 3>>> fixed(nda::shape<nda::dim<0, 3>>(), 2);
  bool x3 = same(xm.d[0], three), xv = same(xm.d[0], d), v3 = same(three, d);
  expect(x3, "s += x(i)*c(i)", t, [&] { nda::ein_reduce(ein<>(s) += ein<i>(x.ref) * ein<i>(c)); });
  expect(x3, "s += fixed(i)*x(i)", t, [&] { nda::ein_reduce(ein<>(s) += ein<i>(fixed) * ein<i>(x.ref)); });
  expect(v3, "s += c(i)*v(i)", t, [&] { nda::ein_reduce(ein<>(s) += ein<i>(c) * ein<i>(v.data(), v.size())); });
  expect(xv, "s += v(i)*x(i)", t, [&] { nda::ein_reduce(ein<>(s) += ein<i>(v.data(), v.size()) * ein<i>(x.ref)); });
  expect(in(three, xm.d[0]), "out(i) = x(i)", t, [&] { nda::ein_reduce(ein<i>(out) = ein<i>(x.ref)); });
  expect(in(xm.d[0], three), "x(i) = c(i)", t, [&] { nda::ein_reduce(ein<i>(x.ref) = ein<i>(c)); });
  expect(true, "x(i) = s", t, [&] { nda::ein_reduce(ein<i>(x.ref) = ein<>(s)); });
}
#endif

HARNESS_MAIN
