// C23: independent and read-only concurrent use is free of data races.
//
// Threads run real library operations on shared or private objects under ThreadSanitizer. They
// share nothing with the harness but relaxed atomics (which order nothing), and the result every
// thread must obtain is computed by the main thread only after they have all been joined, so that
// state initialised on first use is initialised by the racing threads.
#include "model.h"
#include "types.h"

#include "array/ein_reduce.h"
#include "array/z_order.h"

#include <atomic>
#include <functional>
#include <thread>

#include <sched.h>

using namespace vh;
#ifndef VERIF_PART
#define VERIF_PART 1
#endif

namespace {

struct Hash {
  uint64_t h = 1469598103934665603ull;
  template <class T>
  void operator()(const T& x) {
    h = hash_bytes(&x, sizeof x, h);
  }
};
template <class A>
void hash_array(Hash& H, const A& a) {
  MShape m = to_mshape(a.shape());
  for (auto& d : m.d) {
    H(d.min);
    H(d.ext);
  }
  m.each([&](const Idx& i) { H(call_idx<A::rank()>(a, i)); });
}

// ---------------------------------------------------------------- running threads
std::atomic<int> waiting{0};
std::atomic<long> ticket{0};
constexpr int MAXT = 6, MAXS = 24;
struct Lane {
  uint64_t result = 0;
  long begin[MAXS], end[MAXS];
  int steps = 0;
};
std::set<uint64_t> interleavings;

// fn(thread, step, rng) returns a hash. Runs it in n threads, then again alone, and compares.
// `between` runs after the threads were joined and before the sequential run.
template <class Fn, class Between>
void concurrently(Rng& R, int n, int steps, const Fn& fn, const Between& between) {
  static Lane lanes[MAXT];
  uint64_t seeds[MAXT];
  int noise = (int)R.below(4);
  for (int t = 0; t < n; t++) seeds[t] = R.next();
  waiting.store(n);
  ticket.store(0);
  {
    std::vector<std::thread> th;
    for (int t = 0; t < n; t++)
      th.emplace_back([&, t] {
        Lane& L = lanes[t];
        Rng r(seeds[t]);
        L.steps = steps;
        waiting.fetch_sub(1, std::memory_order_relaxed);
        while (waiting.load(std::memory_order_relaxed) > 0) sched_yield();
        Hash H;
        for (int s = 0; s < steps; s++) {
          L.begin[s] = ticket.fetch_add(1, std::memory_order_relaxed);
          H(fn(t, s, r));
          L.end[s] = ticket.fetch_add(1, std::memory_order_relaxed);
          if (noise == 1) sched_yield();
          if (noise == 2 && (s + t) % 3 == 0) usleep(20);
        }
        L.result = H.h;
      });
    for (auto& t : th) t.join();
  }
  // What was observed.
  std::vector<std::pair<long, int>> order;
  for (int t = 0; t < n; t++)
    for (int s = 0; s < lanes[t].steps; s++) {
      order.push_back({lanes[t].begin[s], 2 * t});
      order.push_back({lanes[t].end[s], 2 * t + 1});
    }
  std::sort(order.begin(), order.end());
  uint64_t h = (uint64_t)n;
  long overlaps = 0, open = 0;
  for (auto& o : order) {
    h = hash_bytes(&o.second, sizeof o.second, h);
    if (o.second % 2) open--;
    else {
      if (open) overlaps++;
      open++;
    }
  }
  if (interleavings.insert(h).second) count("distinct_interleavings");
  count("operations", order.size() / 2);
  count("operations_started_during_another", (unsigned long long)overlaps);
  count("thread_groups");
  if (overlaps) nontrivial();
  between();
  for (int t = 0; t < n; t++) {
    Rng r(seeds[t]);
    Hash H;
    for (int s = 0; s < steps; s++) H(fn(t, s, r));
    CHECK(H.h == lanes[t].result, "thread %d of %d obtained a different result than the same operations run alone", t, n);
    count("thread_results_compared");
  }
}
template <class Fn>
void concurrently(Rng& R, int n, int steps, const Fn& fn) {
  concurrently(R, n, steps, fn, [] {});
}

template <class A>
void fill_random(Rng& R, A& a) {
  long k = R.range(1, 50);
  to_mshape(a.shape()).each([&](const Idx& i) { call_idx<A::rank()>(a, i) = (typename A::value_type)((k = k * 5 + 3) % 97); });
}

// ---------------------------------------------------------------- const operations on shared arrays
template <class A, size_t Rank = A::rank()>
struct RankOps {
  static uint64_t run(const A&, const A&, Rng&, int) { return 0; }
};
// A crop of one dim.
template <class D>
nda::interval<> inner(const D& d, Rng& r) {
  long e = (long)d.extent(), a = r.below(e), n = r.range(0, e - a);
  return nda::interval<>((index_t)(d.min() + a), (index_t)n);
}
template <class A>
struct RankOps<A, 1> {
  static uint64_t run(const A& a, const A& b, Rng& r, int k) {
    Hash H;
    using T = typename std::remove_const<typename A::value_type>::type;
    switch (k % 5) {
    case 0: hash_array(H, a(inner(a.x(), r))); break;
    case 1: H(nda::make_ein_sum<T>(nda::ein<0>(a) * nda::ein<0>(b))()); break;
    case 2: for (auto i : nda::split(a.x(), (index_t)r.range(1, 4))) hash_array(H, b(i)); break;
    case 3: hash_array(H, a(nda::_)); break;
    default: {
      nda::dense_array<T, 2> o({(index_t)4, (index_t)3}, (T)1);
      nda::dense_array<T, 1> x({(index_t)3}, (T)0);
      enum { i = 0, j = 1 };
      nda::ein_reduce(nda::ein<j>(x) += nda::ein<i, j>(o) * nda::ein<j>(x));
      hash_array(H, x);
      H(nda::make_ein_sum<T>(nda::ein<0>(a))());
    }
    }
    return H.h;
  }
};
template <class A>
struct RankOps<A, 2> {
  static uint64_t run(const A& a, const A& b, Rng& r, int k) {
    Hash H;
    using T = typename std::remove_const<typename A::value_type>::type;
    enum { i = 0, j = 1, l = 2 };
    index_t x0 = a.x().min() + (index_t)r.below((long)a.x().extent()), y0 = a.y().min() + (index_t)r.below((long)a.y().extent());
    switch (k % 9) {
    case 0: hash_array(H, a(inner(a.x(), r), inner(a.y(), r))); break;
    case 1: hash_array(H, a(x0, nda::_)); break;
    case 2: hash_array(H, a(nda::_, y0)); break;
    case 3: hash_array(H, nda::transpose<1, 0>(a)); hash_array(H, nda::reorder<1, 0>(b)); break;
    case 4: hash_array(H, nda::make_ein_sum<T, i, j>(nda::ein<i, l>(a) * nda::ein<j, l>(b))); break;
    case 5: {
      nda::dense_array<T, 1> s({nda::dense_dim<>(a.x().min(), a.x().extent())}, (T)0);
      nda::ein_reduce(nda::ein<i>(s) += nda::ein<i, j>(a) - nda::ein<i, j>(b));
      hash_array(H, s);
      break;
    }
    case 6:
      for (auto yo : nda::split(a.y(), (index_t)r.range(1, 4)))
        for (auto xo : nda::split(a.x(), (index_t)r.range(1, 5))) hash_array(H, a(xo, yo));
      break;
    case 7: nda::for_all_in_z_order(std::make_tuple(a.x(), a.y()), [&](index_t x, index_t y) { H(a(x, y)); }); break;
    default: {
      nda::for_all_indices(a.shape(), [&](index_t x, index_t y) { H(a(x, y)); });
      nda::for_all_indices<1, 0>(b.shape(), [&](index_t x, index_t y) { H(b(x, y)); });
    }
    }
    return H.h;
  }
};
template <class A>
struct RankOps<A, 3> {
  static uint64_t run(const A& a, const A& b, Rng& r, int k) {
    Hash H;
    using T = typename std::remove_const<typename A::value_type>::type;
    enum { i = 0, j = 1, l = 2 };
    index_t c0 = a.c().min() + (index_t)r.below((long)a.c().extent());
    index_t x0 = a.x().min() + (index_t)r.below((long)a.x().extent());
    index_t y0 = a.y().min() + (index_t)r.below((long)a.y().extent());
    index_t X = a.x().min(), Y = a.y().min(), W = a.x().extent(), Hh = a.y().extent();
    switch (k % 9) {
    case 0: hash_array(H, a(inner(a.x(), r), inner(a.y(), r), inner(a.c(), r))); break;
    case 1: hash_array(H, nda::slice_channel(a, c0)); break;
    case 2: hash_array(H, nda::crop(a, X + 1, Y, X + W - 1, Y + Hh)); break;
    case 3: hash_array(H, nda::crop(b, X - 1, Y + 1, X + W, Y + Hh + 1, nda::crop_origin::zero)); break;
    case 4: hash_array(H, nda::transpose<2, 0, 1>(a)); break;
    case 5: hash_array(H, a(x0, nda::_, c0)); hash_array(H, a(nda::_, y0, nda::_)); break;
    case 6: hash_array(H, nda::make_ein_sum<T, l, i>(nda::ein<i, j, l>(a) * nda::ein<i, j, l>(b))); break;
    case 7: nda::for_all_in_z_order(std::make_tuple(a.x(), a.y(), a.c()), [&](index_t x, index_t y, index_t c) { H(a(x, y, c)); }); break;
    default: {
      auto s = nda::crop_image_shape(a.shape(), X, Y, X + 1, Y + 1);
      for (auto& d : to_mshape(s).d) H(d);
    }
    }
    return H.h;
  }
};

template <class A>
uint64_t const_op(const A& a, const A& b, Rng& r, std::integral_constant<bool, true> /*is array*/) {
  Hash H;
  using T = typename A::value_type;
  constexpr size_t R = A::rank();
  switch (r.below(7)) {
  case 0: {
    A c(a);
    hash_array(H, c);
    break;
  }
  case 1: {
    A c(b);
    c = a;
    H(c == a);
    hash_array(H, c);
    break;
  }
  case 2: {
    A c(a, b.get_allocator());
    A d(std::move(c));
    hash_array(H, d);
    break;
  }
  case 3: {
    A c = nda::make_copy(a, a.shape(), a.get_allocator());
    nda::swap(c, c);
    A d(b);
    swap(c, d);
    hash_array(H, c);
    hash_array(H, d);
    break;
  }
  case 4: {
    nda::const_array_ref<T, typename A::shape_type> cr = a.cref(), cr2 = b;
    hash_array(H, cr);
    H(cr == cr2);
    H(cr != a);
    break;
  }
  case 5: {
    A c(a);
    auto s = c.shape();
    c.set_shape(s);
    c.reshape(s);
    H(equal(c, a));
    hash_array(H, c);
    break;
  }
  default: {
    hash_array(H, nda::convert_shape<nda::shape_of_rank<R>>(a));
    hash_array(H, nda::reinterpret_shape(a, a.shape()));
    H(a.data() != nullptr && a.base() != nullptr && a.cref().base() == a.base());
  }
  }
  return H.h;
}
template <class A>
uint64_t const_op(const A& a, const A& b, Rng& r, std::integral_constant<bool, false>) {
  Hash H;
  A c = a;
  H(c == b);
  hash_array(H, c);
  if (r.chance(50)) c = b;
  hash_array(H, c);
  return H.h;
}
template <class T, class S, class Al>
std::true_type is_arr(const nda::array<T, S, Al>&);
template <class T, class S>
std::false_type is_arr(const nda::array_ref<T, S>&);

template <class A>
uint64_t generic_op(const A& a, const A& b, Rng& r) {
  Hash H;
  using T = typename std::remove_const<typename A::value_type>::type;
  constexpr size_t R = A::rank();
  switch (r.below(14)) {
  case 0: hash_array(H, a); break;
  case 1: {
    uint64_t n = 0, s = 0;
    a.for_each_value([&](const T& x) { n++; s += (uint64_t)x; });
    H(n);
    H(s);
    break;
  }
  case 2: hash_array(H, nda::make_copy(a)); break;
  case 3: hash_array(H, nda::make_compact_copy(a)); break;
  case 4: H(nda::equal(a, b)); H(a == b); H(a != b); break;
  case 5: {
    nda::array<T, nda::dense_shape<R>> c(a.bounds(), (T)7);
    nda::copy(a, c);
    hash_array(H, c);
    break;
  }
  case 6: {
    const auto& s = a.shape();
    H(s.size());
    H(s.flat_min());
    H(s.flat_max());
    H(s.flat_extent());
    H(s.is_compact());
    H(s.is_one_to_one());
    H(s.is_subset_of(b.shape(), 0));
    H(s == b.shape());
    H(s.empty());
    for (auto& d : to_mshape(s.bounds()).d) H(d.ext);
    for (auto& d : to_mshape(nda::make_compact(s)).d) H(d.str);
    nda::shape_of_rank<R> dynamic = s;
    H(dynamic == s);
    H(nda::is_compatible<nda::shape_of_rank<R>>(s));
    break;
  }
  case 7:
    nda::for_each_index(a.shape(), [&](const typename A::shape_type::index_type& i) { H(a[i]); });
    nda::for_each_index(a.shape(), [&](const typename A::shape_type::index_type& i) { H(b[i]); });
    break;
  case 8: {
    nda::array<T, nda::shape_of_rank<R>> c(a.bounds());
    nda::generate(c, [k = (T)0]() mutable { return k = (T)(k + 1); });
    nda::transform_index(c, [&](const nda::index_of_rank<R>& i) { return b[i]; });
    hash_array(H, c);
    c = nda::make_copy(a, c.shape(), std::allocator<T>());
    hash_array(H, c);
    break;
  }
  case 9: {
    nda::array<T, nda::dense_shape<R>, nda::auto_allocator<T, 64>> c(a.bounds());
    nda::copy(b, c);
    auto d = std::move(c);
    hash_array(H, d);
    nda::array<T, nda::dense_shape<R>, nda::auto_allocator<T, 64>> e(d);
    e.reshape(e.shape());
    hash_array(H, e);
    break;
  }
  case 10: {
    nda::array<T, nda::dense_shape<R>, nda::uninitialized_std_allocator<T>> c(a.bounds());
    nda::copy(a, c);
    hash_array(H, c);
    break;
  }
  case 11: H(const_op(a, b, r, decltype(is_arr(a))())); break;
  default: H(RankOps<A>::run(a, b, r, (int)r.below(90))); break;
  }
  return H.h;
}

MShape nonempty_shape(Rng& R, size_t rank, long max_size) {
  GenOpts o;
  o.allow_empty = false;
  o.max_size = max_size;
  o.max_ext = 6;
  return gen_shape(R, rank, o);
}

template <class T, class Shape, class Alloc = std::allocator<T>>
void shared_case(Rng& R) {
  GenOpts o;
  o.allow_empty = false;
  o.max_size = 120;
  o.max_ext = 6;
  MShape m;
  if (!gen_for_type<Shape>(R, &m, o) || m.empty()) return;
  Shape s = from_mshape<Shape>(m);
  nda::array<T, Shape, Alloc> a(s), b(s);
  fill_random(R, a);
  fill_random(R, b);
  if (R.chance(40)) b = a;
  int n = (int)R.range(2, MAXT), steps = (int)R.range(3, 12);
  desc("shared %s %d threads %d steps", m.str().c_str(), n, steps);
  const auto& ca = a;
  const auto& cb = b;
  uint64_t h0;
  {
    Hash H;
    hash_array(H, ca);
    hash_array(H, cb);
    h0 = H.h;
  }
  if (R.chance(60)) {
    concurrently(R, n, steps, [&](int, int, Rng& r) { return generic_op(ca, cb, r); });
  } else {
    const auto ra = ca.cref(), rb = cb.cref();
    concurrently(R, n, steps, [&](int, int, Rng& r) { return generic_op(ra, rb, r); });
  }
  Hash H;
  hash_array(H, ca);
  hash_array(H, cb);
  CHECK(H.h == h0, "const operations changed a shared array");
}

// ---------------------------------------------------------------- writes through disjoint views
template <class V, class S>
uint64_t write_view(const V& v, const S& src, Rng& r) {
  using T = typename V::value_type;
  constexpr size_t R = V::rank();
  Hash H;
  T k = (T)r.range(1, 60);
  switch (r.below(10)) {
  case 0: nda::fill(v, k); break;
  case 1: nda::generate(v, [&] { return k = (T)(k * 3 + 1); }); break;
  case 2: nda::transform_index(v, [&](const typename V::index_type&) { return k = (T)(k + 2); }); break;
  case 3: v.for_each_value([&](T& x) { x = k; }); break;
  case 4: v.for_each_value([&](T& x) { x = (T)(x + k); }); break;
  case 5: nda::copy(src, v); break;
  case 6: nda::move(src, v); break;
  case 7: nda::copy(src, v); H(nda::equal(src, v)); break;
  case 8: nda::for_each_index(v.shape(), [&](const nda::index_of_rank<R>& i) { v[i] = k = (T)(k + 5); }); break;
  default: to_mshape(v.shape()).each([&](const Idx& i) { call_idx<R>(v, i) = (T)(call_idx<R>(v, i) ^ k); });
  }
  hash_array(H, v);
  return H.h;
}
template <class T, class S>
void fill_values(uint64_t seed, nda::array<T, S>& a) {
  Rng R(seed);
  fill_random(R, a);
}

template <class T, class Shape>
void disjoint_case(Rng& R) {
  GenOpts o;
  o.allow_empty = false;
  o.max_size = 300;
  o.max_ext = 14;
  MShape m;
  if (!gen_for_type<Shape>(R, &m, o) || m.empty() || !m.one_to_one()) return;
  Shape s = from_mshape<Shape>(m);
  nda::array<T, Shape> w(s), shared_src(s);
  uint64_t init = R.next();
  fill_values(init, w);
  fill_random(R, shared_src);
  const auto& src = shared_src;
  int n = (int)R.range(2, MAXT), steps = (int)R.range(2, 8), kind = (int)R.below(5);
  desc("disjoint %s %d threads %d steps kind %d", m.str().c_str(), n, steps, kind);
  long ey = m.d[1].ext, ex = m.d[0].ext, my = m.d[1].min, mx = m.d[0].min;
  index_t tile = (index_t)R.range(1, 4);
  auto body = [&](int t, int, Rng& r) -> uint64_t {
    Hash H;
    switch (kind) {
    case 0: // rows
      for (long y = my + t; y < my + ey; y += n) H(write_view(w(nda::_, (index_t)y), src(nda::_, (index_t)y), r));
      break;
    case 1: // columns (adjacent elements belong to different threads)
      for (long x = mx + t; x < mx + ex; x += n) H(write_view(w((index_t)x, nda::_), src((index_t)x, nda::_), r));
      break;
    case 2: { // tiles of the split of both dims
      int k = 0;
      for (auto yo : nda::split(w.y(), tile))
        for (auto xo : nda::split(w.x(), tile))
          if (k++ % n == t) H(write_view(w(xo, yo), src(xo, yo), r));
      break;
    }
    case 3: { // one crop per thread
      long lo = ex * t / n, hi = ex * (t + 1) / n;
      nda::interval<> c((index_t)(mx + lo), (index_t)(hi - lo));
      H(write_view(w(c, nda::_), src(c, nda::_), r));
      break;
    }
    default: { // a strip through a permuted view
      long lo = ey * t / n, hi = ey * (t + 1) / n;
      nda::interval<> c((index_t)(my + lo), (index_t)(hi - lo));
      auto v = nda::transpose<1, 0>(w);
      auto vs = nda::transpose<1, 0>(src);
      H(write_view(v(c, nda::_), vs(c, nda::_), r));
    }
    }
    return H.h;
  };
  nda::array<T, Shape> result;
  concurrently(R, n, steps, body, [&] {
    result = w;
    fill_values(init, w);
  });
  // The views are disjoint, so running the threads one after another gives the same array.
  CHECK(result == w, "concurrent writes through disjoint views gave a different array than sequential ones");
  count("disjoint_writes_compared");
}

// Tiled matrix multiply with one tile per thread, checked against the naive product.
void matmul_case(Rng& R) {
  index_t M = (index_t)R.range(4, 16), N = (index_t)R.range(4, 20), K = (index_t)R.range(1, 9);
  int n = (int)R.range(2, MAXT);
  desc("matmul %ldx%ldx%ld %d threads", (long)M, (long)K, (long)N, n);
  using T = int;
  nda::matrix<T> A({M, K}), B({K, N}), C({M, N}, (T)-1);
  fill_random(R, A);
  fill_random(R, B);
  const auto& ca = A;
  const auto& cb = B;
  index_t ti = (index_t)R.range(1, 4), tj = (index_t)R.range(1, 6);
  int how = (int)R.below(3);
  concurrently(R, n, 1, [&](int t, int, Rng&) -> uint64_t {
    int k = 0;
    for (auto io : nda::split(C.i(), ti))
      for (auto jo : nda::split(C.j(), tj)) {
        if (k++ % n != t) continue;
        auto tileC = C(io, jo);
        enum { i = 2, j = 1, l = 0 };
        if (how == 0) {
          nda::fill(tileC, (T)0);
          nda::ein_reduce(nda::ein<i, j>(tileC) += nda::ein<i, l>(ca) * nda::ein<l, j>(cb));
        } else if (how == 1) {
          T buffer[64];
          auto acc = nda::make_array_ref(buffer, nda::make_compact(tileC.shape()));
          nda::fill(acc, (T)0);
          nda::ein_reduce(nda::ein<i, j>(acc) += nda::ein<i, l>(ca) * nda::ein<l, j>(cb));
          nda::copy(acc, tileC);
        } else {
          for (index_t y : tileC.i())
            for (index_t x : tileC.j()) {
              tileC(y, x) = 0;
              for (index_t z : ca.j()) tileC(y, x) += ca(y, z) * cb(z, x);
            }
        }
      }
    return 0;
  });
  for (index_t y = 0; y < M; y++)
    for (index_t x = 0; x < N; x++) {
      T want = 0;
      for (index_t z = 0; z < K; z++) want += A(y, z) * B(z, x);
      CHECK_EQ(C(y, x), want, "product computed by threads");
    }
}

// ---------------------------------------------------------------- private arrays
template <class T, class Shape, class Alloc>
uint64_t private_op(Rng& r) {
  using A = nda::array<T, Shape, Alloc>;
  Hash H;
  GenOpts o;
  o.max_size = 80;
  o.max_ext = 6;
  MShape m, m2;
  if (!gen_for_type<Shape>(r, &m, o) || !gen_for_type<Shape>(r, &m2, o)) return 0;
  A a(from_mshape<Shape>(m), (T)3), b(from_mshape<Shape>(m2), (T)4), c;
  fill_random(r, a);
  for (int k = (int)r.range(2, 6); k--;) {
    switch (r.below(9)) {
    case 0: c = a; break;
    case 1: c = std::move(b); b = A(from_mshape<Shape>(m2), (T)9); break;
    case 2: swap(a, b); break;
    case 3: a.reshape(from_mshape<Shape>(r.chance(50) ? m : m2)); break;
    case 4: a.assign(from_mshape<Shape>(m2), (T)r.range(0, 50)); break;
    case 5: c = nda::make_copy(a, a.shape()); break;
    case 6: nda::fill(b, (T)r.range(0, 50)); break;
    case 7: b.clear(); b = A(from_mshape<Shape>(m), (T)2); break;
    default: { A d(a); c = d; H(d == c); }
    }
  }
  hash_array(H, a);
  hash_array(H, b);
  if (!c.empty()) hash_array(H, c);
  return H.h;
}
void private_case(Rng& R) {
  int n = (int)R.range(2, MAXT), steps = (int)R.range(2, 8);
  desc("private %d threads %d steps %ld", n, steps, R.below(1000000));
  concurrently(R, n, steps, [&](int, int, Rng& r) -> uint64_t {
    switch (r.below(6)) {
    case 0: return private_op<int, nda::shape_of_rank<2>, std::allocator<int>>(r);
    case 1: return private_op<short, nda::dense_shape<3>, std::allocator<short>>(r);
    case 2: return private_op<float, nda::dense_shape<2>, nda::auto_allocator<float, 20>>(r);
    case 3: return private_op<char, nda::chunky_image_shape<3>, std::allocator<char>>(r);
    case 4: return private_op<int, nda::shape_of_rank<1>, nda::auto_allocator<int, 8>>(r);
    default: {
      // Independent shapes and loops.
      Hash H;
      MShape m = nonempty_shape(r, 3, 60);
      for (auto& d : m.d) d.str = (long)nda::unresolved;
      auto s = dyn<3>(m);
      s.resolve();
      for (auto& d : to_mshape(s).d) H(d);
      nda::for_all_indices<2, 0, 1>(s, [&](index_t x, index_t y, index_t z) { H(x); H(y); H(z); });
      nda::for_all_in_z_order(std::make_tuple(s.x(), s.y(), s.z()), [&](index_t x, index_t y, index_t z) { H(x); H(y); H(z); });
      auto t = nda::transpose<1, 2, 0>(s);
      for (auto& d : to_mshape(t).d) H(d);
      return H.h;
    }
    }
  });
}
} // namespace

#if VERIF_PART == 1
GROUP(shared, 3000, 60000) {
  switch (I % 6) {
  case 0: shared_case<int, nda::shape_of_rank<2>>(R); break;
  case 1: shared_case<char, nda::dense_shape<2>>(R); break;
  case 2: shared_case<float, nda::shape_of_rank<1>>(R); break;
  case 3: shared_case<unsigned char, nda::chunky_image_shape<>>(R); break;
  case 4: shared_case<short, nda::shape_of_rank<3>>(R); break;
  default: shared_case<long, nda::matrix_shape<3, nda::dynamic>>(R); break;
  }
}
#else
GROUP(shared_auto, 1500, 20000) {
  switch (I % 3) {
  case 0: shared_case<int, nda::shape_of_rank<2>, nda::auto_allocator<int, 32>>(R); break;
  case 1: shared_case<float, nda::fixed_dense_shape<4, 3>, nda::auto_allocator<float, 12>>(R); break;
  default: shared_case<double, nda::planar_image_shape>(R); break;
  }
}
GROUP(disjoint, 2500, 40000) {
  switch (I % 5) {
  case 0: disjoint_case<int, nda::shape_of_rank<2>>(R); break;
  case 1: disjoint_case<unsigned char, nda::dense_shape<2>>(R); break;
  case 2: disjoint_case<short, nda::matrix_shape<>>(R); break;
  case 3: disjoint_case<signed char, nda::shape_of_rank<2>>(R); break;
  default: disjoint_case<long, nda::matrix_shape<nda::dynamic, 12>>(R); break;
  }
}
GROUP(matmul, 1000, 20000) { matmul_case(R); }
GROUP(independent, 1500, 30000) { private_case(R); }
#endif
HARNESS_MAIN
