// C18: z-order traversal.
#include "model.h"
#include "types.h"
#include "array/z_order.h"
#include <deque>
using namespace vh;

// A random access iterator that records every dereference and aborts outside [0, n). It never
// holds a position outside [0, n] silently: dereferencing such a position is the violation.
struct Track {
  long n = 0, base = 0, derefs = 0;
};
struct TIter {
  using iterator_category = std::random_access_iterator_tag;
  using value_type = long;
  using difference_type = std::ptrdiff_t;
  using pointer = const long*;
  using reference = long;
  Track* t;
  long p;
  long operator*() const {
    CHECK(p >= 0 && p < t->n, "an element at position %ld of a range of %ld was accessed", p, t->n);
    t->derefs++;
    return t->base + p;
  }
  TIter operator+(std::ptrdiff_t k) const { return {t, p + (long)k}; }
  TIter operator-(std::ptrdiff_t k) const { return {t, p - (long)k}; }
  friend TIter operator+(std::ptrdiff_t k, const TIter& i) { return i + k; }
  TIter& operator+=(std::ptrdiff_t k) { p += (long)k; return *this; }
  TIter& operator-=(std::ptrdiff_t k) { p -= (long)k; return *this; }
  TIter& operator++() { p++; return *this; }
  TIter& operator--() { p--; return *this; }
  TIter operator++(int) { TIter o = *this; p++; return o; }
  TIter operator--(int) { TIter o = *this; p--; return o; }
  long operator[](std::ptrdiff_t k) const { return *(*this + k); }
  std::ptrdiff_t operator-(const TIter& o) const { return p - o.p; }
  bool operator==(const TIter& o) const { return p == o.p; }
  bool operator!=(const TIter& o) const { return p != o.p; }
  bool operator<(const TIter& o) const { return p < o.p; }
  bool operator>(const TIter& o) const { return p > o.p; }
  bool operator<=(const TIter& o) const { return p <= o.p; }
  bool operator>=(const TIter& o) const { return p >= o.p; }
};
struct TRange {
  Track* t;
  TIter begin() const { return {t, 0}; }
  TIter end() const { return {t, t->n}; }
};

// The specification: position a comes before b if the interleaved bits are smaller, the first
// range least significant. Compared without building the code, so any bit width works.
static bool msb_less(unsigned long a, unsigned long b) { return a < b && a < (a ^ b); }
static bool morton_less(const Idx& a, const Idx& b) {
  size_t best = 0;
  unsigned long x = 0;
  // The highest differing bit decides; ties between dimensions go to the later range.
  for (size_t k = 0; k < a.size(); k++) {
    unsigned long y = (unsigned long)a[k] ^ (unsigned long)b[k];
    if (!msb_less(y, x) && y != 0) best = k, x = y;
  }
  return a[best] < b[best];
}

template <size_t N>
struct Recorder {
  Idx ext;
  Idx last;
  long calls = 0, limit = 1;
  Recorder(const Idx& e) : ext(e) {
    for (long x : e) limit *= x;
  }
  void visit(const Idx& pos) {
    for (size_t k = 0; k < N; k++) CHECK(pos[k] >= 0 && pos[k] < ext[k], "position %s is outside the ranges", idx_str(pos).c_str());
    CHECK(calls < limit, "more calls than combinations (at %s)", idx_str(pos).c_str());
    if (calls) CHECK(morton_less(last, pos), "%s comes after %s", idx_str(pos).c_str(), idx_str(last).c_str());
    last = pos;
    calls++;
  }
  void done() {
    // Strictly increasing, in range and as many as there are: exactly once each.
    CHECK_EQ(calls, limit, "number of calls");
    count("visits", (unsigned long long)calls);
  }
};

template <size_t N, class Tuple, class Fn>
void both_forms(const Tuple& ranges, const Idx& ext, Fn&& to_pos) {
  {
    Recorder<N> r(ext);
    nda::for_each_in_z_order(ranges, [&](const auto& i) {
      static_assert(std::tuple_size<std::decay_t<decltype(i)>>::value == N, "");
      r.visit(to_pos(i));
    });
    r.done();
  }
  {
    Recorder<N> r(ext);
    nda::for_all_in_z_order(ranges, [&](const auto&... i) {
      static_assert(sizeof...(i) == N, "");
      r.visit(to_pos(std::make_tuple(i...)));
    });
    r.done();
  }
}

template <size_t... Is>
void tracked(const Idx& ext, const Idx& base, std::index_sequence<Is...>) {
  constexpr size_t N = sizeof...(Is);
  std::vector<Track> t(N);
  for (size_t k = 0; k < N; k++) t[k].n = ext[k], t[k].base = base[k];
  auto ranges = std::make_tuple(TRange{&t[Is]}...);
  both_forms<N>(ranges, ext, [&](const auto& i) { return Idx{(std::get<Is>(i) - base[Is])...}; });
  for (size_t k = 0; k < N; k++) count("elements_tracked", (unsigned long long)t[k].derefs);
}
template <size_t... Is>
void intervals(const Idx& ext, const Idx& base, std::index_sequence<Is...>) {
  constexpr size_t N = sizeof...(Is);
  auto ranges = std::make_tuple(nda::interval<>(base[Is], ext[Is])...);
  both_forms<N>(ranges, ext, [&](const auto& i) { return Idx{((long)std::get<Is>(i) - base[Is])...}; });
  auto dims = std::make_tuple(nda::dim<>(base[Is], ext[Is], 3)...);
  both_forms<N>(dims, ext, [&](const auto& i) { return Idx{((long)std::get<Is>(i) - base[Is])...}; });
}
template <size_t... Is>
void vectors(const Idx& ext, std::index_sequence<Is...>) {
  constexpr size_t N = sizeof...(Is);
  std::vector<std::vector<int>> v(N);
  std::deque<long> q;
  for (size_t k = 0; k < N; k++)
    for (long i = 0; i < ext[k]; i++) v[k].push_back((int)(i * 7 + 3));
  auto ranges = std::tie(v[Is]...);
  both_forms<N>(ranges, ext, [&](const auto& i) { return Idx{(long)((std::get<Is>(i) - 3) / 7)...}; });
}

static long total(const Idx& e) {
  long n = 1;
  for (long x : e) n *= x;
  return n;
}
static long pick_extent(Rng& R, long left) {
  long e;
  switch (R.below(8)) {
  case 0: e = 1; break;
  case 1: e = R.chance(15) ? 0 : 2; break;
  case 2: e = 1L << R.below(7); break;
  case 3: e = (1L << R.below(7)) + 1; break;
  case 4: e = std::max(1L, (1L << R.below(7)) - 1); break;
  case 5: e = R.range(1, 40); break;
  default: e = R.range(1, 8); break;
  }
  return std::min(e, std::max(1L, left));
}
template <size_t N>
void run(Rng& R, const Idx& ext) {
  Idx base;
  for (size_t k = 0; k < N; k++) base.push_back(R.pick<long>({0, 0, -9, 5, -3, 1000, -1000}));
  desc("extents %s bases %s", idx_str(ext).c_str(), idx_str(base).c_str());
  if (total(ext) > 1) nontrivial();
  if (total(ext) == 0) count("empty_traversals");
  auto seq = std::make_index_sequence<N>();
  tracked(ext, base, seq);
  intervals(ext, base, seq);
  vectors(ext, seq);
}

// Every combination of small extents.
GROUP(small1, 40, 40) { run<1>(R, {I}); }
GROUP(small2, 18 * 18, 18 * 18) { run<2>(R, {I % 18, I / 18}); }
GROUP(small3, 512, 1000) {
  long n = I < 512 ? 8 : 10, i = I;
  run<3>(R, {i % n, i / n % n, i / n / n % n});
}
GROUP(random, 1200, 24000) {
  size_t n = (size_t)R.range(1, 5);
  Idx e;
  for (size_t k = 0; k < n; k++) e.push_back(pick_extent(R, 5000 / std::max(1L, total(e))));
  with_rank<1, 5>(n, [&](auto r) { run<decltype(r)::value>(R, e); });
}
GROUP(large, 10, 60) {
  // Long thin ranges: positions with many bits.
  Idx e = {R.range(1, 3), R.range(1, 3), R.range(1, 3)};
  e[(size_t)R.below(3)] = R.pick<long>({4096, 4097, 10000, 65537, 99999});
  run<3>(R, e);
}
// Ranges obtained by splitting, and arrays as ranges of dims: the tiled traversals of the examples.
GROUP(splits, 300, 6000) {
  long X = R.range(8, 70), Y = R.range(1, 40), n = R.range(1, 7);
  desc("split<8>(%ld) and split(%ld, %ld)", X, Y, n);
  nontrivial();
  auto sx = nda::split<8>(nda::interval<>(0, X));
  auto sy = nda::split(nda::interval<>(-5, Y), n);
  Idx ext = {(X + 7) / 8, (Y + n - 1) / n};
  both_forms<2>(std::make_tuple(sx, sy), ext, [&](const auto& i) {
    auto x = std::get<0>(i);
    auto y = std::get<1>(i);
    long px = x.min() == X - 8 ? ext[0] - 1 : x.min() / 8;
    return Idx{px, (long)(y.min() + 5) / n};
  });
}
// Dimensions of an array: writing through each combination covers the array.
GROUP(dims_of_array, 300, 6000) {
  GenOpts o;
  o.max_size = 800;
  MShape m = gen_shape(R, 3, o);
  desc("%s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  Arena<int64_t> a(m);
  auto s = dyn<3>(m);
  nda::array_ref<int64_t, nda::shape_of_rank<3>> ref(a.base, s);
  m.each([&](const Idx& i) { call_idx<3>(ref, i) = 0; });
  a.protect();
  long k = 0;
  nda::for_all_in_z_order(std::make_tuple(ref.x(), ref.y(), ref.z()), [&](nda::index_t x, nda::index_t y, nda::index_t z) {
    Idx i = {(long)x, (long)y, (long)z};
    CHECK(m.contains(i), "index %s is outside the array", idx_str(i).c_str());
    CHECK(++k <= m.size(), "more calls than elements");
    ref(x, y, z)++;
  });
  m.each([&](const Idx& i) { CHECK(call_idx<3>(ref, i) == 1, "element %s was visited %ld times", idx_str(i).c_str(), (long)call_idx<3>(ref, i)); });
  a.verify("z-order over dims");
}
HARNESS_MAIN
