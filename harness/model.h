// An independent executable model of shapes: a shape is a list of (min, extent, stride).
// Nothing here uses the library's own arithmetic.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H

#include "common.h"

#include <algorithm>
#include <array>

#include "array/array.h"

namespace vh {

using nda::index_t;
using Idx = std::vector<long>;

struct MDim {
  long min = 0, ext = 0, str = 0;
  long max() const { return min + ext - 1; }
  bool operator==(const MDim& o) const { return min == o.min && ext == o.ext && str == o.str; }
};

struct MShape {
  std::vector<MDim> d;
  size_t rank() const { return d.size(); }
  bool empty() const {
    for (auto& x : d)
      if (x.ext <= 0) return true;
    return false;
  }
  long size() const {
    long n = 1;
    for (auto& x : d) n *= x.ext > 0 ? x.ext : 0;
    return n;
  }
  long offset(const Idx& i) const {
    long o = 0;
    for (size_t k = 0; k < d.size(); k++) o += (i[k] - d[k].min) * d[k].str;
    return o;
  }
  bool contains(const Idx& i) const {
    for (size_t k = 0; k < d.size(); k++)
      if (i[k] < d[k].min || i[k] >= d[k].min + d[k].ext) return false;
    return true;
  }
  // All indices, dimension 0 innermost.
  template <class Fn>
  void each(Fn&& fn) const {
    if (empty()) return;
    Idx i(d.size());
    for (size_t k = 0; k < d.size(); k++) i[k] = d[k].min;
    for (;;) {
      fn((const Idx&)i);
      size_t k = 0;
      for (; k < d.size(); k++) {
        if (++i[k] < d[k].min + d[k].ext) break;
        i[k] = d[k].min;
      }
      if (k == d.size()) return;
    }
  }
  // All indices with a given loop order: order[0] innermost.
  template <class Fn>
  void each_ordered(const std::vector<size_t>& order, Fn&& fn) const {
    if (empty()) return;
    Idx i(d.size());
    for (size_t k = 0; k < d.size(); k++) i[k] = d[k].min;
    for (;;) {
      fn((const Idx&)i);
      size_t k = 0;
      for (; k < order.size(); k++) {
        size_t q = order[k];
        if (++i[q] < d[q].min + d[q].ext) break;
        i[q] = d[q].min;
      }
      if (k == order.size()) return;
    }
  }
  std::vector<Idx> indices() const {
    std::vector<Idx> r;
    each([&](const Idx& i) { r.push_back(i); });
    return r;
  }
  // Flat range by enumeration of the corners of each dimension (non-empty shapes).
  void flat_range(long* lo, long* hi) const {
    *lo = 0;
    *hi = 0;
    for (auto& x : d) {
      long e = (x.ext - 1) * x.str;
      if (e < 0) *lo += e;
      else *hi += e;
    }
  }
  bool one_to_one() const {
    std::vector<long> offs;
    each([&](const Idx& i) { offs.push_back(offset(i)); });
    std::sort(offs.begin(), offs.end());
    return std::adjacent_find(offs.begin(), offs.end()) == offs.end();
  }
  std::set<long> flat_set() const {
    std::set<long> r;
    each([&](const Idx& i) { r.insert(offset(i)); });
    return r;
  }
  bool operator==(const MShape& o) const { return d == o.d; }
  bool same_bounds(const MShape& o) const {
    if (d.size() != o.d.size()) return false;
    for (size_t k = 0; k < d.size(); k++)
      if (d[k].min != o.d[k].min || d[k].ext != o.d[k].ext) return false;
    return true;
  }
  std::string str() const {
    std::string r = "{";
    char b[100];
    for (auto& x : d) {
      if (x.str == (long)nda::unresolved) snprintf(b, sizeof b, "(%ld,%ld,?)", x.min, x.ext);
      else snprintf(b, sizeof b, "(%ld,%ld,%ld)", x.min, x.ext, x.str);
      r += b;
    }
    return r + "}";
  }
};

inline std::string idx_str(const Idx& i) {
  std::string r = "(";
  for (size_t k = 0; k < i.size(); k++) r += (k ? "," : "") + std::to_string(i[k]);
  return r + ")";
}

// ---------------------------------------------------------------- conversions to and from the library
template <class Dim>
MDim to_mdim(const Dim& d) {
  MDim m;
  m.min = (long)d.min();
  m.ext = (long)d.extent();
  m.str = (long)d.stride();
  return m;
}
template <class Dims, size_t... Is>
MShape to_mshape_impl(const Dims& dims, std::index_sequence<Is...>) {
  MShape r;
  r.d = std::vector<MDim>{to_mdim(std::get<Is>(dims))...};
  return r;
}
template <class Shape>
MShape to_mshape(const Shape& s) {
  return to_mshape_impl(s.dims(), std::make_index_sequence<Shape::rank()>());
}

template <class Tuple, size_t... Is>
Idx to_idx_impl(const Tuple& t, std::index_sequence<Is...>) {
  (void)t;
  return Idx{(long)std::get<Is>(t)...};
}
template <class Tuple>
Idx to_idx(const Tuple& t) {
  return to_idx_impl(t, std::make_index_sequence<std::tuple_size<Tuple>::value>());
}
template <size_t R, size_t... Is>
nda::index_of_rank<R> from_idx_impl(const Idx& i, std::index_sequence<Is...>) {
  (void)i;
  return nda::index_of_rank<R>((index_t)i[Is]...);
}
template <size_t R>
nda::index_of_rank<R> from_idx(const Idx& i) {
  return from_idx_impl<R>(i, std::make_index_sequence<R>());
}

// Make a library shape of type Shape with the values of m; static parameters must already agree.
template <class Shape, size_t... Is>
Shape from_mshape_impl(const MShape& m, std::index_sequence<Is...>) {
  (void)m;
  return Shape(typename std::tuple_element<Is, typename Shape::dims_type>::type(
      (index_t)m.d[Is].min, (index_t)m.d[Is].ext, (index_t)m.d[Is].str)...);
}
template <class Shape, class = std::enable_if_t<(Shape::rank() > 0)>>
Shape from_mshape(const MShape& m) {
  return from_mshape_impl<Shape>(m, std::make_index_sequence<Shape::rank()>());
}
template <class Shape, class = std::enable_if_t<(Shape::rank() == 0)>, class = void>
Shape from_mshape(const MShape&) {
  return Shape();
}
template <size_t R>
nda::shape_of_rank<R> dyn(const MShape& m) {
  return from_mshape<nda::shape_of_rank<R>>(m);
}

// Call array_or_ref(i0, i1, ...) with the entries of an index.
template <size_t R, class A, size_t... Is>
decltype(auto) call_idx_impl(A& a, const Idx& i, std::index_sequence<Is...>) {
  (void)i;
  return a((index_t)i[Is]...);
}
template <size_t R, class A>
decltype(auto) call_idx(A& a, const Idx& i) {
  return call_idx_impl<R>(a, i, std::make_index_sequence<R>());
}

// Run fn(std::integral_constant<size_t, R>) for a runtime rank.
template <size_t Lo, size_t Hi, class Fn, std::enable_if_t<(Lo >= Hi), int> = 0>
void with_rank(size_t r, Fn&& fn) {
  if (r != Lo) harness_error("rank %zu out of range", r);
  fn(std::integral_constant<size_t, Lo>());
}
template <size_t Lo, size_t Hi, class Fn, std::enable_if_t<(Lo < Hi), int> = 0>
void with_rank(size_t r, Fn&& fn) {
  if (r == Lo) fn(std::integral_constant<size_t, Lo>());
  else with_rank<Lo + 1, Hi>(r, fn);
}

// ---------------------------------------------------------------- random shapes
struct GenOpts {
  bool allow_empty = true;
  bool allow_broadcast = false;
  bool allow_negative = true;
  int pad_percent = 35;
  long max_size = 2000;
  long max_ext = 9;
  int long_percent = 5; // chance of one long dimension
  bool small_mins = false;
  int empty_percent = 0; // of additional empty dims
};

inline long gen_min(Rng& R, bool small = false) {
  // Indices that do not fit in 32 bits, where index_t is wider.
  if (!small && sizeof(nda::index_t) > 4 && R.chance(3)) return (R.chance(50) ? 1L : -1L) * (1L << R.pick<long>({31, 32, 33, 40})) + R.range(-5, 5);
  switch (R.below(small ? 4 : 6)) {
  case 0: return 0;
  case 1: return R.range(-5, 5);
  case 2: return -9; // the library's `dynamic` sentinel as a runtime value
  case 3: return R.range(-20, 20);
  case 4: return R.range(-1000000, 1000000);
  default: return R.range(-3, 3);
  }
}
inline long gen_ext(Rng& R, const GenOpts& o) {
  long e;
  if (o.empty_percent && o.allow_empty && R.chance(o.empty_percent)) return 0;
  switch (R.below(10)) {
  case 0: e = 1; break;
  case 1: e = o.allow_empty && R.chance(25) ? 0 : 1; break;
  case 2: e = 2; break;
  case 3: e = R.range(1, 3); break;
  case 4: e = R.range(4, 8); break;
  case 5: e = R.chance(15) ? 9 * R.range(1, 4) : 4; break;
  default: e = R.range(1, 6); break;
  }
  return e > o.max_ext && R.chance(80) ? R.range(1, o.max_ext) : e;
}

// Assign one-to-one strides (plus broadcast strides if allowed) in a random memory order with
// random padding. Dimensions nest: each stride is at least the span of the denser dims.
inline void gen_strides(Rng& R, MShape& m, const GenOpts& o, const std::vector<size_t>* order_in = nullptr) {
  size_t n = m.rank();
  std::vector<size_t> order(n);
  for (size_t i = 0; i < n; i++) order[i] = i;
  if (order_in) order = *order_in;
  else if (!R.chance(35))
    for (size_t i = n; i > 1; i--) std::swap(order[i - 1], order[R.below((long)i)]);
  bool padded = R.chance(60);
  long span = R.chance(80) ? 1 : R.range(1, 4); // innermost stride
  for (size_t k : order) {
    if (o.allow_broadcast && R.chance(18)) {
      m.d[k].str = 0;
      continue;
    }
    long s = span;
    if (padded && R.chance(o.pad_percent)) s += R.range(1, 5);
    long e = std::max<long>(1, m.d[k].ext);
    span = s * e;
    if (padded && R.chance(10)) span += R.range(1, 3);
    m.d[k].str = o.allow_negative && R.chance(20) ? -s : s;
  }
  // Extent 1 dims may have any stride at all.
  for (auto& x : m.d)
    if (x.ext == 1 && R.chance(20)) x.str = R.pick<long>({0, 1, 2, 3, 7, 100, o.allow_negative ? -1L : 1L, o.allow_negative ? -9L : 9L});
}

inline MShape gen_bounds(Rng& R, size_t rank, const GenOpts& o) {
  MShape m;
  for (int tries = 0;; tries++) {
    m.d.assign(rank, MDim());
    long size = 1;
    for (auto& x : m.d) {
      x.min = gen_min(R, o.small_mins);
      x.ext = tries > 20 ? R.range(1, 3) : gen_ext(R, o);
      size *= x.ext ? x.ext : 1;
    }
    if (size > o.max_size) continue;
    if (rank > 0 && size > 0 && R.chance(o.long_percent)) {
      // One dimension long enough to cross the sizes at which implementations like to change strategy.
      MDim& x = m.d[(size_t)R.below((long)rank)];
      long e = R.pick<long>({16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 513, 1024, 1025});
      if (x.ext > 0 && size / x.ext * e <= 4 * o.max_size) x.ext = e;
    }
    return m;
  }
}
inline MShape gen_shape(Rng& R, size_t rank, const GenOpts& o = GenOpts()) {
  MShape m = gen_bounds(R, rank, o);
  gen_strides(R, m, o);
  return m;
}
inline std::vector<size_t> gen_perm(Rng& R, size_t n) {
  std::vector<size_t> p(n);
  for (size_t i = 0; i < n; i++) p[i] = i;
  for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[R.below((long)i)]);
  return p;
}
// A region with the same rank inside m.
inline MShape gen_subregion(Rng& R, const MShape& m, bool allow_empty = false) {
  MShape r = m;
  for (auto& x : r.d) {
    if (x.ext <= 0 || R.chance(40)) continue;
    long lo = R.below(x.ext), n = R.range(allow_empty && R.chance(5) ? 0 : 1, x.ext - lo);
    x.min += lo;
    x.ext = n;
  }
  return r;
}

// A model shape whose values satisfy the static parameters of Shape; the rest is random.
template <class Shape, size_t... Is>
void apply_static(MShape& m, std::index_sequence<Is...>) {
  using D = typename Shape::dims_type;
  (void)m;
  long mins[] = {0, (long)std::tuple_element<Is, D>::type::Min...};
  long exts[] = {0, (long)std::tuple_element<Is, D>::type::Extent...};
  for (size_t k = 0; k < Shape::rank(); k++) {
    if (mins[k + 1] != (long)nda::dynamic) m.d[k].min = mins[k + 1];
    if (exts[k + 1] != (long)nda::dynamic) m.d[k].ext = exts[k + 1];
  }
}
template <class Shape, size_t... Is>
std::vector<long> static_strides(std::index_sequence<Is...>) {
  using D = typename Shape::dims_type;
  std::vector<long> r{(long)std::tuple_element<Is, D>::type::Stride...};
  return r;
}

// Dims pairwise nest (no interleaving): used to state exactness of layout predicates.
inline bool nested(const MShape& m) {
  for (size_t a = 0; a < m.rank(); a++)
    for (size_t b = 0; b < m.rank(); b++) {
      if (a == b || m.d[a].ext <= 1 || m.d[b].ext <= 1) continue;
      long sa = labs(m.d[a].str), sb = labs(m.d[b].str);
      if (sa == 0 || sb == 0) continue;
      if (!(sa * m.d[a].ext <= sb || sb * m.d[b].ext <= sa)) return false;
    }
  return true;
}

// A random runtime shape compatible with the static type Shape, one-to-one unless a static stride
// is 0 (by rejection). Returns false if none was found.
template <class Shape>
bool gen_for_type(Rng& R, MShape* out, GenOpts o = GenOpts()) {
  constexpr size_t rank = Shape::rank();
  auto seq = std::make_index_sequence<rank>();
  std::vector<long> ss = static_strides<Shape>(seq);
  for (int tries = 0; tries < 60; tries++) {
    MShape m = gen_bounds(R, rank, o);
    apply_static<Shape>(m, seq);
    bool any_static = false;
    for (size_t k = 0; k < rank; k++) any_static |= ss[k] != (long)nda::dynamic;
    gen_strides(R, m, o);
    if (any_static) {
      for (size_t k = 0; k < rank; k++) m.d[k].str = ss[k] != (long)nda::dynamic ? ss[k] : 0;
      // Give the dynamic ones strides outside or inside what is fixed.
      std::vector<size_t> p = gen_perm(R, rank);
      long span = 1;
      for (size_t k = 0; k < rank; k++)
        if (ss[k] != (long)nda::dynamic) span = std::max(span, labs(m.d[k].str) * std::max<long>(1, m.d[k].ext));
      long inner = 1;
      for (size_t k : p) {
        if (ss[k] != (long)nda::dynamic) continue;
        long e = std::max<long>(1, m.d[k].ext);
        if (R.chance(30)) {
          m.d[k].str = inner;
          inner *= e;
        } else {
          long s = span + (R.chance(30) ? R.range(1, 3) : 0);
          m.d[k].str = s;
          span = s * e;
        }
        if (o.allow_negative && R.chance(20)) m.d[k].str = -m.d[k].str;
      }
    }
    if (m.size() > 4 * o.max_size) continue;
    bool has0 = false;
    for (auto& x : m.d) has0 |= x.str == 0 && x.ext > 1;
    if (has0 || m.one_to_one()) {
      *out = m;
      return true;
    }
  }
  return false;
}

// ---------------------------------------------------------------- guarded storage
// Storage for flat offsets [lo, hi] around a base pointer with guard elements on both sides.
// Offsets not in `used` hold a canary pattern and, under AddressSanitizer with 8-byte elements,
// are poisoned while protect()ed, so any read or write of them is reported.
template <class T>
struct Arena {
  static constexpr long G = 32;
  long lo, hi;
  std::vector<char> used;
  unsigned char* mem;
  size_t bytes;
  T* base;
  bool prot = false;

  Arena(const MShape& m) {
    lo = hi = 0;
    if (!m.empty()) m.flat_range(&lo, &hi);
    init();
    m.each([&](const Idx& i) { use(m.offset(i)); });
  }
  Arena(long lo_, long hi_) : lo(lo_), hi(hi_) { init(); }
  Arena(const Arena&) = delete;
  ~Arena() {
    unprotect();
    VH_UNPOISON(mem, bytes);
    free(mem);
  }
  void init() {
    long n = hi - lo + 1 + 2 * G;
    used.assign((size_t)n, 0);
    bytes = (size_t)n * sizeof(T);
    if (posix_memalign((void**)&mem, 64, bytes)) harness_error("out of memory");
    for (size_t i = 0; i < bytes; i++) mem[i] = canary(i);
    base = reinterpret_cast<T*>(mem) + (G - lo);
  }
  static unsigned char canary(size_t i) { return (unsigned char)(0xA5 ^ (i * 37) ^ (i >> 8)); }
  long slot(long off) const { return off - lo + G; }
  void use(long off) {
    if (off < lo || off > hi) harness_error("offset outside arena");
    used[(size_t)slot(off)] = 1;
  }
  void protect() {
    prot = true;
    if (sizeof(T) % 8 == 0)
      for (size_t i = 0; i < used.size(); i++)
        if (!used[i]) VH_POISON(mem + i * sizeof(T), sizeof(T));
  }
  void unprotect() {
    if (prot) VH_UNPOISON(mem, bytes);
    prot = false;
  }
  // Unprotect and verify that the unused slots were never written.
  void verify(const char* who) {
    unprotect();
    for (size_t i = 0; i < used.size(); i++) {
      if (used[i]) continue;
      for (size_t b = 0; b < sizeof(T); b++)
        if (mem[i * sizeof(T) + b] != canary(i * sizeof(T) + b))
          fail("%s: memory outside the elements was written at flat offset %ld", who, (long)i + lo - G);
    }
    count("gap_slots_verified", used.size());
  }
  bool in(const T* p) const { return p >= reinterpret_cast<const T*>(mem) && p < reinterpret_cast<const T*>(mem) + used.size(); }
};

} // namespace vh
#endif
