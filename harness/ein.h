// An independent interpreter of ein expressions, and operands that exist both as library arrays
// (over guarded storage) and as model arrays with identical contents.
#ifndef VERIF_EIN_H
#define VERIF_EIN_H
#include "model.h"
#include "array/ein_reduce.h"
#include <functional>
namespace vh {

// A value type with which every expression and every order of evaluation gives another result:
// each operation hashes its operands. Assignment operators are the operation, then assignment.
struct Sym {
  uint64_t h = 0;
  Sym() = default;
  template <class N, class = std::enable_if_t<std::is_arithmetic<N>::value>>
  Sym(N n) : h(n == N(0) ? 0 : mix((uint64_t)(long long)n, 0, 9)) {}
  static Sym raw(uint64_t h) {
    Sym s;
    s.h = h;
    return s;
  }
  static uint64_t mix(uint64_t a, uint64_t b, uint64_t op) {
    uint64_t z = a * 0x9e3779b97f4a7c15ull + b * 0xc2b2ae3d27d4eb4full + op * 0x165667b19e3779f9ull;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    return z ^ (z >> 29);
  }
  friend Sym operator+(const Sym& a, const Sym& b) { return raw(mix(a.h, b.h, 1)); }
  friend Sym operator-(const Sym& a, const Sym& b) { return raw(mix(a.h, b.h, 2)); }
  friend Sym operator*(const Sym& a, const Sym& b) { return raw(mix(a.h, b.h, 3)); }
  friend Sym operator/(const Sym& a, const Sym& b) { return raw(mix(a.h, b.h, 4)); }
  friend Sym operator-(const Sym& a) { return raw(mix(a.h, 0, 5)); }
  Sym& operator+=(const Sym& b) { return *this = *this + b; }
  Sym& operator-=(const Sym& b) { return *this = *this - b; }
  Sym& operator*=(const Sym& b) { return *this = *this * b; }
  friend bool operator<(const Sym& a, const Sym& b) { return a.h < b.h; }
  friend bool operator>(const Sym& a, const Sym& b) { return b < a; }
  friend bool operator<=(const Sym& a, const Sym& b) { return !(b < a); }
  friend bool operator>=(const Sym& a, const Sym& b) { return !(a < b); }
  bool operator==(const Sym& b) const { return h == b.h; }
  bool operator!=(const Sym& b) const { return h != b.h; }
};
struct Sym2 {
  uint64_t h = 0;
  Sym2() = default;
  explicit Sym2(const Sym& s) : h(Sym::mix(s.h, 0, 6)) {}
  friend Sym2 operator+(Sym2 a, const Sym2& b) { a.h = Sym::mix(a.h, b.h, 7); return a; }
  Sym2& operator+=(const Sym2& b) { return *this = *this + b; }
  bool operator==(const Sym2& b) const { return h == b.h; }
  bool operator!=(const Sym2& b) const { return h != b.h; }
};

template <class T>
T rnd(Rng& R) {
  long v = R.range(1, 7);
  return (T)(std::is_signed<T>::value && R.chance(40) ? -v : v);
}
template <>
inline Sym rnd<Sym>(Rng& R) {
  return Sym::raw(R.next());
}
template <>
inline Sym2 rnd<Sym2>(Rng& R) {
  return Sym2(Sym::raw(R.next()));
}

// ---------------------------------------------------------------- the model's expressions
namespace md {
struct Node {};
template <class T>
using is_node = std::enable_if_t<std::is_base_of<Node, std::decay_t<T>>::value>;
using Bounds = std::vector<MDim>; // per loop index; ext < 0 while unknown

inline void note(Bounds& b, size_t i, const MDim& d) {
  if (b.size() <= i) b.resize(i + 1, MDim{0, -1, 0});
  if (b[i].ext < 0) b[i] = d;
}
template <class F>
struct Fn : Node { // any expression but a leaf
  F f;
  std::function<void(Bounds&)> bounds;
  Fn(F f, std::function<void(Bounds&)> b) : f(f), bounds(b) {}
  auto operator()(const Idx& i) const { return f(i); }
};
template <class F>
Fn<F> fn(F f, std::function<void(Bounds&)> b) {
  return Fn<F>(f, b);
}
template <class A, class B>
std::function<void(Bounds&)> join(const A& a, const B& b) {
  return [a, b](Bounds& x) { a.bounds(x), b.bounds(x); };
}
template <class A, class = is_node<A>>
auto operator-(const A& a) {
  return fn([a](const Idx& i) { return -a(i); }, [a](Bounds& x) { a.bounds(x); });
}
#define VH_BIN(op)                                                                                 \
  template <class A, class B, class = is_node<A>, class = is_node<B>>                              \
  auto operator op(const A& a, const B& b) {                                                       \
    return fn([a, b](const Idx& i) { return a(i) op b(i); }, join(a, b));                          \
  }
VH_BIN(+)
VH_BIN(-)
VH_BIN(*)
VH_BIN(/)
#undef VH_BIN
template <class A, class B, class = is_node<A>, class = is_node<B>>
auto min(const A& a, const B& b) {
  return fn([a, b](const Idx& i) { auto x = a(i); auto y = b(i); return y < x ? y : x; }, join(a, b));
}
template <class A, class B, class = is_node<A>, class = is_node<B>>
auto max(const A& a, const B& b) {
  return fn([a, b](const Idx& i) { auto x = a(i); auto y = b(i); return x < y ? y : x; }, join(a, b));
}
template <class T, class A, class = is_node<A>>
auto cast(const A& a) {
  return fn([a](const Idx& i) { return static_cast<T>(a(i)); }, [a](Bounds& x) { a.bounds(x); });
}
// An assignment: run() executes the loop nest, index 0 innermost.
template <class L, class F>
struct Assign : Node {
  L lhs;
  F step;
  std::function<void(Bounds&)> bounds;
  size_t rank;
  Assign(L l, F s, std::function<void(Bounds&)> b, size_t r) : lhs(l), step(s), bounds(b), rank(r) {}
  long run() const {
    Bounds b;
    bounds(b);
    MShape m;
    for (size_t i = 0; i < b.size(); i++) m.d.push_back(b[i].ext < 0 ? MDim{0, 1, 0} : b[i]);
    long n = 0;
    m.each([&](const Idx& i) { step(i), n++; });
    return n;
  }
};
template <class L, class F>
Assign<L, F> assign(L l, F f, std::function<void(Bounds&)> b) {
  return Assign<L, F>(l, f, b, 0);
}
// Leaves: At returns a reference or value for an operand index.
template <class At, size_t... Is>
struct Leaf : Node {
  At at;
  std::vector<MDim> dims; // empty for callables
  Leaf(At a, std::vector<MDim> d) : at(a), dims(d) {}
  decltype(auto) operator()(const Idx& i) const { (void)i; return at(Idx{(long)i[Is]...}); }
  void bounds(Bounds& b) const {
    size_t is[] = {0, Is...};
    for (size_t k = 0; k < sizeof...(Is); k++) note(b, is[k + 1], dims.empty() ? MDim{0, -1, 0} : dims[k]);
  }
  template <class E, class = is_node<E>>
  auto operator=(const E& e) const {
    Leaf l = *this;
    return assign(l, [l, e](const Idx& i) { l(i) = e(i); }, join(l, e));
  }
  Leaf(const Leaf&) = default;
#define VH_ASSIGN(op)                                                                              \
  template <class E, class = is_node<E>>                                                           \
  auto operator op(const E& e) const {                                                             \
    Leaf l = *this;                                                                                \
    return assign(l, [l, e](const Idx& i) { l(i) op e(i); }, join(l, e));                          \
  }
  VH_ASSIGN(+=)
  VH_ASSIGN(-=)
  VH_ASSIGN(*=)
#undef VH_ASSIGN
};
template <size_t... Is, class At>
Leaf<At, Is...> leaf(At at, std::vector<MDim> d) {
  return Leaf<At, Is...>(at, d);
}
} // namespace md

// ---------------------------------------------------------------- operands that exist twice
// How a dimension addressed by loop index I is typed: 0 run time, 1 static bounds, 2 dense first dim.
constexpr long SMIN[] = {0, -1, 2, 0, 1, -3};
constexpr long SEXT[] = {4, 3, 5, 2, 3, 2};
template <int Policy, size_t I, size_t Pos>
using PDim = std::conditional_t<Policy == 1, nda::dim<SMIN[I], SEXT[I]>, std::conditional_t<Policy == 2 && Pos == 0, nda::dense_dim<>, nda::dim<>>>;
template <int Policy, class Pos, size_t... Is>
struct PShape;
template <int Policy, size_t... Pos, size_t... Is>
struct PShape<Policy, std::index_sequence<Pos...>, Is...> {
  using type = nda::shape<PDim<Policy, Is, Pos>...>;
};

// An array operand. P = policy + 3 * kind; kind 0 array_ref, 1 const_array_ref, 2 array, 3 const array.
template <class T, int P, size_t... Is>
struct Arr {
  static constexpr int policy = P % 3, kind = P / 3;
  static constexpr size_t rank = sizeof...(Is);
  using value_type = T;
  using Shape = typename PShape<policy, std::make_index_sequence<sizeof...(Is)>, Is...>::type;
  MShape m;
  std::unique_ptr<Arena<T>> mem;
  nda::array<T, Shape> own;
  std::vector<T> mod, init;
  T* mbase = nullptr;

  Arr(Rng& R, const MShape& m_) : m(m_) {
    Shape s = from_mshape<Shape>(m);
    if (kind < 2) mem.reset(new Arena<T>(m));
    else own = nda::array<T, Shape>(s);
    long lo = 0, hi = 0;
    if (!m.empty()) m.flat_range(&lo, &hi);
    mod.assign((size_t)(hi - lo + 1), T());
    mbase = mod.data() - lo;
    m.each([&](const Idx& i) { *at(i) = rnd<T>(R); });
    init = mod;
    m.each([&](const Idx& i) { *lib_at(i) = *at(i); });
  }
  T* at(const Idx& i) const { return mbase + m.offset(i); }
  T* lib_base() const { return kind < 2 ? mem->base : const_cast<T*>(own.base()); }
  T* lib_at(const Idx& i) const { return lib_base() + m.offset(i); }
  void protect() {
    if (mem) mem->protect();
  }
  // The library's contents equal the model's.
  void verify(const char* who) {
    if (mem) mem->unprotect();
    m.each([&](const Idx& i) {
      if (!(*lib_at(i) == *at(i))) fail("%s: element %s is not what the loop nest computes%s", who, idx_str(i).c_str(), *lib_at(i) == init[(size_t)(at(i) - mod.data())] ? " (it was not updated)" : "");
    });
    if (mem) mem->verify(who);
    count("elements_compared", (unsigned long long)m.size());
  }
  template <int K = kind, std::enable_if_t<K == 0, int> = 0>
  nda::array_ref<T, Shape> lib() { return nda::array_ref<T, Shape>(mem->base, from_mshape<Shape>(m)); }
  template <int K = kind, std::enable_if_t<K == 1, int> = 0>
  nda::const_array_ref<T, Shape> lib() { return nda::const_array_ref<T, Shape>(mem->base, from_mshape<Shape>(m)); }
  template <int K = kind, std::enable_if_t<K == 2, int> = 0>
  nda::array<T, Shape>& lib() { return own; }
  template <int K = kind, std::enable_if_t<K == 3, int> = 0>
  const nda::array<T, Shape>& lib() { return own; }
};

// A form is written once and built for the library or the model.
struct LibF {
  template <size_t... Is, class A>
  static auto e(A& a) { return nda::ein<Is...>(a.lib()); }
  template <size_t... Is, class F>
  static auto f(const F& g) { return nda::ein<Is...>(g.lib()); }
  template <class S>
  static auto s(S& x) { return nda::ein(x.lib); }
  template <class T, class E>
  static auto cast(const E& x) { return nda::cast<T>(x); }
};
struct ModF {
  template <size_t... Is, class A>
  static auto e(A& a) {
    auto* p = &a;
    return md::leaf<Is...>([p](const Idx& i) -> typename A::value_type& { return *p->at(i); }, p->m.d);
  }
  template <size_t... Is, class F>
  static auto f(const F& g) {
    auto h = g.model();
    return md::leaf<Is...>([h](const Idx& i) -> decltype(auto) { return h(i); }, {});
  }
  template <class S>
  static auto s(S& x) {
    auto* p = &x;
    return md::leaf<>([p](const Idx&) -> decltype((p->mod)) { return p->mod; }, {});
  }
  template <class T, class E>
  static auto cast(const E& x) { return md::cast<T>(x); }
};
// A scalar operand.
template <class T>
struct Scalar {
  T lib, mod, init;
  explicit Scalar(Rng& R) : lib(rnd<std::remove_const_t<T>>(R)), mod(lib), init(lib) {}
  void verify(const char* who) { CHECK(lib == mod, "%s: the scalar is not what the loop nest computes", who); }
};

// Random bounds for each loop index; static where a static-policy operand uses the index.
inline std::vector<MDim> gen_loops(Rng& R, size_t n, const std::vector<bool>& fixed, long max_size) {
  for (;;) {
    std::vector<MDim> b(n);
    long size = 1;
    for (size_t i = 0; i < n; i++) {
      b[i].min = fixed[i] ? SMIN[i] : gen_min(R);
      b[i].ext = fixed[i] ? SEXT[i] : R.chance(4) ? 0 : R.chance(15) ? 1 : R.chance(15) ? R.range(7, 12) : R.range(1, 6);
      size *= std::max(1L, b[i].ext);
    }
    if (size > max_size) continue;
    if (n > 0 && R.chance(6)) {
      // One long loop.
      size_t k = (size_t)R.below((long)n);
      long e = R.pick<long>({16, 17, 31, 32, 33, 63, 64, 65, 128, 129, 256, 257});
      if (!fixed[k] && size / std::max(1L, b[k].ext) * e <= 4 * max_size) b[k].ext = e;
    }
    return b;
  }
}
template <class T, int P, size_t... Is>
void mark_fixed(Tag<Arr<T, P, Is...>>, std::vector<bool>& f) {
  if (P % 3 == 1) {
    int unused[] = {0, (f[Is] = true, 0)...};
    (void)unused;
  }
}
// The model shape of an operand for the given loop bounds; lhs[i] tells that the result uses index i
// with a nonzero stride, so that operands may be larger there.
template <class T, int P, size_t... Is>
MShape operand_shape(Rng& R, Tag<Arr<T, P, Is...>>, const std::vector<MDim>& b, bool is_lhs, const std::vector<bool>& wider) {
  MShape m;
  m.d = {b[Is]...};
  std::vector<size_t> is{Is...};
  for (size_t k = 0; k < is.size(); k++) {
    m.d[k].str = 0;
    // Indices addressing two dims of this operand keep the exact bounds.
    bool twice = std::count(is.begin(), is.end(), is[k]) > 1;
    if (!is_lhs && wider[is[k]] && P % 3 != 1 && !twice && R.chance(35)) {
      long lo = R.range(0, 2);
      m.d[k].min -= lo;
      m.d[k].ext += lo + R.range(0, 2);
    }
  }
  GenOpts o;
  o.allow_broadcast = R.chance(25);
  if (P % 3 == 2) {
    // Dense first dim: others outside it.
    long span = 1;
    for (size_t k = 0; k < m.rank(); k++) {
      m.d[k].str = span;
      span *= std::max(1L, m.d[k].ext);
      if (R.chance(30)) span += R.range(1, 3);
    }
    return m;
  }
  gen_strides(R, m, o);
  return m;
}
} // namespace vh
#endif
