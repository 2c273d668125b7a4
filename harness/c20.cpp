// C20: make_ein_sum and make_ein_reduce_shape infer the result and sum from the initial value.
#include "types.h"
#include "ein.h"
using namespace vh;
#ifndef VERIF_PART
#define VERIF_PART 1
#endif
#define EIN(...) decltype(f)::template e<__VA_ARGS__>
#define FUN(...) decltype(f)::template f<__VA_ARGS__>
#define SCA decltype(f)::s
#define CAST(T) decltype(f)::template cast<T>

// A stateful allocator; counts what it hands out.
static long g_live = 0, g_blocks = 0;
// Blocks from another allocator than this one.
static int g_id = 0;
static long g_foreign = 0;
template <class T>
struct IdAlloc {
  using value_type = T;
  int id;
  explicit IdAlloc(int i = 0) : id(i) {}
  template <class U>
  IdAlloc(const IdAlloc<U>& o) : id(o.id) {}
  T* allocate(size_t n) {
    g_live++, g_blocks++;
    g_foreign += id != g_id;
    return std::allocator<T>().allocate(n);
  }
  void deallocate(T* p, size_t n) {
    g_live--;
    std::allocator<T>().deallocate(p, n);
  }
  bool operator==(const IdAlloc& o) const { return id == o.id; }
  bool operator!=(const IdAlloc& o) const { return id != o.id; }
};

template <class Shape>
void check_inferred(const Shape& s, const MShape& want, const char* who) {
  MShape got = to_mshape(s);
  CHECK(got.same_bounds(want), "%s has bounds %s, expected %s", who, got.str().c_str(), want.str().c_str());
  if (want.empty()) return;
  long lo, hi;
  got.flat_range(&lo, &hi);
  CHECK(got.one_to_one() && hi - lo + 1 == got.size(), "%s %s is not compact", who, got.str().c_str());
}

// Result: bounds per result index from the first operand that uses it, values from the loop nest.
template <class T, size_t... ResultIs, class Form, class... Ops>
void sum_case(Rng& R, const char* name, Form form, Ops&... ops) {
  auto mexpr = form(ModF(), ops...);
  md::Bounds b;
  mexpr.bounds(b);
  MShape loops, want;
  for (auto& x : b) loops.d.push_back(x.ext < 0 ? MDim{0, 1, 0} : x);
  want.d = {b[ResultIs]...};
  long span = 1;
  for (auto& x : want.d) x.str = span, span *= std::max(1L, x.ext);
  // 0: default initial value; 1: given; 2: given, with an allocator.
  int mode = (int)R.below(3);
  const T init = mode == 0 ? T() : rnd<T>(R);
  std::vector<T> acc((size_t)std::max(1L, want.size()), init);
  long n = 0;
  loops.each([&](const Idx& i) {
    acc[(size_t)want.offset(Idx{i[ResultIs]...})] += mexpr(i);
    n++;
  });
  auto expr = form(LibF(), ops...);
  check_inferred(nda::make_ein_reduce_shape<ResultIs...>(expr), want, "make_ein_reduce_shape");
  auto check = [&](const auto& r) {
    static_assert(std::is_same<typename std::decay_t<decltype(r)>::value_type, T>::value, "the result has the given value type");
    check_inferred(r.shape(), want, "the result of make_ein_sum");
    CHECK((long)r.size() == want.size(), "result size");
    want.each([&](const Idx& i) { CHECK(call_idx<sizeof...(ResultIs)>(r, i) == acc[(size_t)want.offset(i)], "%s: result element %s is not the sum of the loop nest", name, idx_str(i).c_str()); });
  };
  if (mode == 0) check(nda::make_ein_sum<T, ResultIs...>(expr));
  else if (mode == 1) check(nda::make_ein_sum<T, ResultIs...>(expr, init));
  else {
    long live = g_live;
    int id = (int)R.range(1, 1000);
    g_id = id;
    g_foreign = 0;
    {
      auto r = nda::make_ein_sum<T, ResultIs...>(expr, init, IdAlloc<T>(id));
      CHECK(g_foreign == 0, "%ld blocks were obtained from another allocator than the given one", g_foreign);
      CHECK(r.get_allocator().id == id, "the result does not use the given allocator");
      if (want.size() > 0) CHECK(g_live == live + 1, "the result holds %ld blocks of the allocator", g_live - live);
      check(r);
    }
    CHECK(g_live == live, "blocks were not returned to the allocator");
    count("allocator_checks");
  }
  int u[] = {0, (ops.verify(name), 0)...};
  (void)u;
  count("loop_iterations", (unsigned long long)n);
  count("result_elements", (unsigned long long)want.size());
}

// Bounds of operands: the first to use a result index decides it, later ones may be larger there.
template <class T, int P, size_t... Is>
MShape next_shape(Rng& R, Tag<Arr<T, P, Is...>> t, const std::vector<MDim>& b, std::vector<bool>& seen, const std::vector<bool>& result) {
  std::vector<bool> wider(b.size());
  for (size_t i = 0; i < b.size(); i++) wider[i] = result[i] && seen[i];
  MShape m = operand_shape(R, t, b, false, wider);
  int u[] = {0, (seen[Is] = true, 0)...};
  (void)u;
  return m;
}
template <class T, size_t Loops, size_t... ResultIs, class... As, class Form, class... Extra, size_t... Ks>
void sum_impl(Rng& R, const char* name, TypeList<As...>, Form form, std::index_sequence<ResultIs...>, std::index_sequence<Ks...>, Extra&... extra) {
  std::vector<bool> fixed(Loops, false), seen(Loops, false), result(Loops, false);
  int u0[] = {0, (mark_fixed(Tag<As>(), fixed), 0)...};
  int u1[] = {0, (result[ResultIs] = true, 0)...};
  std::vector<MDim> b = gen_loops(R, Loops, fixed, 400);
  std::vector<MShape> ms;
  int u2[] = {0, (ms.push_back(next_shape(R, Tag<As>(), b, seen, result)), 0)...};
  desc("%s", name);
  long size = 1;
  for (auto& x : b) size *= x.ext;
  for (auto& m : ms) desc(" %s", m.str().c_str());
  if (size > 1) nontrivial();
  std::tuple<std::unique_ptr<As>...> t;
  int u3[] = {0, (std::get<Ks>(t).reset(new As(R, ms[Ks])), 0)...};
  int u4[] = {0, (std::get<Ks>(t)->protect(), 0)...};
  (void)u0, (void)u1, (void)u2, (void)u3, (void)u4;
  sum_case<T, ResultIs...>(R, name, form, *std::get<Ks>(t)..., extra...);
}
template <class T, size_t Loops, size_t... ResultIs>
struct Sum {
  template <class... As, class Form, class... Extra>
  static void run(Rng& R, const char* name, TypeList<As...> l, Form form, Extra&... extra) {
    sum_impl<T, Loops>(R, name, l, form, std::index_sequence<ResultIs...>(), std::index_sequence_for<As...>(), extra...);
  }
};
#define FORM(...) [](auto f, __VA_ARGS__)
struct Fn2 {
  uint64_t salt;
  explicit Fn2(Rng& R) : salt(R.next()) {}
  auto lib() const { uint64_t s = salt; return [s](nda::index_t i, nda::index_t j) { return Sym::raw(Sym::mix((uint64_t)i + s, (uint64_t)j, 3)); }; }
  auto model() const { uint64_t s = salt; return [s](const Idx& i) { return Sym::raw(Sym::mix((uint64_t)i[0] + s, (uint64_t)i[1], 3)); }; }
  void verify(const char*) {}
};
template <class T, size_t L, size_t... Rs>
struct Go {
  // Specs are given as three type lists.
  template <class L1, class L2, class L3, class Form, class... Extra>
  static void run(Rng& R, const char* name, L1 a, L2 b, L3 c, Form f, Extra&... extra) {
    switch (R.below(3)) {
    case 0: return Sum<T, L, Rs...>::run(R, name, a, f, extra...);
    case 1: return Sum<T, L, Rs...>::run(R, name, b, f, extra...);
    default: return Sum<T, L, Rs...>::run(R, name, c, f, extra...);
    }
  }
};
template <class T, size_t... Is>
struct Op {
  template <int K>
  using at = Arr<T, K, Is...>;
};
template <class T, size_t L, size_t... Rs, class Form, class O1, class... Extra>
void go1(Rng& R, const char* name, O1, Form f, Extra&... extra) {
  Go<T, L, Rs...>::run(R, name, TypeList<typename O1::template at<0>>(), TypeList<typename O1::template at<10>>(), TypeList<typename O1::template at<9>>(), f, extra...);
}
template <class T, size_t L, size_t... Rs, class Form, class O1, class O2, class... Extra>
void go2(Rng& R, const char* name, O1, O2, Form f, Extra&... extra) {
  Go<T, L, Rs...>::run(R, name, TypeList<typename O1::template at<3>, typename O2::template at<0>>(),
      TypeList<typename O1::template at<6>, typename O2::template at<10>>(), TypeList<typename O1::template at<1>, typename O2::template at<9>>(), f, extra...);
}
template <class T, size_t L, size_t... Rs, class Form, class O1, class O2, class O3, class... Extra>
void go3(Rng& R, const char* name, O1, O2, O3, Form f, Extra&... extra) {
  Go<T, L, Rs...>::run(R, name, TypeList<typename O1::template at<3>, typename O2::template at<0>, typename O3::template at<2>>(),
      TypeList<typename O1::template at<6>, typename O2::template at<10>, typename O3::template at<3>>(), TypeList<typename O1::template at<1>, typename O2::template at<9>, typename O3::template at<4>>(), f, extra...);
}
#if VERIF_PART == 1
GROUP(sums, 2400, 40000) {
  Scalar<Sym> s(R);
  Fn2 g(R);
  switch (I % 9) {
  case 0: return go2<Sym, 3, 0, 1>(R, "<0,1>(A(0,2) * B(2,1))", Op<Sym, 0, 2>(), Op<Sym, 2, 1>(), FORM(auto& A, auto& B) { return EIN(0, 2)(A) * EIN(2, 1)(B); });
  case 1: return go1<Sym, 1>(R, "<>(A(0,0))", Op<Sym, 0, 0>(), FORM(auto& A) { return EIN(0, 0)(A); });
  case 2: return go3<Sym, 1>(R, "<>((x(0) + y(0)) * z(0))", Op<Sym, 0>(), Op<Sym, 0>(), Op<Sym, 0>(), FORM(auto& x, auto& y, auto& z) { return (EIN(0)(x) + EIN(0)(y)) * EIN(0)(z); });
  case 3: return go2<Sym, 2, 0>(R, "<0>(A(0,1) * x(1))", Op<Sym, 0, 1>(), Op<Sym, 1>(), FORM(auto& A, auto& x) { return EIN(0, 1)(A) * EIN(1)(x); });
  case 4: return go2<Sym, 2, 1>(R, "<1>(x(0) - A(0,1))", Op<Sym, 0>(), Op<Sym, 0, 1>(), FORM(auto& x, auto& A) { return EIN(0)(x) - EIN(0, 1)(A); });
  case 5: return go1<Sym, 3, 2, 0>(R, "<2,0>(-A(0,1,2))", Op<Sym, 0, 1, 2>(), FORM(auto& A) { return -EIN(0, 1, 2)(A); });
  case 6: return go1<Sym, 2, 1, 0>(R, "<1,0>(fn(1,0) * A(0,1) + s)", Op<Sym, 0, 1>(), FORM(auto& A, auto& g, auto& s) { return FUN(1, 0)(g) * EIN(0, 1)(A) + SCA(s); }, g, s);
  case 7: return go3<Sym, 4, 3, 0>(R, "<3,0>(max(A(0,1), B(1,2)) / C(2,3))", Op<Sym, 0, 1>(), Op<Sym, 1, 2>(), Op<Sym, 2, 3>(), FORM(auto& A, auto& B, auto& C) { return max(EIN(0, 1)(A), EIN(1, 2)(B)) / EIN(2, 3)(C); });
  default: return go2<Sym, 2, 1, 0>(R, "<1,0>(A(1,0) - B(0,1)), elementwise", Op<Sym, 1, 0>(), Op<Sym, 0, 1>(), FORM(auto& A, auto& B) { return EIN(1, 0)(A) - EIN(0, 1)(B); });
  }
}
#else
GROUP(types, 1800, 30000) {
  Scalar<const int> s(R);
  switch (I % 7) {
  case 0: return go2<double, 2, 0>(R, "double <0>(cast<double>(A) * cast<double>(x))", Op<float, 0, 1>(), Op<int, 1>(), FORM(auto& A, auto& x) { return CAST(double)(EIN(0, 1)(A)) * CAST(double)(EIN(1)(x)); });
  case 1: return go1<int64_t, 2>(R, "int64 <>(A(0,1) * s)", Op<int16_t, 0, 1>(), FORM(auto& A, auto& s) { return EIN(0, 1)(A) * SCA(s); }, s);
  case 2: return go2<int, 3, 2, 1>(R, "int <2,1>(cast<int>(A(0,1)) * B(2,0))", Op<uint8_t, 0, 1>(), Op<int8_t, 2, 0>(), FORM(auto& A, auto& B) { return CAST(int)(EIN(0, 1)(A)) * EIN(2, 0)(B); });
  case 3: return go1<Sym2, 2, 1>(R, "Sym2 <1>(cast<Sym2>(A(1,0)))", Op<Sym, 1, 0>(), FORM(auto& A) { return CAST(Sym2)(EIN(1, 0)(A)); });
  case 4: return go3<Sym, 6, 5, 0, 3>(R, "<5,0,3>(A(0,2,5) - x(4) * B(1,3)), rank 6 loops", Op<Sym, 0, 2, 5>(), Op<Sym, 4>(), Op<Sym, 1, 3>(), FORM(auto& A, auto& x, auto& B) { return EIN(0, 2, 5)(A) - EIN(4)(x) * EIN(1, 3)(B); });
  case 5: return go1<Sym, 4, 3>(R, "<3>(A(1,3)), indices 0 and 2 unused", Op<Sym, 1, 3>(), FORM(auto& A) { return EIN(1, 3)(A); });
  default: return go1<Sym, 2, 0>(R, "<0>(A(0,1,0))", Op<Sym, 0, 1, 0>(), FORM(auto& A) { return EIN(0, 1, 0)(A); });
  }
}
GROUP(plain_storage, 600, 10000) {
  using nda::ein;
  Sym c3[3], c4[4], s = rnd<Sym>(R), init = rnd<Sym>(R);
  std::vector<Sym> p;
  long n = R.range(0, 7);
  for (auto& x : c3) x = rnd<Sym>(R);
  for (auto& x : c4) x = rnd<Sym>(R);
  for (long i = 0; i < n; i++) p.push_back(rnd<Sym>(R));
  p.reserve(8);
  desc("n %ld init %llx", n, (unsigned long long)init.h);
  nontrivial();
  const Sym* q = p.data();
  auto r = nda::make_ein_sum<Sym, 1, 0>(ein<0>(c3) * ein<1>(q, (size_t)n) - ein<2>(c4), init);
  MShape want;
  want.d = {{0, n, 1}, {0, 3, n}};
  check_inferred(r.shape(), want, "sum of plain operands");
  for (long j = 0; j < n; j++)
    for (int i = 0; i < 3; i++) {
      Sym w = init;
      for (int k = 0; k < 4; k++) w += c3[i] * p[(size_t)j] - c4[k];
      CHECK(r((nda::index_t)j, i) == w, "element (%ld, %d)", j, i);
    }
  auto t = nda::make_ein_sum<Sym>(ein(s) * ein(c4[1]), init);
  CHECK(t() == init + s * c4[1], "sum of scalars");
}
#endif
HARNESS_MAIN
