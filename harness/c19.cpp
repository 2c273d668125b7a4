// C19: ein_reduce computes what the naive loop nest computes.
#include "types.h"
#include "ein.h"
using namespace vh;
#ifndef VERIF_PART
#define VERIF_PART 1
#endif

// Index argument of forms; keeps `f.template e<...>` short.
#define EIN(...) decltype(f)::template e<__VA_ARGS__>
#define FUN(...) decltype(f)::template f<__VA_ARGS__>
#define SCA decltype(f)::s
#define CAST(T) decltype(f)::template cast<T>

template <class T, size_t... Is>
struct Spec {
  template <int P>
  using arr = Arr<T, P, Is...>;
};

template <class T, int P, size_t... Is>
void note_lhs(Tag<Arr<T, P, Is...>>, const MShape& m, std::vector<bool>& wider) {
  std::vector<size_t> is{Is...};
  std::vector<bool> seen(wider.size(), false);
  for (size_t k = 0; k < is.size(); k++) {
    if (!seen[is[k]]) wider[is[k]] = m.d[k].str != 0;
    // An index used twice by the result addresses both dims: both have the same bounds.
    seen[is[k]] = true;
  }
}
template <class Ret, class A, class = decltype(std::declval<Ret>().shape())>
void check_returned(const Ret& r, A& a) {
  CHECK(r.base() == a.lib_base(), "ein_reduce did not return the left-hand operand");
  CHECK(to_mshape(r.shape()) == a.m, "the returned operand has shape %s", to_mshape(r.shape()).str().c_str());
}

template <class Form, class... As, size_t... Ks, class... Extra>
void run_on(Rng& R, const char* name, Form form, const std::vector<MShape>& ms, long size, std::index_sequence<Ks...>, TypeList<As...>, Extra&... extra) {
  std::tuple<std::unique_ptr<As>...> t;
  int u0[] = {0, (std::get<Ks>(t).reset(new As(R, ms[Ks])), 0)...};
  int u1[] = {0, (std::get<Ks>(t)->protect(), 0)...};
  auto expr = form(LibF(), *std::get<Ks>(t)..., extra...);
  auto ret = nda::ein_reduce(expr);
  long n = form(ModF(), *std::get<Ks>(t)..., extra...).run();
  int u2[] = {0, (std::get<Ks>(t)->verify(name), 0)...};
  int u3[] = {0, (extra.verify(name), 0)...};
  (void)u0, (void)u1, (void)u2, (void)u3;
  check_returned(ret, *std::get<0>(t));
  count("loop_iterations", (unsigned long long)n);
  count("reductions");
}
// Run one form on one assignment of policies and kinds to operands; operand 0 is the result.
template <size_t Loops, class... As, class Form, class... Extra>
void run_arrays(Rng& R, const char* name, Form form, TypeList<As...>, Extra&... extra) {
  std::vector<bool> fixed(Loops, false), wider(Loops, false);
  int u[] = {0, (mark_fixed(Tag<As>(), fixed), 0)...};
  (void)u;
  std::vector<MDim> b = gen_loops(R, Loops, fixed, 400);
  size_t k = 0;
  std::vector<MShape> ms;
  int u2[] = {0, (ms.push_back(operand_shape(R, Tag<As>(), b, k == 0, wider)), k++ == 0 ? note_lhs(Tag<As>(), ms[0], wider) : void(), 0)...};
  (void)u2;
  desc("%s", name);
  long size = 1;
  for (auto& x : b) size *= x.ext;
  for (auto& m : ms) desc(" %s", m.str().c_str());
  if (size > 1) nontrivial();
  run_on(R, name, form, ms, size, std::index_sequence_for<As...>(), TypeList<As...>(), extra...);
}
template <size_t K, class Seq>
struct SeqAt;
template <size_t K, int P, int... Ps>
struct SeqAt<K, std::integer_sequence<int, P, Ps...>> : SeqAt<K - 1, std::integer_sequence<int, Ps...>> {};
template <int P, int... Ps>
struct SeqAt<0, std::integer_sequence<int, P, Ps...>> {
  static constexpr int value = P;
};
template <size_t Loops, class... Specs, class Seq, size_t... Ks, class Form, class... Extra>
void combo_impl(Rng& R, const char* name, Form fm, Seq, std::index_sequence<Ks...>, Extra&... extra) {
  run_arrays<Loops>(R, name, fm, TypeList<typename Specs::template arr<SeqAt<Ks, Seq>::value>...>(), extra...);
}
template <size_t Loops, class... Specs, class Seq, class Form, class... Extra>
void combo(Rng& R, const char* name, Form fm, Seq s, Extra&... extra) {
  combo_impl<Loops, Specs...>(R, name, fm, s, std::index_sequence_for<Specs...>(), extra...);
}

// Combinations of policies and kinds, cycled over the operands.
template <size_t Loops, class... Specs, class Form, class... Extra>
void form(Rng& R, long I, const char* name, Form fm, Extra&... extra) {
  (void)I;
  switch (R.below(5)) {
  case 0: return combo<Loops, Specs...>(R, name, fm, std::integer_sequence<int, 0, 3, 0, 3, 0>(), extra...);
  case 1: return combo<Loops, Specs...>(R, name, fm, std::integer_sequence<int, 1, 3, 4, 0, 1>(), extra...);
  case 2: return combo<Loops, Specs...>(R, name, fm, std::integer_sequence<int, 6, 9, 6, 9, 6>(), extra...);
  case 3: return combo<Loops, Specs...>(R, name, fm, std::integer_sequence<int, 2, 4, 11, 7, 5>(), extra...);
  default: return combo<Loops, Specs...>(R, name, fm, std::integer_sequence<int, 7, 1, 3, 5, 9>(), extra...);
  }
}
// A callable operand; the library's calls are logged.
struct CallLog {
  std::vector<Idx> log;
  uint64_t salt;
  bool logged = false;
  explicit CallLog(Rng& R) : salt(R.next()) {}
  Sym value(std::initializer_list<long> i) const {
    uint64_t h = salt;
    for (long x : i) h = Sym::mix(h, (uint64_t)x, 9);
    return {h};
  }
  Idx fresh;
  std::vector<Idx> mlog;
  void verify(const char* who) {
    CHECK(log == mlog, "%s: the callable was called %zu times (expected %zu) or in another order", who, log.size(), mlog.size());
    count("callable_calls", log.size());
  }
};
struct Fn2 : CallLog { // as a lambda
  using CallLog::CallLog;
  auto lib() const {
    CallLog* self = const_cast<Fn2*>(this);
    return [self](nda::index_t i, nda::index_t j) { self->log.push_back({(long)i, (long)j}); return self->value({(long)i, (long)j}); };
  }
  auto model() const {
    CallLog* self = const_cast<Fn2*>(this);
    return [self](const Idx& i) { self->mlog.push_back(i); return self->value({i[0], i[1]}); };
  }
};
struct Fn1 : CallLog { // as a std::function
  using CallLog::CallLog;
  std::function<Sym(nda::index_t)> lib() const {
    CallLog* self = const_cast<Fn1*>(this);
    return [self](nda::index_t i) { self->log.push_back({(long)i}); return self->value({(long)i}); };
  }
  auto model() const {
    CallLog* self = const_cast<Fn1*>(this);
    return [self](const Idx& i) { self->mlog.push_back(i); return self->value({i[0]}); };
  }
};
struct Fn3 : CallLog { // as a functor with a const call operator
  using CallLog::CallLog;
  struct F {
    CallLog* self;
    Sym operator()(nda::index_t i, nda::index_t j, nda::index_t k) const { self->log.push_back({(long)i, (long)j, (long)k}); return self->value({(long)i, (long)j, (long)k}); }
  };
  F lib() const { return F{const_cast<Fn3*>(this)}; }
  auto model() const {
    CallLog* self = const_cast<Fn3*>(this);
    return [self](const Idx& i) { self->mlog.push_back(i); return self->value({i[0], i[1], i[2]}); };
  }
};
static Sym plain_fn(nda::index_t i, nda::index_t j) { return {Sym::mix((uint64_t)i, (uint64_t)j, 11)}; }
struct FnP { // a function pointer
  auto lib() const { return &plain_fn; }
  auto model() const { return [](const Idx& i) { return plain_fn((nda::index_t)i[0], (nda::index_t)i[1]); }; }
  void verify(const char*) {}
};

#define CASE(k, body)                                                                              \
  case k: {                                                                                        \
    body;                                                                                          \
    return;                                                                                        \
  }
#define FORM(...) [](auto f, __VA_ARGS__)

#if VERIF_PART == 1
// Contractions and expansions, with a type in which order and association matter.
GROUP(products, 2400, 40000) {
  switch (I % 12) {
    CASE(0, (form<3, Spec<Sym, 0, 1>, Spec<Sym, 0, 2>, Spec<Sym, 2, 1>>(R, I, "C(0,1) += A(0,2) * B(2,1)", FORM(auto& C, auto& A, auto& B) { return EIN(0, 1)(C) += EIN(0, 2)(A) * EIN(2, 1)(B); })))
    CASE(1, (form<3, Spec<Sym, 1, 0>, Spec<Sym, 1, 2>, Spec<Sym, 2, 0>>(R, I, "C(1,0) += A(1,2) * B(2,0)", FORM(auto& C, auto& A, auto& B) { return EIN(1, 0)(C) += EIN(1, 2)(A) * EIN(2, 0)(B); })))
    CASE(2, (form<3, Spec<Sym, 1, 2>, Spec<Sym, 1, 0>, Spec<Sym, 0, 2>>(R, I, "C(1,2) += A(1,0) * B(0,2)", FORM(auto& C, auto& A, auto& B) { return EIN(1, 2)(C) += EIN(1, 0)(A) * EIN(0, 2)(B); })))
    CASE(3, (form<2, Spec<Sym, 0>, Spec<Sym, 0, 1>, Spec<Sym, 1>>(R, I, "y(0) += A(0,1) * x(1)", FORM(auto& y, auto& A, auto& x) { return EIN(0)(y) += EIN(0, 1)(A) * EIN(1)(x); })))
    CASE(4, (form<2, Spec<Sym, 1>, Spec<Sym, 0, 1>, Spec<Sym, 0>>(R, I, "y(1) -= A(0,1) * x(0)", FORM(auto& y, auto& A, auto& x) { return EIN(1)(y) -= EIN(0, 1)(A) * EIN(0)(x); })))
    CASE(5, (form<1, Spec<Sym>, Spec<Sym, 0, 0>>(R, I, "s() += A(0,0)", FORM(auto& s, auto& A) { return EIN()(s) += EIN(0, 0)(A); })))
    CASE(6, (form<1, Spec<Sym, 0>, Spec<Sym, 0, 0>>(R, I, "d(0) = A(0,0)", FORM(auto& d, auto& A) { return EIN(0)(d) = EIN(0, 0)(A); })))
    CASE(7, (form<1, Spec<Sym>, Spec<Sym, 0>, Spec<Sym, 0>, Spec<Sym, 0>>(R, I, "s() += (x(0) + y(0)) * z(0)", FORM(auto& s, auto& x, auto& y, auto& z) { return EIN()(s) += (EIN(0)(x) + EIN(0)(y)) * EIN(0)(z); })))
    CASE(8, (form<2, Spec<Sym, 0, 1>, Spec<Sym, 0>, Spec<Sym, 1>>(R, I, "C(0,1) = x(0) * y(1)", FORM(auto& C, auto& x, auto& y) { return EIN(0, 1)(C) = EIN(0)(x) * EIN(1)(y); })))
    CASE(9, (form<3, Spec<Sym, 2, 0, 1>, Spec<Sym, 0, 1, 2>>(R, I, "C(2,0,1) = A(0,1,2)", FORM(auto& C, auto& A) { return EIN(2, 0, 1)(C) = EIN(0, 1, 2)(A); })))
    CASE(10, (form<5, Spec<Sym, 0, 4>, Spec<Sym, 0, 1, 2>, Spec<Sym, 1, 2, 3>, Spec<Sym, 3, 4>>(R, I, "C(0,4) += A(0,1,2) * B(1,2,3) * D(3,4)", FORM(auto& C, auto& A, auto& B, auto& D) { return EIN(0, 4)(C) += EIN(0, 1, 2)(A) * EIN(1, 2, 3)(B) * EIN(3, 4)(D); })))
    CASE(11, (form<4, Spec<Sym, 3, 0>, Spec<Sym, 3, 1, 2>, Spec<Sym, 1, 2, 0>>(R, I, "C(3,0) -= A(3,1,2) / B(1,2,0)", FORM(auto& C, auto& A, auto& B) { return EIN(3, 0)(C) -= EIN(3, 1, 2)(A) / EIN(1, 2, 0)(B); })))
  }
}
#elif VERIF_PART == 4
GROUP(unusual, 2400, 40000) {
  Scalar<Sym> s(R), t(R);
  Scalar<const Sym> c(R);
  Fn2 f2(R);
  Fn1 f1(R);
  Fn3 f3(R);
  FnP fp;
  switch (I % 16) {
    CASE(0, (form<2, Spec<Sym, 0>, Spec<Sym, 1, 0>>(R, I, "C(0) -= -A(1,0)", FORM(auto& C, auto& A) { return EIN(0)(C) -= -EIN(1, 0)(A); })))
    CASE(1, (form<3, Spec<Sym, 0>, Spec<Sym, 0, 2>, Spec<Sym, 2>>(R, I, "C(0) *= A(0,2) - B(2), index 1 skipped", FORM(auto& C, auto& A, auto& B) { return EIN(0)(C) *= EIN(0, 2)(A) - EIN(2)(B); })))
    CASE(2, (form<2, Spec<Sym, 0>, Spec<Sym, 0, 1>>(R, I, "C(0) = max(C(0), A(0,1))", FORM(auto& C, auto& A) { return EIN(0)(C) = max(EIN(0)(C), EIN(0, 1)(A)); })))
    CASE(3, (form<2, Spec<Sym, 1>, Spec<Sym, 0, 1>, Spec<Sym, 0>>(R, I, "C(1) += min(A(0,1), max(-B(0), C(1)))", FORM(auto& C, auto& A, auto& B) { return EIN(1)(C) += min(EIN(0, 1)(A), max(-EIN(0)(B), EIN(1)(C))); })))
    CASE(4, (form<2, Spec<Sym, 0, 1>, Spec<Sym, 0, 1>, Spec<Sym, 0>, Spec<Sym, 1>>(R, I, "C(0,1) += (A(0,1) - x(0)) / y(1)", FORM(auto& C, auto& A, auto& x, auto& y) { return EIN(0, 1)(C) += (EIN(0, 1)(A) - EIN(0)(x)) / EIN(1)(y); })))
    CASE(5, (form<1, Spec<Sym, 0>, Spec<Sym, 0>>(R, I, "C(0) = s * A(0) + t - c", FORM(auto& C, auto& A, auto& s, auto& t, auto& c) { return EIN(0)(C) = SCA(s) * EIN(0)(A) + SCA(t) - SCA(c); }, s, t, c)))
    CASE(6, (form<2, Spec<Sym, 0, 1>, Spec<Sym, 0, 1>>(R, I, "C(0,1) = fn(1,0) * A(0,1)", FORM(auto& C, auto& A, auto& g) { return EIN(0, 1)(C) = FUN(1, 0)(g) * EIN(0, 1)(A); }, f2)))
    CASE(7, (form<3, Spec<Sym, 0, 1, 2>>(R, I, "C(0,1,2) -= fn(2,0,1)", FORM(auto& C, auto& g) { return EIN(0, 1, 2)(C) -= FUN(2, 0, 1)(g); }, f3)))
    CASE(8, (form<2, Spec<Sym, 1>, Spec<Sym, 0>>(R, I, "C(1) += fn(0) * A(0) + ptr(1,0)", FORM(auto& C, auto& A, auto& g, auto& h) { return EIN(1)(C) += FUN(0)(g) * EIN(0)(A) + FUN(1, 0)(h); }, f1, fp)))
    CASE(9, (form<2, Spec<Sym>, Spec<Sym, 0, 1>>(R, I, "s() = A(0,1), the last wins", FORM(auto& s, auto& A) { return EIN()(s) = EIN(0, 1)(A); })))
    CASE(10, (form<1, Spec<Sym, 0, 0>, Spec<Sym, 0>>(R, I, "C(0,0) += A(0)", FORM(auto& C, auto& A) { return EIN(0, 0)(C) += EIN(0)(A); })))
    CASE(11, (form<2, Spec<Sym, 0, 1, 0>, Spec<Sym, 1, 0>>(R, I, "C(0,1,0) = A(1,0)", FORM(auto& C, auto& A) { return EIN(0, 1, 0)(C) = EIN(1, 0)(A); })))
    CASE(12, (form<2, Spec<Sym>, Spec<Sym, 1, 0, 1>, Spec<Sym, 1>>(R, I, "s() += A(1,0,1) * x(1)", FORM(auto& s, auto& A, auto& x) { return EIN()(s) += EIN(1, 0, 1)(A) * EIN(1)(x); })))
    CASE(13, (form<4, Spec<Sym, 3>, Spec<Sym, 3, 1>>(R, I, "C(3) += A(3,1), indices 0 and 2 skipped", FORM(auto& C, auto& A) { return EIN(3)(C) += EIN(3, 1)(A); })))
    CASE(14, (form<2, Spec<Sym, 0, 1>, Spec<Sym, 0, 1>>(R, I, "C(0,1) *= C(0,1) + s", FORM(auto& C, auto& A, auto& s) { return EIN(0, 1)(C) *= EIN(0, 1)(C) + EIN(0, 1)(A) - SCA(s); }, s)))
    CASE(15, (form<6, Spec<Sym, 5, 0>, Spec<Sym, 0, 2, 5>, Spec<Sym, 4>, Spec<Sym, 1, 3>>(R, I, "C(5,0) += A(0,2,5) - x(4) * B(1,3)", FORM(auto& C, auto& A, auto& x, auto& B) { return EIN(5, 0)(C) += EIN(0, 2, 5)(A) - EIN(4)(x) * EIN(1, 3)(B); })))
  }
}
#elif VERIF_PART == 2
// Pseudo-random expression trees over a fixed set of leaves.
constexpr unsigned hash_code(unsigned x) { return (x ^ (x >> 7)) * 2654435761u + 40503u; }
template <class F, class A, class B, class X, class S>
struct Leaves {
  A& a;
  B& b;
  X& x;
  S& s;
};
template <unsigned K>
struct LeafAt;
#define LEAF(k, expr)                                                                              \
  template <>                                                                                      \
  struct LeafAt<k> {                                                                               \
    template <class F, class A, class B, class X, class S>                                         \
    static auto make(const Leaves<F, A, B, X, S>& l) { return expr; }                              \
  };
LEAF(0, (F::template e<0, 1>(l.a)))
LEAF(1, (F::template e<2, 1>(l.b)))
LEAF(2, (F::template e<0>(l.x)))
LEAF(3, (F::s(l.s)))
LEAF(4, (F::template e<2>(l.x)))
template <unsigned Code, int Depth, unsigned Op = (Depth == 0 ? 100 : (Code >> 9) % 9)>
struct Tree;
template <unsigned Code, int D>
struct Tree<Code, D, 100> {
  template <class L>
  static auto make(const L& l) { return LeafAt<(Code >> 5) % 4>::make(l); }
};
template <unsigned Code, int D>
using T1 = Tree<hash_code(Code * 2 + 1), D - 1>;
template <unsigned Code, int D>
using T2 = Tree<hash_code(Code * 2 + 7), D - 1>;
#define TREE(op, expr)                                                                             \
  template <unsigned Code, int D>                                                                  \
  struct Tree<Code, D, op> {                                                                       \
    using X = T1<Code, D>;                                                                         \
    using Y = T2<Code, D>;                                                                         \
    template <class L>                                                                             \
    static auto make(const L& l) { return expr; }                                                  \
  };
TREE(0, X::make(l) + Y::make(l))
TREE(1, X::make(l) - Y::make(l))
TREE(2, X::make(l) * Y::make(l))
TREE(3, X::make(l) / Y::make(l))
TREE(4, -X::make(l))
TREE(5, min(X::make(l), Y::make(l)))
TREE(6, max(X::make(l), Y::make(l)))
TREE(7, X::make(l) * Y::make(l))
TREE(8, -(X::make(l) - Y::make(l)))
template <unsigned Code>
struct TreeForm {
  template <class F, class C, class A, class B, class X, class S, unsigned Op = Code % 4, std::enable_if_t<Op == 0, int> = 0>
  auto operator()(F, C& c, A& a, B& b, X& x, S& s) const { return F::template e<1, 0>(c) = Tree<hash_code(Code), 3>::make(Leaves<F, A, B, X, S>{a, b, x, s}); }
  template <class F, class C, class A, class B, class X, class S, unsigned Op = Code % 4, std::enable_if_t<Op == 1, int> = 0>
  auto operator()(F, C& c, A& a, B& b, X& x, S& s) const { return F::template e<1, 0>(c) += Tree<hash_code(Code), 3>::make(Leaves<F, A, B, X, S>{a, b, x, s}); }
  template <class F, class C, class A, class B, class X, class S, unsigned Op = Code % 4, std::enable_if_t<Op == 2, int> = 0>
  auto operator()(F, C& c, A& a, B& b, X& x, S& s) const { return F::template e<1, 0>(c) -= Tree<hash_code(Code), 3>::make(Leaves<F, A, B, X, S>{a, b, x, s}); }
  template <class F, class C, class A, class B, class X, class S, unsigned Op = Code % 4, std::enable_if_t<Op == 3, int> = 0>
  auto operator()(F, C& c, A& a, B& b, X& x, S& s) const { return F::template e<1, 0>(c) *= Tree<hash_code(Code), 3>::make(Leaves<F, A, B, X, S>{a, b, x, s}); }
};
template <unsigned Code>
void tree_case(Rng& R) {
  Scalar<Sym> s(R);
  char name[60];
  snprintf(name, sizeof name, "tree %u: C(1,0) op= expr", Code);
  using L = TypeList<Arr<Sym, 0, 1, 0>, Arr<Sym, (Code % 3 == 0 ? 3 : Code % 3 == 1 ? 9 : 2), 0, 1>, Arr<Sym, (Code % 5 == 0 ? 1 : 0), 2, 1>, Arr<Sym, 6, 0>>;
  run_arrays<3>(R, name, TreeForm<Code>(), L(), s);
}
template <unsigned... Codes>
void any_tree(Rng& R, long I, std::integer_sequence<unsigned, Codes...>) {
  static void (*const table[])(Rng&) = {&tree_case<Codes>...};
  table[(size_t)I % sizeof...(Codes)](R);
}
GROUP(trees, 2400, 40000) { any_tree(R, I, std::make_integer_sequence<unsigned, 48>()); }
#else
// Arithmetic types and casts.
GROUP(types, 1800, 30000) {
  Scalar<double> s(R);
  Scalar<const float> q(R);
  Scalar<int> n(R);
  switch (I % 9) {
    CASE(0, (form<3, Spec<double, 0, 1>, Spec<float, 0, 2>, Spec<float, 2, 1>>(R, I, "double += cast<double>(float) * cast<double>(float)", FORM(auto& C, auto& A, auto& B) { return EIN(0, 1)(C) += CAST(double)(EIN(0, 2)(A)) * CAST(double)(EIN(2, 1)(B)); })))
    CASE(1, (form<2, Spec<int, 0>, Spec<uint8_t, 0, 1>, Spec<int16_t, 1>>(R, I, "int += cast<int>(uint8) * int16", FORM(auto& C, auto& A, auto& B) { return EIN(0)(C) += CAST(int)(EIN(0, 1)(A)) * EIN(1)(B); })))
    CASE(2, (form<1, Spec<int, 0>, Spec<double, 0>, Spec<double, 0>>(R, I, "int = cast<int>(a / b)", FORM(auto& C, auto& A, auto& B) { return EIN(0)(C) = CAST(int)(EIN(0)(A) / EIN(0)(B)); })))
    CASE(3, (form<1, Spec<int64_t, 0>, Spec<int, 0>, Spec<int, 0>>(R, I, "int64 = a / b", FORM(auto& C, auto& A, auto& B) { return EIN(0)(C) = EIN(0)(A) / EIN(0)(B); })))
    CASE(4, (form<2, Spec<uint32_t, 1>, Spec<uint32_t, 0, 1>>(R, I, "uint32 *= a - c", FORM(auto& C, auto& A) { return EIN(1)(C) *= EIN(0, 1)(A) - EIN(1)(C); })))
    CASE(5, (form<2, Spec<Sym2, 0>, Spec<Sym, 0, 1>, Spec<Sym, 1>>(R, I, "Sym2 += cast<Sym2>(a * b)", FORM(auto& C, auto& A, auto& B) { return EIN(0)(C) += CAST(Sym2)(EIN(0, 1)(A) * EIN(1)(B)); })))
    CASE(6, (form<1, Spec<double, 0>, Spec<float, 0>>(R, I, "double = s * a + q - n", FORM(auto& C, auto& A, auto& s, auto& q, auto& n) { return EIN(0)(C) = SCA(s) * EIN(0)(A) + SCA(q) - SCA(n); }, s, q, n)))
    CASE(7, (form<2, Spec<int64_t>, Spec<int8_t, 0, 1>, Spec<int8_t, 1>>(R, I, "int64 += max(cast<int>(a), -cast<int>(b))", FORM(auto& C, auto& A, auto& B) { return EIN()(C) += max(CAST(int)(EIN(0, 1)(A)), -CAST(int)(EIN(1)(B))); })))
    CASE(8, (form<2, Spec<double, 0, 1>, Spec<double, 0>, Spec<double, 1>>(R, I, "double -= min(a, b) / b", FORM(auto& C, auto& A, auto& B) { return EIN(0, 1)(C) -= min(EIN(0)(A), EIN(1)(B)) / EIN(1)(B); })))
  }
}
// C arrays, pointers, scalars and rank 0 arrays as operands and results; callables as results.
GROUP(plain_storage, 1200, 20000) {
  Sym c3[3], c4[4], r3[5], want[5];
  std::vector<Sym> p;
  long n = R.range(0, 9);
  for (auto& x : c3) x = rnd<Sym>(R);
  for (auto& x : c4) x = rnd<Sym>(R);
  for (int i = 0; i < 5; i++) r3[i] = want[i] = rnd<Sym>(R);
  for (long i = 0; i < n; i++) p.push_back(rnd<Sym>(R));
  p.reserve(16);
  const Sym* cp = p.data();
  const Sym(&cc4)[4] = c4;
  Sym s = rnd<Sym>(R), ws = s;
  desc("C arrays of 3 and 4, pointer of %ld, form %ld, %llx", n, I % 7, (unsigned long long)s.h);
  nontrivial();
  using nda::ein;
  switch (I % 7) {
  case 0: {
    auto r = nda::ein_reduce(ein(s) += ein<0>(c3) * ein<1>(cp, (size_t)n));
    for (long j = 0; j < n; j++)
      for (int i = 0; i < 3; i++) ws += c3[i] * p[(size_t)j];
    CHECK(r.base() == &s, "ein_reduce to a scalar did not return the scalar");
    CHECK(s == ws, "scalar += carray * pointer");
    return;
  }
  case 1: {
    auto r = nda::ein_reduce(ein<0>(r3) = ein<0>(r3) - ein<1>(cc4) * ein(s));
    for (int j = 0; j < 4; j++)
      for (int i = 0; i < 5; i++) want[i] = want[i] - c4[j] * s;
    CHECK(r.base() == r3 && r.size() == 5, "ein_reduce to a C array did not return it");
    break;
  }
  case 2: {
    std::vector<Sym> q(p.size() + 4, s);
    auto r = nda::ein_reduce(ein<0>(q.data() + 2, (size_t)n) -= ein<0>(cp, (size_t)n));
    CHECK(r.base() == q.data() + 2 && r.size() == (size_t)n, "ein_reduce to a pointer did not return it");
    for (long i = 0; i < n; i++) CHECK(q[(size_t)i + 2] == s - p[(size_t)i], "pointer -= pointer at %ld", i);
    for (size_t i : {(size_t)0, (size_t)1, q.size() - 1, q.size() - 2}) CHECK(q[i] == s, "pointer operand: memory outside was written");
    break;
  }
  case 3: {
    // The result is a callable returning references, bounds come from the operand.
    long X = R.range(1, 5), Y = R.range(1, 5);
    nda::array<Sym, nda::shape_of_rank<2>> a({{(nda::index_t)R.range(-4, 4), (nda::index_t)X}, {(nda::index_t)R.range(-4, 4), (nda::index_t)Y}});
    a.for_each_value([&](Sym& v) { v = rnd<Sym>(R); });
    std::map<Idx, Sym> out;
    std::vector<Idx> log;
    auto put = [&](nda::index_t j, nda::index_t i) -> Sym& { log.push_back({(long)i, (long)j}); return out[{(long)i, (long)j}]; };
    nda::ein_reduce(ein<1, 0>(put) = ein<0, 1>(a));
    CHECK_EQ((long)out.size(), X * Y, "entries assigned through the callable");
    CHECK_EQ((long)log.size(), X * Y, "calls of the callable");
    for (auto& o : out) CHECK(o.second == a((nda::index_t)o.first[0], (nda::index_t)o.first[1]), "callable result at %s", idx_str(o.first).c_str());
    for (size_t k = 1; k < log.size(); k++) CHECK(std::make_pair(log[k - 1][1], log[k - 1][0]) < std::make_pair(log[k][1], log[k][0]), "the callable was not called in loop order");
    break;
  }
  case 4: {
    nda::array_of_rank<Sym, 0> z;
    z() = s;
    const nda::array_of_rank<Sym, 0> y({}, c4[1]);
    nda::ein_reduce(ein<>(z) += ein<0>(c4) / ein<>(y));
    for (int i = 0; i < 4; i++) ws += c4[i] / c4[1];
    CHECK(z() == ws, "rank 0 array += carray / rank 0 array");
    break;
  }
  case 5: {
    // No index at all: one evaluation.
    nda::ein_reduce(ein(s) *= ein(c4[2]) + ein(c4[3]));
    ws *= c4[2] + c4[3];
    CHECK(s == ws, "scalar *= scalar + scalar");
    break;
  }
  default: {
    // Operands bound before use, and used twice.
    auto e = ein<0>(c3);
    auto sum = e + e * ein(s);
    auto f = sum;
    Sym t = s;
    nda::ein_reduce(ein(t) += f);
    nda::ein_reduce(ein(t) -= sum);
    for (int i = 0; i < 3; i++) ws += c3[i] + c3[i] * s;
    for (int i = 0; i < 3; i++) ws -= c3[i] + c3[i] * s;
    CHECK(t == ws, "an expression used twice");
  }
  }
  for (int i = 0; i < 5; i++) CHECK(r3[i] == want[i], "C array element %d", i);
}
// Result and operands overlapping in memory: the order of the loops shows.
GROUP(aliased, 1200, 20000) {
  long N = R.range(2, 40);
  std::vector<Sym> lib, mod;
  for (long i = 0; i < N; i++) lib.push_back(rnd<Sym>(R));
  mod = lib;
  auto view = [&](long ext) {
    MDim d{R.range(-5, 5), ext, 0};
    long maxs = ext > 1 ? (N - 1) / (ext - 1) : 3;
    d.str = R.range(0, maxs) * (R.chance(30) ? -1 : 1);
    return d;
  };
  auto place = [&](const MShape& m) {
    long lo, hi;
    m.flat_range(&lo, &hi);
    REQUIRE(hi - lo < N);
    return -lo + R.range(0, N - 1 - (hi - lo));
  };
  long ext = R.range(1, std::min(N, 9L));
  MShape a, b;
  a.d = {view(ext)};
  b.d = {view(ext)};
  if (a.d[0].str == 0 && ext > 1) a.d[0].str = 1;
  b.d[0].min = a.d[0].min;
  long ka = place(a), kb = place(b);
  desc("N %ld: %s at %ld, %s at %ld, form %ld", N, a.str().c_str(), ka, b.str().c_str(), kb, I % 6);
  nontrivial();
  nda::array_ref<Sym, nda::shape_of_rank<1>> ra(lib.data() + ka, dyn<1>(a)), rb(lib.data() + kb, dyn<1>(b));
  Sym* pa = mod.data() + ka;
  Sym* pb = mod.data() + kb;
  using nda::ein;
  switch (I % 6) {
  case 0:
    nda::ein_reduce(ein<0>(ra) = ein<0>(rb) + ein<0>(ra));
    for (long i = 0; i < ext; i++) pa[i * a.d[0].str] = pb[i * b.d[0].str] + pa[i * a.d[0].str];
    break;
  case 1:
    nda::ein_reduce(ein<0>(ra) += ein<1>(rb));
    for (long j = 0; j < ext; j++)
      for (long i = 0; i < ext; i++) pa[i * a.d[0].str] += pb[j * b.d[0].str];
    break;
  case 2: { // Both sides of the assignment have the same type.
    auto r = nda::ein_reduce(ein<0>(ra) = ein<0>(rb));
    CHECK(r.base() == ra.base(), "ein_reduce did not return the left-hand operand");
    for (long i = 0; i < ext; i++) pa[i * a.d[0].str] = pb[i * b.d[0].str];
    break;
  }
  case 3: {
    Sym s = rnd<Sym>(R), t = rnd<Sym>(R), t0 = t;
    nda::ein_reduce(ein(s) = ein(t));
    CHECK(s == t0 && t == t0, "scalar = scalar");
    auto e = ein<0>(ra);
    auto f = ein<0>(rb);
    nda::ein_reduce(e = f);
    for (long i = 0; i < ext; i++) pa[i * a.d[0].str] = pb[i * b.d[0].str];
    break;
  }
  case 4: {
    nda::dense_array<Sym, 2> A({ext, 3}), B({ext, 3});
    A.for_each_value([&](Sym& x) { x = rnd<Sym>(R); });
    B.for_each_value([&](Sym& x) { x = rnd<Sym>(R); });
    auto B0 = B;
    nda::ein_reduce(ein<0, 1>(A) = ein<0, 1>(B));
    CHECK(A == B && B == B0, "array = array of the same type");
    break;
  }
  default:
    nda::ein_reduce(ein<1>(ra) -= ein<0>(rb));
    for (long i = 0; i < ext; i++)
      for (long j = 0; j < ext; j++) pa[i * a.d[0].str] -= pb[j * b.d[0].str];
  }
  for (long i = 0; i < N; i++) CHECK(lib[(size_t)i] == mod[(size_t)i], "memory at %ld differs from the loop nest's", i);
}
#endif
HARNESS_MAIN
