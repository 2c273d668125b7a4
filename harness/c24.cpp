// C24: user callables are called, not consumed.
//
// Every algorithm that takes a callable is given callables of every category. The callables record
// their own calls, copies and moves; a call of a moved-from, copied-away or destroyed callable, a
// wrong number of calls or a wrong argument list stops the run.
#include "model.h"
#include "types.h"

#include "array/z_order.h"

#include <functional>

using namespace vh;
// Parts 1 and 3: callables that can be copied; 2 and 4: move-only, immovable and mutable ones.
#ifndef VERIF_PART
#define VERIF_PART 1
#endif
#define VERIF_COPYABLE (VERIF_PART % 2 == 1)

namespace {
long g_calls = 0;        // calls of any callable
size_t g_arity = 0;      // expected number of arguments, 99: any
uint64_t g_sum = 0;      // order-independent digest of the arguments
long g_copies = 0;       // of the callable under test
constexpr uint64_t ALIVE = 0xa11fe5a11fe5ull;

inline void mix() {}
template <class A, class... As>
void mix(const A& a, const As&... as) {
  if (!std::is_empty<A>::value) g_sum = hash_bytes(&a, sizeof a, g_sum);
  mix(as...);
}
template <class... As>
void hit(const As&... as) {
  g_calls++;
  CHECK(g_arity == 99 || sizeof...(As) == g_arity, "a callable was given %zu arguments, expected %zu", sizeof...(As), g_arity);
  uint64_t save = g_sum;
  g_sum = 1469598103934665603ull;
  mix(as...);
  g_sum = save + g_sum;
}

// The instrumented object inside every functor.
struct Tally {
  uint64_t magic = ALIVE;
  long calls = 0;
  bool moved = false;
  Tally() = default;
  Tally(const Tally& o) : calls(o.calls) {
    o.ok("copied");
    g_copies++;
  }
  Tally(Tally&& o) : calls(o.calls) {
    o.ok("moved");
    o.moved = true;
  }
  ~Tally() { magic = 0xdeadull; }
  void ok(const char* how) const {
    CHECK(magic == ALIVE, "a destroyed callable was %s", how);
    CHECK(!moved, "a moved-from callable was %s", how);
  }
};
struct MoveOnly : Tally {
  MoveOnly() = default;
  MoveOnly(MoveOnly&&) = default;
  MoveOnly(const MoveOnly&) = delete;
};
struct Immovable : Tally {
  Immovable() = default;
  Immovable(Immovable&&) = delete;
};

// What a callable is asked to return, by algorithm.
template <class R>
struct Return {
  static R get() { return (R)7; }
};
template <>
struct Return<void> {
  static void get() {}
};

template <class Base, class R>
struct ConstFn : Base {
  template <class... A>
  R operator()(A&&... a) const {
    this->ok("called");
    const_cast<ConstFn*>(this)->calls++;
    hit(a...);
    return Return<R>::get();
  }
};
template <class Base, class R>
struct MutableFn : Base {
  template <class... A>
  R operator()(A&&... a) {
    this->ok("called");
    this->calls++;
    hit(a...);
    return Return<R>::get();
  }
};
// Callable only as an lvalue.
template <class Base, class R>
struct BothFn : Base {
  template <class... A>
  R operator()(A&&... a) const {
    this->ok("called");
    const_cast<BothFn*>(this)->calls++;
    hit(a...);
    return Return<R>::get();
  }
  template <class... A>
  R operator()(A&&... a) {
    this->ok("called");
    this->calls++;
    hit(a...);
    return Return<R>::get();
  }
};

// Called as an rvalue, it gives its state away: only its last call may be made that way.
template <class Base, class R>
struct QualFn : Base {
  template <class... A>
  R operator()(A&&... a) const& {
    this->ok("called");
    const_cast<QualFn*>(this)->calls++;
    hit(a...);
    return Return<R>::get();
  }
  template <class... A>
  R operator()(A&&... a) && {
    this->ok("called");
    this->calls++;
    this->moved = true;
    hit(a...);
    return Return<R>::get();
  }
};

// ---------------------------------------------------------------- one algorithm, all callables
struct Expect {
  long calls;
  uint64_t sum; // 0: not known
  const char* what;
};
void after(const Expect& e, const char* kind, const char* form) {
  CHECK(g_calls == e.calls, "%s called %s (%s) %ld times, expected %ld", e.what, kind, form, g_calls, e.calls);
  if (e.sum) CHECK(g_sum == e.sum, "%s passed other arguments to %s (%s)", e.what, kind, form);
  count("algorithm_runs");
  count("calls_observed", (unsigned long long)g_calls);
  g_calls = 0;
  g_sum = 0;
}
// A functor F as an lvalue (twice, and once more as const if `as_const`) and as an rvalue.
template <class F, class Algo>
void lvalues(const Expect& e, const char* kind, Algo&& algo) {
  F f;
  g_copies = 0;
  algo(f);
  f.ok("left behind as an lvalue");
  CHECK(f.calls == e.calls, "%s made %ld calls on the lvalue %s itself, expected %ld", e.what, f.calls, kind, e.calls);
  after(e, kind, "lvalue");
  algo(f);
  f.ok("left behind as an lvalue");
  CHECK(f.calls == 2 * e.calls, "%s made %ld calls on the lvalue %s itself when it was passed again, expected %ld", e.what, f.calls - e.calls, kind, e.calls);
  after(e, kind, "the same lvalue again");
}
template <class F, class Algo>
void const_lvalue(const Expect& e, const char* kind, Algo&& algo) {
  const F f{};
  algo(f);
  f.ok("left behind as a const lvalue");
  after(e, kind, "const lvalue");
  algo(f);
  after(e, kind, "const lvalue again");
}
template <class F, class Algo>
void rvalues(const Expect& e, const char* kind, Algo&& algo) {
  algo(F());
  after(e, kind, "temporary");
  F f;
  algo(std::move(f));
  after(e, kind, "rvalue");
}

// R is the type returned (void for visitors); Args the argument list.
template <class R, class... Args, class Algo>
void const_callables(const Expect& e, Algo&& algo) {
  g_arity = sizeof...(Args);
#if VERIF_COPYABLE
  lvalues<ConstFn<Tally, R>>(e, "const functor", algo);
  const_lvalue<ConstFn<Tally, R>>(e, "const functor", algo);
  rvalues<ConstFn<Tally, R>>(e, "const functor", algo);
  lvalues<BothFn<Tally, R>>(e, "functor with const and mutable calls", algo);
  rvalues<BothFn<Tally, R>>(e, "functor with const and mutable calls", algo);
  // Lambdas.
  Tally t;
  auto l = [&t](Args... a) -> R { t.ok("called"); t.calls++; hit(a...); return Return<R>::get(); };
  algo(l);
  after(e, "lambda", "lvalue");
  algo(l);
  after(e, "lambda", "the same lvalue again");
  algo([&t](Args... a) -> R { t.calls++; hit(a...); return Return<R>::get(); });
  after(e, "lambda", "temporary");
  CHECK(t.calls == 3 * e.calls, "a lambda's reference state saw %ld calls, expected %ld", t.calls, 3 * e.calls);
  // A lambda that owns its state.
  std::string owned(100, 'x');
  auto o = [owned](Args... a) -> R { CHECK(owned.size() == 100, "a lambda lost its captured state"); hit(a...); return Return<R>::get(); };
  algo(o);
  after(e, "lambda owning a string", "lvalue");
  algo(o);
  after(e, "lambda owning a string", "the same lvalue again");
  // Functions.
  struct Free {
    static R call(Args... a) { hit(a...); return Return<R>::get(); }
  };
  R (*p)(Args...) = &Free::call;
  algo(p);
  CHECK(p == &Free::call, "a function pointer was changed");
  after(e, "function pointer", "lvalue");
  R (*const cp)(Args...) = &Free::call;
  algo(cp);
  after(e, "function pointer", "const lvalue");
  algo(&Free::call);
  after(e, "function pointer", "temporary");
  algo(Free::call);
  after(e, "function", "name");
  // std::function.
  std::function<R(Args...)> fn = ConstFn<Tally, R>();
  algo(fn);
  CHECK((bool)fn, "an lvalue std::function was emptied");
  after(e, "std::function", "lvalue");
  algo(fn);
  CHECK((bool)fn, "an lvalue std::function was emptied");
  after(e, "std::function", "the same lvalue again");
  const std::function<R(Args...)> cfn = fn;
  algo(cfn);
  after(e, "std::function", "const lvalue");
  algo(std::function<R(Args...)>(fn));
  after(e, "std::function", "temporary");
  // Reference wrappers and bind.
  BothFn<Tally, R> target;
  algo(std::ref(target));
  CHECK_EQ(target.calls, e.calls, "calls through std::ref");
  after(e, "std::ref", "temporary");
  auto rw = std::cref(target);
  algo(rw);
  algo(rw);
  CHECK_EQ(target.calls, 3 * e.calls, "calls through std::cref");
  g_calls -= e.calls;
  g_sum = e.sum;
  after(e, "std::cref", "lvalue");
#else
  lvalues<QualFn<MoveOnly, R>>(e, "functor with calls by value category", algo);
  const_lvalue<QualFn<MoveOnly, R>>(e, "functor with calls by value category", algo);
  rvalues<QualFn<MoveOnly, R>>(e, "functor with calls by value category", algo);
  lvalues<ConstFn<MoveOnly, R>>(e, "move-only functor", algo);
  const_lvalue<ConstFn<MoveOnly, R>>(e, "move-only functor", algo);
  rvalues<ConstFn<MoveOnly, R>>(e, "move-only functor", algo);
  lvalues<ConstFn<Immovable, R>>(e, "immovable functor", algo);
  const_lvalue<ConstFn<Immovable, R>>(e, "immovable functor", algo);
  auto u = [p = std::make_unique<int>(5)](Args... a) -> R { CHECK(p && *p == 5, "a move-only lambda lost its state"); hit(a...); return Return<R>::get(); };
  algo(u);
  after(e, "move-only lambda", "lvalue");
  algo(u);
  after(e, "move-only lambda", "the same lvalue again");
  algo(std::move(u));
  after(e, "move-only lambda", "rvalue");
#endif
}
template <class R, class... Args, class Algo>
void all_callables(const Expect& e, Algo&& algo) {
  const_callables<R, Args...>(e, algo);
#if !VERIF_COPYABLE
  lvalues<MutableFn<Tally, R>>(e, "mutable functor", algo);
  rvalues<MutableFn<Tally, R>>(e, "mutable functor", algo);
  lvalues<MutableFn<MoveOnly, R>>(e, "mutable move-only functor", algo);
  rvalues<MutableFn<MoveOnly, R>>(e, "mutable move-only functor", algo);
  lvalues<MutableFn<Immovable, R>>(e, "mutable immovable functor", algo);
  long n = 0;
  auto m = [n](Args... a) mutable -> R { hit(a...); if (++n < 0) abort(); return Return<R>::get(); };
  algo(m);
  after(e, "mutable lambda", "lvalue");
  algo(m);
  after(e, "mutable lambda", "the same lvalue again");
  algo([n](Args... a) mutable -> R { hit(a...); if (++n < 0) abort(); return Return<R>::get(); });
  after(e, "mutable lambda", "temporary");
#endif
}

// ---------------------------------------------------------------- the algorithms
template <size_t>
using Ix = index_t;
// The digest hit() accumulates over some argument lists.
template <class Gen>
uint64_t digest(Gen&& g) {
  g_arity = 99;
  g_calls = 0;
  g_sum = 0;
  g();
  uint64_t s = g_sum;
  g_calls = 0;
  g_sum = 0;
  return s;
}
template <size_t... Is>
void hit_indices(const Idx& i, std::index_sequence<Is...>) {
  (void)i;
  hit((index_t)i[Is]...);
}

template <class Shape, size_t... Is>
void traversals(const MShape& m, const Shape& s, std::index_sequence<Is...> seq) {
  constexpr size_t N = sizeof...(Is);
  using Index = nda::index_of_rank<N>;
  long n = m.size();
  uint64_t di = digest([&] { m.each([&](const Idx& i) { hit(from_idx<N>(i)); }); });
  uint64_t da = digest([&] { m.each([&](const Idx& i) { hit_indices(i, seq); }); });
  all_callables<void, const Index&>({n, di, "for_each_index"}, [&](auto&& f) { nda::for_each_index(s, std::forward<decltype(f)>(f)); });
  all_callables<int, Index>({n, di, "for_each_index (returning a value)"}, [&](auto&& f) { nda::for_each_index(s, std::forward<decltype(f)>(f)); });
  all_callables<void, Ix<Is>...>({n, da, "for_all_indices"}, [&](auto&& f) { nda::for_all_indices(s, std::forward<decltype(f)>(f)); });
  all_callables<void, const Index&>({n, di, "for_each_index_in_order"}, [&](auto&& f) { nda::for_each_index_in_order(s, std::forward<decltype(f)>(f)); });
}
template <class Shape, size_t... Is>
void orders(const MShape& m, const Shape& s, std::index_sequence<Is...> seq) {
  constexpr size_t N = sizeof...(Is);
  using Index = nda::index_of_rank<N>;
  long n = m.size();
  uint64_t di = digest([&] { m.each([&](const Idx& i) { hit(from_idx<N>(i)); }); });
  uint64_t da = digest([&] { m.each([&](const Idx& i) { hit_indices(i, seq); }); });
  all_callables<void, const Index&>({n, di, "for_each_index<order>"}, [&](auto&& f) { nda::for_each_index<(N - 1 - Is)...>(s, std::forward<decltype(f)>(f)); });
  all_callables<void, Ix<Is>...>({n, da, "for_all_indices<order>"}, [&](auto&& f) { nda::for_all_indices<(N - 1 - Is)...>(s, std::forward<decltype(f)>(f)); });
  all_callables<int, Ix<Is>...>({n, da, "for_all_indices<order> (returning a value)"}, [&](auto&& f) { nda::for_all_indices<(N - 1 - Is)...>(s, std::forward<decltype(f)>(f)); });
}
template <class A, class Shape>
void values(const MShape& m, const Shape& s) {
  long n = m.size();
  A a(s, 0);
  int k = 1;
  m.each([&](const Idx& i) { call_idx<Shape::rank()>(a, i) = k++; });
  const A& ca = a;
  uint64_t dv = digest([&] { for (int v = 1; v < k; v++) hit(v); });
  all_callables<void, int&>({n, dv, "array::for_each_value"}, [&](auto&& f) { a.for_each_value(std::forward<decltype(f)>(f)); });
  all_callables<void, const int&>({n, dv, "const array::for_each_value"}, [&](auto&& f) { ca.for_each_value(std::forward<decltype(f)>(f)); });
  auto r = a.ref();
  all_callables<int, int>({n, dv, "array_ref::for_each_value"}, [&](auto&& f) { r.for_each_value(std::forward<decltype(f)>(f)); });
  auto cr = a.cref();
  all_callables<void, const int&>({n, dv, "const_array_ref::for_each_value"}, [&](auto&& f) { cr.for_each_value(std::forward<decltype(f)>(f)); });
}
template <class A, class Shape, size_t... Is>
void writers(const MShape& m, const Shape& s, std::index_sequence<Is...> seq) {
  constexpr size_t N = sizeof...(Is);
  using Index = typename A::index_type;
  long n = m.size();
  A a(s, 0);
  auto r = a.ref();
  auto wrote = [&](const char* what) {
    m.each([&](const Idx& i) {
      CHECK(call_idx<N>(a, i) == 7, "%s did not store what the callable returned at %s", what, idx_str(i).c_str());
      call_idx<N>(a, i) = 0;
    });
  };
  uint64_t d0 = digest([&] { for (long i = 0; i < n; i++) hit(); });
  uint64_t di = digest([&] { m.each([&](const Idx& i) { hit(from_idx<N>(i)); }); });
  uint64_t da = digest([&] { m.each([&](const Idx& i) { hit_indices(i, seq); }); });
  all_callables<int>({n, d0, "generate(array)"}, [&](auto&& f) { nda::generate(a, std::forward<decltype(f)>(f)); wrote("generate(array)"); });
  all_callables<char>({n, d0, "generate(array_ref)"}, [&](auto&& f) { nda::generate(r, std::forward<decltype(f)>(f)); wrote("generate(array_ref)"); });
  all_callables<int, const Index&>({n, di, "transform_index(array)"}, [&](auto&& f) { nda::transform_index(a, std::forward<decltype(f)>(f)); wrote("transform_index(array)"); });
  all_callables<long, Index>({n, di, "transform_index(array_ref)"}, [&](auto&& f) { nda::transform_index(r, std::forward<decltype(f)>(f)); wrote("transform_index(array_ref)"); });
  all_callables<int, Ix<Is>...>({n, da, "transform_indices(array)"}, [&](auto&& f) { nda::transform_indices(a, std::forward<decltype(f)>(f)); wrote("transform_indices(array)"); });
  all_callables<double, Ix<Is>...>({n, da, "transform_indices(array_ref)"}, [&](auto&& f) { nda::transform_indices(r, std::forward<decltype(f)>(f)); wrote("transform_indices(array_ref)"); });
}
template <class Shape, size_t... Is>
void z_orders(const MShape& m, const Shape& s, std::index_sequence<Is...> seq) {
  constexpr size_t N = sizeof...(Is);
  using Index = nda::index_of_rank<N>;
  long n = m.size();
  auto ranges = std::make_tuple(s.template dim<Is>()...);
  uint64_t di = digest([&] { m.each([&](const Idx& i) { hit(from_idx<N>(i)); }); });
  uint64_t da = digest([&] { m.each([&](const Idx& i) { hit_indices(i, seq); }); });
  const_callables<void, Index>({n, di, "for_each_in_z_order"}, [&](auto&& f) { nda::for_each_in_z_order(ranges, std::forward<decltype(f)>(f)); });
  const_callables<int, Ix<Is>...>({n, da, "for_all_in_z_order"}, [&](auto&& f) { nda::for_all_in_z_order(ranges, std::forward<decltype(f)>(f)); });
}

MShape small(Rng& R, size_t rank, bool empty_ok) {
  GenOpts o;
  o.max_size = 40;
  o.max_ext = 5;
  o.allow_empty = empty_ok;
  o.small_mins = true;
  return gen_shape(R, rank, o);
}
template <class Shape>
bool typed(Rng& R, MShape* m) {
  GenOpts o;
  o.max_size = 40;
  o.max_ext = 5;
  o.allow_empty = R.chance(30);
  return gen_for_type<Shape>(R, m, o) && m->one_to_one();
}
} // namespace

using Shapes = TypeList<nda::matrix_shape<>, nda::matrix_shape<2, 3>, nda::chunky_image_shape<3>, nda::chunky_image_shape<2, 3>, nda::chunky_image_shape<>,
    nda::planar_image_shape, nda::fixed_dense_shape<3, 2>, nda::dense_shape<1>>;
#if VERIF_PART <= 2
GROUP(index, 100, 1500) {
  size_t rank = (size_t)(I % 5);
  MShape m = small(R, rank, R.chance(20));
  desc("indices of %s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<0, 4>(rank, [&](auto r) { traversals(m, dyn<decltype(r)::value>(m), std::make_index_sequence<decltype(r)::value>()); });
}
GROUP(order, 100, 1500) {
  size_t rank = 1 + (size_t)(I % 4);
  MShape m = small(R, rank, R.chance(20));
  desc("ordered indices of %s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<1, 4>(rank, [&](auto r) { orders(m, dyn<decltype(r)::value>(m), std::make_index_sequence<decltype(r)::value>()); });
}
GROUP(z_order, 60, 1000) {
  size_t rank = 1 + (size_t)(I % 3);
  MShape m = small(R, rank, R.chance(20));
  desc("z-order of %s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<1, 3>(rank, [&](auto r) { z_orders(m, dyn<decltype(r)::value>(m), std::make_index_sequence<decltype(r)::value>()); });
}
#else
GROUP(value, 80, 1500) {
  size_t rank = (size_t)(I % 4);
  MShape m = small(R, rank, R.chance(20));
  desc("values of %s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<0, 3>(rank, [&](auto r) {
    using S = nda::shape_of_rank<decltype(r)::value>;
    values<nda::array<int, S>>(m, dyn<decltype(r)::value>(m));
  });
}
GROUP(write, 80, 1500) {
  size_t rank = (size_t)(I % 4);
  MShape m = small(R, rank, R.chance(20));
  desc("writing %s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<0, 3>(rank, [&](auto r) {
    using S = nda::shape_of_rank<decltype(r)::value>;
    writers<nda::array<int, S>>(m, dyn<decltype(r)::value>(m), std::make_index_sequence<decltype(r)::value>());
  });
}
GROUP(types, 160, 2400) {
  with_type(Shapes(), (size_t)I % list_size(Shapes()), [&](auto tag) {
    using S = typename decltype(tag)::type;
    MShape m;
    if (!typed<S>(R, &m)) return;
    desc("type %ld %s", I % (long)list_size(Shapes()), m.str().c_str());
    if (m.size() > 1) nontrivial();
    S s = from_mshape<S>(m);
    auto seq = std::make_index_sequence<S::rank()>();
    traversals(m, s, seq);
    values<nda::array<int, S>>(m, s);
    writers<nda::array<int, S, nda::auto_allocator<int, 16>>>(m, s, seq);
  });
}
#endif
HARNESS_MAIN
