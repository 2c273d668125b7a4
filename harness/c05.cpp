// C05: for_each_value visits each element exactly once and nothing else.
#include "model.h"
#include "types.h"
#include "ledger.h"
#include <functional>
using namespace vh;

// Counts visits by address against the model's expectation.
template <class T>
struct Visits {
  const T* base;
  std::map<long, int> want;
  std::map<long, int> got;
  long budget;
  Visits(const T* b, const MShape& m) : base(b) {
    m.each([&](const Idx& i) { want[m.offset(i)]++; });
    budget = m.size();
  }
  void visit(const T* p) {
    if (--budget < 0) fail("for_each_value called the function more than size() times");
    long o = (long)(p - base);
    auto it = want.find(o);
    if (it == want.end()) fail("for_each_value visited flat offset %ld, which is no element", o);
    if (++got[o] > it->second) fail("element at flat offset %ld visited more than %d times", o, it->second);
  }
  void done() {
    for (auto& w : want)
      if (got[w.first] != w.second) fail("element at flat offset %ld visited %d times, expected %d", w.first, got[w.first], w.second);
    count("element_visits_checked", got.size());
  }
};

template <class T>
struct Val {
  static T make(long k) { return (T)k; }
  static void touch(T& x) { x = (T)(x + 1); }
};
struct S3 { char b[3]; };
struct S24 { long a, b, c; };
template <>
struct Val<S3> {
  static S3 make(long k) { S3 s; s.b[0] = s.b[1] = s.b[2] = (char)k; return s; }
  static void touch(S3& x) { x.b[0]++; }
};
template <>
struct Val<S24> {
  static S24 make(long k) { return S24{k, k, k}; }
  static void touch(S24& x) { x.c++; x.a++; }
};

template <class Shape, class T>
void run_ref(const MShape& m) {
  desc("%s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  Arena<T> a(m);
  for (size_t k = 0; k < a.used.size(); k++)
    if (a.used[k]) *(a.base + ((long)k + a.lo - Arena<T>::G)) = Val<T>::make((long)k);
  Shape s = from_mshape<Shape>(m);
  a.protect();
  {
    nda::array_ref<T, Shape> ref(a.base, s);
    Visits<T> v(a.base, m);
    ref.for_each_value([&](T& x) { v.visit(&x); Val<T>::touch(x); });
    v.done();
  }
  {
    nda::const_array_ref<T, Shape> ref(a.base, s);
    Visits<T> v(a.base, m);
    ref.for_each_value([&](const T& x) { v.visit(&x); T copy = x; (void)copy; });
    v.done();
  }
  a.verify("for_each_value");
  if (m.empty()) {
    nda::array_ref<T, Shape> ref(nullptr, s);
    ref.for_each_value([&](T&) { fail("function called for an empty null array_ref"); });
  }
}

template <class Shape>
void run_array(const MShape& m) {
  // Owned storage: traversing an owned array, const and not, with its padding poisoned.
  using T = int64_t;
  Shape s = from_mshape<Shape>(m);
  if (m.empty()) {
    // The base of an array without elements refers to its storage or to nothing.
    L().reset();
    {
      nda::array<T, Shape, LedgerAlloc<T, 0>> e(s, 5);
      CHECK(e.base() == nullptr || !L().blocks.empty(), "an array without storage has base %p", (void*)e.base());
      e.for_each_value([&](T&) { fail("function called for an array without elements"); });
    }
    CHECK(L().blocks.empty(), "an array without elements leaked its storage");
  }
  nda::array<T, Shape> arr(s, 5);
  CHECK(to_mshape(arr.shape()) == m, "array shape %s differs from requested %s", to_mshape(arr.shape()).str().c_str(), m.str().c_str());
  long lo = 0, hi = -1;
  if (!m.empty()) m.flat_range(&lo, &hi);
  std::set<long> used = m.flat_set();
  for (long o = lo; o <= hi; o++)
    if (!used.count(o)) VH_POISON(arr.base() + o, sizeof(T));
  {
    Visits<T> v(arr.base(), m);
    arr.for_each_value([&](T& x) { v.visit(&x); CHECK_EQ(x, 5, "initial value"); x = 6; });
    v.done();
  }
  {
    const auto& c = arr;
    Visits<T> v(arr.base(), m);
    long sum = 0;
    c.for_each_value([&](const T& x) { v.visit(&x); sum += x; });
    v.done();
    CHECK_EQ(sum, 6 * m.size(), "sum over const traversal");
  }
  for (long o = lo; o <= hi; o++)
    if (!used.count(o)) VH_UNPOISON(arr.base() + o, sizeof(T));
}

GROUP(dyn_ref, 6000, 120000) {
  GenOpts o;
  o.allow_broadcast = R.chance(30);
  size_t rank = (size_t)(I % 7);
  MShape m = gen_shape(R, rank, o);
  with_rank<0, 6>(rank, [&](auto r) { run_ref<nda::shape_of_rank<decltype(r)::value>, int64_t>(m); });
}

// Nearly contiguous layouts: start from a dense layout in some order, then disturb at most one or
// two strides/extents, so that the fusion decisions are right at their boundary.
GROUP(near_dense, 4000, 100000) {
  size_t rank = (size_t)R.range(2, 6);
  GenOpts o;
  o.pad_percent = 0;
  o.max_size = 800;
  o.allow_negative = false;
  MShape m = gen_bounds(R, rank, o);
  std::vector<size_t> p = gen_perm(R, rank);
  if (R.chance(30)) std::sort(p.begin(), p.end());
  long span = R.chance(85) ? 1 : 2;
  size_t disturb = (size_t)R.below((long)rank + 1);
  for (size_t n = 0; n < rank; n++) {
    size_t k = p[n];
    m.d[k].str = span + (n == disturb ? R.range(1, 3) : 0);
    span = m.d[k].str * std::max<long>(1, m.d[k].ext);
  }
  if (R.chance(40)) {
    // Crop one or two dims: the strides no longer match the extents.
    for (int c = 0; c < 2; c++) {
      size_t k = (size_t)R.below((long)rank);
      if (m.d[k].ext > 1) m.d[k].ext -= R.range(1, m.d[k].ext - 1);
    }
  }
  if (R.chance(25)) {
    size_t k = (size_t)R.below((long)rank);
    m.d[k].str = -m.d[k].str;
    if (R.chance(30))
      for (auto& x : m.d) x.str = -labs(x.str);
  }
  with_rank<2, 6>(rank, [&](auto r) { run_ref<nda::shape_of_rank<decltype(r)::value>, int64_t>(m); });
}

GROUP(static_ref, 3000, 60000) {
  with_type(StaticShapes(), (size_t)I % list_size(StaticShapes()), [&](auto tag) {
    using Shape = typename decltype(tag)::type;
    MShape m;
    if (!gen_for_type<Shape>(R, &m)) return;
    desc("type %ld ", I % (long)list_size(StaticShapes()));
    run_ref<Shape, int64_t>(m);
    if (R.chance(40)) run_array<Shape>(m);
  });
}
GROUP(broadcast_ref, 600, 6000) {
  with_type(BroadcastShapes(), (size_t)I % list_size(BroadcastShapes()), [&](auto tag) {
    using Shape = typename decltype(tag)::type;
    MShape m;
    if (!gen_for_type<Shape>(R, &m)) return;
    desc("btype %ld ", I % (long)list_size(BroadcastShapes()));
    run_ref<Shape, int64_t>(m);
  });
}
GROUP(dyn_array, 1500, 30000) {
  size_t rank = (size_t)R.below(6);
  MShape m = gen_shape(R, rank);
  desc("array %s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  with_rank<0, 5>(rank, [&](auto r) { run_array<nda::shape_of_rank<decltype(r)::value>>(m); });
}
GROUP(element_types, 1200, 20000) {
  size_t rank = (size_t)R.range(1, 4);
  GenOpts o;
  o.allow_broadcast = R.chance(20);
  MShape m = gen_shape(R, rank, o);
  with_rank<1, 4>(rank, [&](auto r) {
    using Sh = nda::shape_of_rank<decltype(r)::value>;
    switch (I % 5) {
    case 0: run_ref<Sh, char>(m); break;
    case 1: run_ref<Sh, short>(m); break;
    case 2: run_ref<Sh, S3>(m); break;
    case 3: run_ref<Sh, S24>(m); break;
    default: run_ref<Sh, float>(m); break;
    }
  });
}
HARNESS_MAIN
