// C09: fill, generate and transform write each destination element exactly once.
#include "model.h"
#include "types.h"
#include <functional>
using namespace vh;

static GenOpts opts(Rng& R) {
  GenOpts o;
  o.allow_empty = R.chance(20);
  o.max_size = 500;
  o.pad_percent = R.pick<int>({0, 20, 40});
  return o;
}

// Counts its assignments.
struct Cell {
  int64_t v = -1;
  int32_t writes = 0, pad = 0;
  Cell() = default;
  explicit Cell(int64_t x) : v(x) {}
  Cell(const Cell& o) : v(o.v) {}
  Cell& operator=(const Cell& o) {
    v = o.v;
    writes++;
    return *this;
  }
  Cell& operator=(int64_t x) {
    v = x;
    writes++;
    return *this;
  }
};
static_assert(sizeof(Cell) == 16, "");

// A free function generator.
static long g_next;
static long next_value() { return g_next++; }

struct IndexFn { // a functor for transform_index(es) of any rank
  std::vector<Idx>* trace;
  template <class... Ix>
  long operator()(const std::tuple<Ix...>& t) const {
    trace->push_back(to_idx(t));
    return (long)trace->size();
  }
};
struct IndicesFn {
  std::vector<Idx>* trace;
  template <class... Ix>
  long operator()(Ix... i) const {
    trace->push_back(Idx{(long)i...});
    return (long)trace->size();
  }
};

template <class T>
void reset(Arena<T>& mem, const std::set<long>& used) {
  for (long o : used) new (mem.base + o) T();
}

// The whole battery on one array_ref or array. Elements are at base + model offsets.
template <class Shape, class Dst>
void battery(const char* who, Rng& R, Dst& dst, const MShape& m, Cell* base) {
  constexpr size_t N = Shape::rank();
  std::set<long> used = m.flat_set();
  auto clear = [&] { for (long o : used) base[o] = Cell(), base[o].writes = 0, base[o].v = -1; };
  long n = m.size();
  auto once = [&](const char* fn) {
    for (long o : used) CHECK(base[o].writes == 1, "%s %s wrote the element at flat offset %ld %d times", who, fn, o, base[o].writes);
    count("elements_checked", used.size());
  };
  // The order in which this shape's values are visited.
  std::vector<const Cell*> order;
  long budget = n;
  dst.for_each_value([&](Cell& c) { if (--budget < 0) fail("traversal does not end"); order.push_back(&c); });
  CHECK_EQ((long)order.size(), n, "values visited");

  // fill
  clear();
  Cell value(77 + R.below(100));
  nda::fill(dst, value);
  once("fill");
  for (long o : used) CHECK(base[o].v == value.v, "%s fill: element at flat offset %ld is %ld", who, o, (long)base[o].v);
  CHECK(value.writes == 0, "fill wrote to its argument");
  // fill with one of the destination's own elements
  if (n > 0) {
    long at = *std::next(used.begin(), R.below((long)used.size()));
    for (long o : used) base[o].v = o;
    nda::fill(dst, base[at]);
    for (long o : used) CHECK(base[o].v == at, "%s fill with an aliased value", who);
  }
  // generate, with several kinds of generator
  for (int kind = 0; kind < 4; kind++) {
    clear();
    long calls = 0;
    auto lambda = [&]() -> int64_t {
      if (calls >= n) fail("%s generate: the generator is called more than size() times", who);
      return 1000 + calls++;
    };
    g_next = 1000;
    if (kind == 0) nda::generate(dst, lambda);
    if (kind == 1) nda::generate(dst, std::function<int64_t()>(lambda));
    if (kind == 2) nda::generate(dst, next_value);
    if (kind == 3) {
      // A generator with its own state, as an lvalue.
      auto counter = [k = (int64_t)999]() mutable { return ++k; };
      nda::generate(dst, counter);
      CHECK_EQ(counter(), 1000 + n, "state of the generator after generate");
    }
    once("generate");
    if (kind < 2) CHECK_EQ(calls, n, "calls of the generator");
    if (kind == 2) CHECK_EQ(g_next, 1000 + n, "calls of the generator");
    for (long k = 0; k < n; k++) CHECK(order[(size_t)k]->v == 1000 + k, "%s generate: the value generated %ld-th is not in the element visited %ld-th", who, k, k);
    count("generator_calls", (unsigned long long)n);
  }
  // transform_index and transform_indices
  std::vector<Idx> want;
  nda::for_each_index(dst.shape(), [&](const nda::index_of_rank<N>& i) { want.push_back(to_idx(i)); });
  CHECK_EQ((long)want.size(), n, "indices visited");
  for (int kind = 0; kind < 6; kind++) {
    clear();
    std::vector<Idx> trace;
    IndexFn fi{&trace};
    IndicesFn fis{&trace};
    if (kind == 0) nda::transform_index(dst, fi);
    if (kind == 1) nda::transform_indices(dst, fis);
    if (kind == 2) nda::transform_index(dst, IndexFn{&trace});
    if (kind == 3) nda::transform_indices(dst, IndicesFn{&trace});
    if (kind == 4) nda::transform_index(dst, std::function<long(const nda::index_of_rank<N>&)>(fi));
    if (kind == 5) nda::transform_index(dst, [&](nda::index_of_rank<N> i) { return Cell(fi(i)); });
    once("transform");
    CHECK(trace == want, "%s transform (%d): the function is called with other indices, or in another order, than for_each_index", who, kind);
    for (size_t k = 0; k < trace.size(); k++) {
      long o = m.offset(trace[k]);
      CHECK(base[o].v == (long)k + 1, "%s transform (%d): element %s does not hold the value computed for its index", who, kind, idx_str(trace[k]).c_str());
    }
    count("transform_calls", trace.size());
  }
}

template <class Shape>
void run(Rng& R, const MShape& m) {
  desc("%s", m.str().c_str());
  if (m.size() > 1) nontrivial();
  Shape s = from_mshape<Shape>(m);
  {
    Arena<Cell> mem(m);
    reset(mem, m.flat_set());
    mem.protect();
    nda::array_ref<Cell, Shape> ref(mem.base, s);
    battery<Shape>("array_ref", R, ref, m, mem.base);
    mem.verify("array_ref");
  }
  {
    nda::array<Cell, Shape> a(s);
    battery<Shape>("array", R, a, m, a.base());
  }
  {
    // Arrays keeping their elements in themselves, or on the heap when there are too many.
    nda::array<Cell, Shape, nda::auto_allocator<Cell, 16>> a(s);
    battery<Shape>("array with inline storage", R, a, m, a.base());
  }
  {
    // Other element types, and an array view as the destination.
    nda::array<float, Shape> f(s);
    nda::fill(f, 2.5f);
    float sum = 0;
    f.for_each_value([&](float x) { sum += x; });
    CHECK(sum == 2.5f * (float)m.size(), "fill of floats");
    nda::array<char, Shape> c(s);
    long k = 0;
    nda::generate(c.ref(), [&] { return k++ % 100; });
    CHECK_EQ(k, m.size(), "calls of the generator");
  }
}
template <class Shape>
void typed(Rng& R) {
  MShape m;
  if (gen_for_type<Shape>(R, &m, opts(R)) && m.one_to_one()) run<Shape>(R, m);
}
GROUP(dyn, 1500, 40000) {
  size_t rank = (size_t)(I % 5);
  MShape m = gen_shape(R, rank, opts(R));
  with_rank<0, 4>(rank, [&](auto r) { run<nda::shape_of_rank<decltype(r)::value>>(R, m); });
}
GROUP(static_types, 1200, 40000) {
  switch (I % 12) {
  case 0: return typed<nda::matrix_shape<>>(R);
  case 1: return typed<nda::matrix_shape<3, 4>>(R);
  case 2: return typed<nda::chunky_image_shape<3>>(R);
  case 3: return typed<nda::chunky_image_shape<3, 4>>(R);
  case 4: return typed<nda::chunky_image_shape<>>(R);
  case 5: return typed<nda::planar_image_shape>(R);
  case 6: return typed<nda::fixed_dense_shape<2, 3, 4>>(R);
  case 7: return typed<nda::dense_shape<3>>(R);
  case 8: return typed<nda::shape<nda::strided_dim<-1>, nda::dim<>, nda::dim<>>>(R);
  case 9: return typed<nda::vector_shape<6>>(R);
  case 10: return typed<nda::shape<nda::dim<>, nda::dense_dim<>>>(R);
  default: return typed<nda::chunky_image_shape<1>>(R);
  }
}
// Destinations that are views of a larger array: nothing else in it changes.
GROUP(views, 400, 8000) {
  MShape m = gen_shape(R, 3, opts(R));
  if (m.empty()) return;
  MShape sub = gen_subregion(R, m);
  desc("view %s of %s", sub.str().c_str(), m.str().c_str());
  nontrivial();
  nda::array_of_rank<long, 3> a(dyn<3>(m), -5);
  auto v = a(nda::interval<>(sub.d[0].min, sub.d[0].ext), nda::interval<>(sub.d[1].min, sub.d[1].ext), nda::interval<>(sub.d[2].min, sub.d[2].ext));
  int kind = (int)(I % 4);
  if (kind == 0) nda::fill(v, 9L);
  if (kind == 1) nda::generate(v, [] { return 9L; });
  if (kind == 2) nda::transform_index(v, [](const nda::index_of_rank<3>&) { return 9; });
  if (kind == 3) nda::transform_indices(v, [](nda::index_t, nda::index_t, nda::index_t) { return 9; });
  m.each([&](const Idx& i) { CHECK_EQ((call_idx<3>(a, i)), sub.contains(i) ? 9 : -5, "element after writing a view"); });
}
// Trivial elements of several sizes, and layouts with gaps, repeated elements (broadcasts) and dims that interleave
// or overlap: every element reached is assigned and nothing else is written, whatever shortcut the element type allows.
template <class T, size_t N>
void plain(Rng& R, const MShape& m, T v) {
  auto used = m.flat_set();
  long lo = 0, hi = -1;
  if (!used.empty()) {
    lo = *used.begin();
    hi = *used.rbegin();
  }
  long guard = R.range(1, 40);
  for (int kind = 0; kind < 5; kind++) {
    std::vector<T> mem((size_t)(hi - lo + 1 + 2 * guard), T(11));
    nda::array_ref<T, nda::shape_of_rank<N>> ref(mem.data() + guard - lo, dyn<N>(m));
    long calls = 0;
    if (kind == 0) nda::fill(ref, v);
    if (kind == 1) nda::generate(ref, [&] { calls++; return v; });
    if (kind == 2) nda::transform_index(ref, [&](const nda::index_of_rank<N>&) { calls++; return v; });
    if (kind == 3) nda::transform_indices(ref, [&](auto...) { calls++; return v; });
    if (kind == 4) ref.for_each_value([&](T& x) { calls++; x = v; });
    if (kind != 0) CHECK_EQ(calls, m.size(), "calls of the function");
    for (long o = lo - guard; o <= hi + guard; o++)
      CHECK(mem[(size_t)(o - lo + guard)] == (used.count(o) ? v : T(11)), "%s of %zu byte elements: memory at flat offset %ld %s", kind == 0 ? "fill" : kind == 1 ? "generate" : "transform", sizeof(T), o, used.count(o) ? "is not assigned" : "is not an element, but was written");
    count("plain_cells_checked", mem.size());
  }
}
template <size_t N>
void plain_case(Rng& R, long I) {
  GenOpts o = opts(R);
  o.max_size = 200;
  o.allow_broadcast = R.chance(30);
  MShape m = gen_bounds(R, N, o);
  if (R.chance(60)) gen_strides(R, m, o);
  else
    for (auto& x : m.d) x.str = R.range(-6, 6) * (R.chance(50) ? 1 : 2);
  desc("type %ld %s", I % 8, m.str().c_str());
  if (m.size() > 1) nontrivial();
  switch (I % 8) {
  case 0: return plain<char, N>(R, m, (char)R.range(20, 100));
  case 1: return plain<unsigned char, N>(R, m, (unsigned char)R.pick<int>({0, 255, 128, 1}));
  case 2: return plain<signed char, N>(R, m, (signed char)R.pick<int>({0, -1, 127, -128}));
  case 3: return plain<int16_t, N>(R, m, (int16_t)R.pick<int>({0, -1, 257, 256, 3}));
  case 4: return plain<int32_t, N>(R, m, R.pick<int>({0, -1, 0x01010101, 7}));
  case 5: return plain<double, N>(R, m, R.pick<double>({0.0, 1.5, -3.0}));
  case 6: return plain<float, N>(R, m, R.pick<float>({0.0f, -0.0f, 2.0f}));
  default: return plain<uint64_t, N>(R, m, (uint64_t)R.pick<long>({0, -1, 5}));
  }
}
GROUP(plain_types, 800, 20000) {
  switch (I / 8 % 4) {
  case 0: return plain_case<1>(R, I);
  case 1: return plain_case<2>(R, I);
  case 2: return plain_case<3>(R, I);
  default: return plain_case<4>(R, I);
  }
}
HARNESS_MAIN
