// C14: storage contracts of auto_allocator and the uninitialized allocators, one operation at a
// time (histories are in hist.cpp).
#define VERIF_PROP 14
#include "ledger.h"
#include "types.h"
using namespace vh;

template <class T, size_t N, size_t A = alignof(T)>
using AA = nda::auto_allocator<T, N, A, LedgerAlloc<T, 16>>;

// Storage for one array, aligned and with guards.
template <class Arr>
struct Holder {
  unsigned char* mem;
  Arr* a = nullptr;
  Holder() {
    if (posix_memalign((void**)&mem, 128, sizeof(Arr) + 256)) harness_error("out of memory");
    memset(mem, 0x3C, sizeof(Arr) + 256);
  }
  Holder(const Holder&) = delete;
  template <class... As>
  Arr& make(As&&... as) {
    a = new (mem + 128) Arr(std::forward<As>(as)...);
    return *a;
  }
  void drop() {
    if (a) a->~Arr();
    a = nullptr;
  }
  ~Holder() {
    drop();
    for (size_t i = 0; i < 128; i++) {
      CHECK(mem[i] == 0x3C, "bytes before the array object were written");
      CHECK(mem[128 + sizeof(Arr) + i] == 0x3C, "bytes after the array object were written");
    }
    free(mem);
  }
  bool inside(const void* p) const { return (const unsigned char*)p >= mem + 128 && (const unsigned char*)p < mem + 128 + sizeof(Arr); }
};

template <class T>
struct Elem;
template <>
struct Elem<int64_t> { static int64_t v(long i) { return i * 3 + 1; } };
template <>
struct Elem<Tracked> { static Tracked v(long i) { return Tracked(i * 3 + 1); } };
template <>
struct Elem<char> { static char v(long i) { return (char)(i * 3 + 1); } };
template <>
struct Elem<std::string> { static std::string v(long i) { return MakeVal<std::string>::make(i); } };

template <class Arr>
void fill_(Arr& a, long salt) {
  long k = salt;
  a.for_each_value([&](typename Arr::value_type& x) { x = Elem<typename Arr::value_type>::v(k++); });
}
template <class Arr>
void check_(Arr& a, long salt, size_t n, const char* who) {
  CHECK_EQ(a.size(), n, who);
  long k = salt;
  a.for_each_value([&](typename Arr::value_type& x) {
    CHECK(x == Elem<typename Arr::value_type>::v(k), "%s: element %ld lost its value", who, k - salt);
    k++;
  });
}

template <class T, size_t N, size_t A>
void ops(Rng& R, long n, long m, int op) {
  using Al = AA<T, N, A>;
  using Arr = nda::array<T, nda::shape_of_rank<1>, Al>;
  using D = nda::dim<>;
  L().reset();
  desc("N %zu align %zu sizes %ld %ld op %d", N, A, n, m, op);
  nontrivial();
  long min = R.range(-9, 9);
  auto shp = [&](long e) { return nda::shape_of_rank<1>(D(min, e, 1)); };
  {
    Holder<Arr> h, g;
    auto where = [&](Holder<Arr>& q, long e, const char* who) {
      if (e == 0) return;
      const void* p = &(*q.a)(min);
      const void* last = (const char*)&(*q.a)(min + e - 1) + sizeof(T) - 1;
      if (e <= (long)N) {
        CHECK(q.inside(p) && q.inside(last), "%s: %ld elements are not inside the array object", who, e);
        CHECK((uintptr_t)p % A == 0, "%s: the inline buffer is not aligned to %zu", who, A);
      } else {
        const Block* b = L().find(p);
        CHECK(b && b == L().find(last) && !q.inside(p), "%s: %ld elements are not in a block of the base allocator", who, e);
      }
    };
    auto need = [&](long e) { return e > (long)N ? 1L : 0L; };
    Arr& a = h.make(shp(n));
    fill_(a, 7);
    where(h, n, "construction");
    CHECK_EQ(L().ev.allocs, need(n), "base allocations of a construction");
    Arr& b = g.make(shp(m));
    fill_(b, 900);
    where(g, m, "construction");
    CHECK_EQ(L().ev.allocs, need(n) + need(m), "base allocations of two constructions");
    long before = L().ev.allocs;
    bool small = n <= (long)N && m <= (long)N;
    switch (op) {
    case 0:
      b = a;
      check_(a, 7, (size_t)n, "source of a copy");
      check_(b, 7, (size_t)n, "copy");
      where(g, n, "copy assignment");
      fill_(a, 50);
      check_(b, 7, (size_t)n, "copy after writing the source");
      break;
    case 1:
      b = std::move(a);
      check_(b, 7, (size_t)n, "move");
      where(g, n, "move assignment");
      break;
    case 2: {
      Holder<Arr> c;
      c.make(a);
      check_(*c.a, 7, (size_t)n, "copy construction");
      where(c, n, "copy construction");
      h.drop();
      check_(*c.a, 7, (size_t)n, "copy after destroying the source");
      break;
    }
    case 3: {
      Holder<Arr> c;
      c.make(std::move(a));
      check_(*c.a, 7, (size_t)n, "move construction");
      where(c, n, "move construction");
      h.drop();
      check_(*c.a, 7, (size_t)n, "moved array after destroying the source");
      break;
    }
    case 4:
      swap(a, b);
      check_(a, 900, (size_t)m, "swap");
      check_(b, 7, (size_t)n, "swap");
      where(h, m, "swap");
      where(g, n, "swap");
      break;
    case 5:
      a.reshape(shp(m));
      where(h, m, "reshape");
      CHECK_EQ(a.size(), m, "size after reshape");
      for (long i = 0; i < std::min(n, m); i++) CHECK(a(min + i) == Elem<T>::v(7 + i), "reshape lost element %ld", i);
      break;
    case 6:
      a.clear();
      CHECK_EQ(a.size(), 0, "size after clear");
      a = b;
      check_(a, 900, (size_t)m, "copy into a cleared array");
      where(h, m, "copy into a cleared array");
      break;
    case 7: {
      const T v = Elem<T>::v(5);
      a.assign(shp(m), v);
      a.for_each_value([&](T& x) { CHECK(x == v, "assign"); });
      where(h, m, "assign");
      break;
    }
    case 8: {
      Holder<Arr> c;
      Arr& r = c.make(nda::make_copy(a));
      check_(r, 7, (size_t)n, "make_copy");
      where(c, n, "make_copy");
      break;
    }
    case 9: {
      Holder<Arr> c;
      Arr& r = c.make(nda::make_move(std::move(a), shp(n)));
      check_(r, 7, (size_t)n, "make_move");
      where(c, n, "make_move");
      break;
    }
    case 10:
      b.assign(std::move(a));
      check_(b, 7, (size_t)n, "assign(array&&)");
      where(g, n, "assign(array&&)");
      break;
    default: {
      Holder<Arr> c;
      c.make(a, Al());
      check_(*c.a, 7, (size_t)n, "copy construction with an allocator");
      Holder<Arr> d;
      d.make(std::move(*c.a), Al());
      check_(*d.a, 7, (size_t)n, "move construction with an allocator");
      where(d, n, "move construction with an allocator");
      break;
    }
    }
    if (small) CHECK_EQ(L().ev.allocs - before, 0, "base allocations although everything fits inline");
    count("storage_checks", 4);
  }
  CHECK_EQ(L().blocks.size(), 0, "base blocks left");
}

GROUP(operations, 2400, 40000) {
  long op = I % 12;
  long k = I / 12;
  switch (k % 5) {
  case 0: return ops<int64_t, 4, 8>(R, R.below(8), R.below(8), (int)op);
  case 1: return ops<Tracked, 3, 16>(R, R.below(7), R.below(7), (int)op);
  case 2: return ops<char, 8, 64>(R, R.below(13), R.below(13), (int)op);
  case 3: return ops<std::string, 2, 8>(R, R.below(5), R.below(5), (int)op);
  default: return ops<int64_t, 16, 32>(R, R.range(12, 20), R.range(12, 20), (int)op);
  }
}

// auto_allocator driven directly through allocator_traits: it holds at most one request in itself, wherever it has been
// copied or assigned to meanwhile, and two of them compare equal only if each could release the other's storage.
template <class T, size_t N, size_t A>
void direct(Rng& R) {
  using Al = AA<T, N, A>;
  using TR = std::allocator_traits<Al>;
  L().reset();
  desc("direct N %zu align %zu:", N, A);
  nontrivial();
  struct Got { T* p; size_t n; };
  constexpr int P = 3;
  {
    std::unique_ptr<Al> al[P];
    std::vector<Got> got[P];
    for (auto& x : al) x.reset(new Al());
    long inline_held[P] = {};
    auto inside = [&](int k, const void* p) { return (const char*)p >= (const char*)al[k].get() && (const char*)p < (const char*)(al[k].get() + 1); };
    for (int step = 0; step < 30; step++) {
      int k = (int)R.below(P), j = (int)R.below(P);
      int op = (int)R.below(6);
      if (op <= 1) {
        size_t n = (size_t)R.range(1, (long)N + 3);
        desc(" %d.allocate(%zu)", k, n);
        long before = L().ev.allocs;
        T* p = TR::allocate(*al[k], n);
        bool want = n <= N && !inline_held[k];
        CHECK(inside(k, p) == want, "allocate(%zu) with the inline buffer %s is %s the allocator", n, inline_held[k] ? "taken" : "free", want ? "outside" : "inside");
        CHECK_EQ(L().ev.allocs - before, want ? 0 : 1, "base allocations");
        if (want) {
          CHECK(inside(k, (const char*)(p + n) - 1) && (uintptr_t)p % A == 0, "the inline buffer is too small or not aligned to %zu", A);
          inline_held[k] = 1;
        }
        for (auto& q : got)
          for (auto& g : q) CHECK(p + n <= g.p || g.p + g.n <= p, "allocate returned storage that is still in use");
        memset((void*)p, 0x11 * (k + 1), n * sizeof(T));
        got[k].push_back({p, n});
        count("direct_allocations");
      } else if (op == 2 && !got[k].empty()) {
        size_t w = (size_t)R.below((long)got[k].size());
        Got g = got[k][w];
        desc(" %d.deallocate(%zu)", k, g.n);
        got[k].erase(got[k].begin() + (long)w);
        if (inside(k, g.p)) inline_held[k] = 0;
        TR::deallocate(*al[k], g.p, g.n);
      } else if (op == 3) {
        // The contents of neither allocator's storage change hands.
        desc(" %d=%d", k, j);
        if (R.chance(50)) *al[k] = *al[j];
        else *al[k] = std::move(*al[j]);
      } else if (op == 4 && got[k].empty()) {
        desc(" %d=new(%d)", k, j);
        Al* q = R.chance(50) ? new Al(*al[j]) : R.chance(50) ? new Al(std::move(*al[j])) : new Al(TR::select_on_container_copy_construction(*al[j]));
        if (k == j) al[k].reset(q);
        else al[k].reset(q);
        inline_held[k] = 0;
      } else {
        const Al &x = *al[k], &y = *al[j];
        bool want = (k == j) || (!inline_held[k] && !inline_held[j]);
        desc(" %d==%d", k, j);
        CHECK((x == y) == want && (x != y) == !want, "comparison of allocators %s inline storage", inline_held[k] || inline_held[j] ? "with" : "without");
        count("direct_comparisons");
      }
      for (int q = 0; q < P; q++)
        for (auto& g : got[q])
          for (size_t i = 0; i < g.n * sizeof(T); i++) CHECK(((unsigned char*)g.p)[i] == (unsigned char)(0x11 * (q + 1)), "storage handed out was written by the allocator");
    }
    for (int k = 0; k < P; k++)
      for (auto& g : got[k]) TR::deallocate(*al[k], g.p, g.n);
  }
  CHECK_EQ(L().blocks.size(), 0, "base blocks left");
}
GROUP(direct_use, 400, 8000) {
  switch (I % 4) {
  case 0: return direct<int64_t, 4, 8>(R);
  case 1: return direct<char, 8, 16>(R);
  case 2: return direct<int32_t, 1, 4>(R);
  default: return direct<int64_t, 16, 16>(R);
  }
}

// A base allocator with state: requests that do not fit inline come from (and return to) the base allocator of the
// allocator the array was given.
static int arena_now = 0;
static std::map<const void*, std::pair<int, size_t>> arena_blocks;
template <class T>
struct ArenaAlloc {
  using value_type = T;
  int id = arena_now;
  T* allocate(size_t n) {
    T* p = (T*)malloc(n * sizeof(T) + 1);
    arena_blocks[p] = {id, n};
    count("arena_blocks");
    return p;
  }
  void deallocate(T* p, size_t n) {
    auto it = arena_blocks.find(p);
    CHECK(it != arena_blocks.end(), "a block is returned to the base allocator that it never handed out");
    CHECK_EQ(it->second.first, id, "base allocator that a block is returned to");
    CHECK_EQ(it->second.second, n, "size of a returned block");
    arena_blocks.erase(it);
    free(p);
  }
  bool operator==(const ArenaAlloc& o) const { return id == o.id; }
  bool operator!=(const ArenaAlloc& o) const { return id != o.id; }
};
template <size_t N>
void arenas(Rng& R) {
  using Al = nda::auto_allocator<int64_t, N, alignof(int64_t), ArenaAlloc<int64_t>>;
  using S = nda::shape_of_rank<1>;
  using Arr = nda::array<int64_t, S, Al>;
  arena_blocks.clear();
  long n = R.range(0, 2 * (long)N), m = R.range(0, 2 * (long)N);
  int op = (int)R.below(8);
  desc("N %zu sizes %ld %ld op %d", N, n, m, op);
  nontrivial();
  arena_now = 1;
  Al x;
  arena_now = 2;
  Al y;
  arena_now = 3;
  {
    auto from = [&](Arr& a, long e, int id, const char* how) {
      CHECK_EQ(a.size(), (size_t)e, how);
      if (e == 0) return;
      auto it = arena_blocks.find(a.data());
      if (e <= (long)N) CHECK(it == arena_blocks.end(), "%s: %ld elements are not inline", how, e);
      else CHECK(it != arena_blocks.end() && it->second.first == id, "%s: %ld elements come from base allocator %d, not %d", how, e, it == arena_blocks.end() ? 0 : it->second.first, id);
    };
    auto S1 = [](long e) { return S(nda::dim<>(0, e)); };
    Arr a(S1(n), x), b(S1(m), int64_t(9), y);
    fill_(a, 7);
    from(a, n, 1, "construction with an allocator");
    from(b, m, 2, "construction from a value with an allocator");
    switch (op) {
    case 0: b = a; from(b, n, 2, "copy assignment"); check_(b, 7, (size_t)n, "copy assignment"); break;
    case 1: b = std::move(a); from(b, n, 2, "move assignment"); check_(b, 7, (size_t)n, "move assignment"); break;
    case 2: { Arr c(a, y); from(c, n, 2, "copy construction with an allocator"); check_(c, 7, (size_t)n, "copy"); break; }
    case 3: { Arr c(std::move(a), y); from(c, n, 2, "move construction with an allocator"); check_(c, 7, (size_t)n, "move"); break; }
    case 4: swap(a, b); from(a, m, 1, "swap"); from(b, n, 2, "swap"); check_(b, 7, (size_t)n, "swap"); break;
    case 5: a.reshape(S1(m)); from(a, m, 1, "reshape"); break;
    case 6: { auto c = nda::make_copy(a, S1(n), y); from(c, n, 2, "make_copy with an allocator"); check_(c, 7, (size_t)n, "make_copy"); break; }
    default: a.clear(); a.assign(S1(m), int64_t(3)); from(a, m, 1, "assign"); break;
    }
    Al z(x), w;
    CHECK(z == x && !(z == w) && z != y, "auto_allocators compare their base allocators");
    int64_t* p = z.allocate(N + 1);
    CHECK(arena_blocks[p].first == 1, "a copy of an auto_allocator uses base allocator %d", arena_blocks[p].first);
    z.deallocate(p, N + 1);
    w = y;
    p = w.allocate(N + 2);
    CHECK(arena_blocks[p].first == 2, "an assigned auto_allocator uses base allocator %d", arena_blocks[p].first);
    w.deallocate(p, N + 2);
    Al v(std::move(y));
    p = v.allocate(N + 3);
    CHECK(arena_blocks[p].first == 2, "a moved auto_allocator uses base allocator %d", arena_blocks[p].first);
    v.deallocate(p, N + 3);
  }
  CHECK_EQ(arena_blocks.size(), 0, "base blocks left");
}
GROUP(stateful_base, 400, 6000) {
  if (I % 2) arenas<4>(R);
  else arenas<1>(R);
}

// The allocators alone: what construct and destroy do to the bytes.
GROUP(uninitialized, 400, 4000) {
  nontrivial();
  desc("bytes %ld", R.range(0, 1 << 20));
  {
    nda::uninitialized_std_allocator<int64_t> al;
    using TR = std::allocator_traits<decltype(al)>;
    int64_t* p = TR::allocate(al, 4);
    int64_t want[4];
    for (int i = 0; i < 4; i++) p[i] = want[i] = (int64_t)R.next();
    for (int i = 0; i < 4; i++) {
      int what = (int)R.below(3);
      if (what == 0) TR::construct(al, p + i);
      if (what == 1) TR::construct(al, p + i, want[i] = (int64_t)R.next());
      if (what == 2) {
        const int64_t v = want[i] = (int64_t)R.next();
        TR::construct(al, p + i, v);
      }
      for (int j = 0; j < 4; j++) CHECK(p[j] == want[j], "construct(%s) left element %d wrong", what ? "value" : "", j);
    }
    TR::deallocate(al, p, 4);
  }
  {
    // Arrays: default construction leaves the base allocator's bytes.
    using Al = nda::uninitialized_allocator<LedgerAlloc<int32_t, 0>>;
    using S = nda::shape_of_rank<2>;
    L().reset();
    long w = R.range(1, 5), h = R.range(1, 5);
    S s(nda::dim<>(R.range(-3, 3), w), nda::dim<>(0, h));
    nda::array<int32_t, S, Al> a(s);
    long n = 0;
    a.for_each_value([&](int32_t& x) { CHECK(x == (int32_t)0xcdcdcdcd, "default construction wrote an element"); n++; });
    CHECK_EQ(n, w * h, "elements");
    nda::array<int32_t, S, Al> b(s, 17);
    b.for_each_value([&](int32_t& x) { CHECK(x == 17, "construction from a value"); });
    auto c = b;
    CHECK(c == b, "copy of an array with uninitialized_allocator");
    // Reshape: kept elements keep their value, new ones are untouched bytes.
    S s2(nda::dim<>(s.dim(0).min() - 1, w + 2), nda::dim<>(0, h));
    c.reshape(s2);
    nda::for_all_indices(c.shape(), [&](nda::index_t x, nda::index_t y) {
      CHECK(c(x, y) == (s.is_in_range(x, y) ? 17 : (int32_t)0xcdcdcdcd), "reshape with uninitialized_allocator");
    });
    a = std::move(b);
    a.for_each_value([&](int32_t& x) { CHECK(x == 17, "move"); });
    count("uninitialized_elements", (unsigned long long)n);
  }
  {
    using Al = nda::uninitialized_auto_allocator<int64_t, 8>;
    nda::dense_array<int64_t, 1, Al> a({R.range(0, 12)});
    int64_t k = 100;
    a.for_each_value([&](int64_t& x) { x = k++; });
    nda::dense_array<int64_t, 1, Al> b = a, c = std::move(a), d({3}, 9);
    CHECK(b == c, "copies with uninitialized_auto_allocator");
    swap(b, d);
    CHECK(d == c, "swap with uninitialized_auto_allocator");
    CHECK(b.size() == 3 && b(0) == 9 && b(2) == 9, "values with uninitialized_auto_allocator");
    const char* p = (const char*)b.data();
    CHECK(p >= (char*)&b && p + 24 <= (char*)(&b + 1), "uninitialized_auto_allocator keeps elements inline");
  }
}
HARNESS_MAIN
