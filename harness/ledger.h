// Monitors of allocation and element lifetime: an allocator that records every block and an
// element type that records every construction, destruction, assignment and read.
// The predicates MON_LIFE, MON_ALLOC, MON_VALUE select which property a failure belongs to: a
// monitor that is off still records (so the driver can make progress) but does not judge.
#ifndef VERIF_LEDGER_H
#define VERIF_LEDGER_H
#include "model.h"

#ifndef VERIF_PROP
#define VERIF_PROP 0 // all monitors
#endif
#define MON_LIFE (VERIF_PROP == 0 || VERIF_PROP == 11)
#define MON_VALUE (VERIF_PROP == 0 || VERIF_PROP == 12 || VERIF_PROP == 14 || VERIF_PROP == 15)
#define MON_ALLOC (VERIF_PROP == 0 || VERIF_PROP == 13)
#define MON_STORE (VERIF_PROP == 0 || VERIF_PROP == 14)
#define JUDGE(mon, cond, ...)                                                                      \
  do {                                                                                             \
    if ((mon) && !(cond)) ::vh::fail(__VA_ARGS__);                                                 \
  } while (0)

namespace vh {

struct Block {
  char* p;
  size_t n, elem;
  int id; // identity class of the allocator
  bool through; // elements must be constructed through the allocator
};
struct Events {
  long ctor_default = 0, ctor_value = 0, ctor_copy = 0, ctor_move = 0, assign_copy = 0, assign_move = 0, dtor = 0;
  long allocs = 0, frees = 0, constructs = 0, destroys = 0;
  long makes() const { return ctor_default + ctor_value + ctor_copy + ctor_move; }
  Events operator-(const Events& o) const {
    Events r = *this;
    r.ctor_default -= o.ctor_default, r.ctor_value -= o.ctor_value, r.ctor_copy -= o.ctor_copy, r.ctor_move -= o.ctor_move;
    r.assign_copy -= o.assign_copy, r.assign_move -= o.assign_move, r.dtor -= o.dtor;
    r.allocs -= o.allocs, r.frees -= o.frees, r.constructs -= o.constructs, r.destroys -= o.destroys;
    return r;
  }
};
struct Ledger {
  std::map<char*, Block> blocks; // by start
  std::map<const void*, int> live; // live tracked elements
  const void* constructing = nullptr;
  const void* destroying = nullptr;
  int acting_id = -1;
  long fail_in = -1; // allocations until one throws; -1 never
  Events ev;
  // Tight mode: blocks are neighbours without any gap, so that pointers just outside one block
  // point into (or at the start of) another.
  static constexpr size_t ARENA = 1 << 16;
  bool tight = false;
  char* arena = nullptr;
  size_t top = 0;
  char* get(size_t bytes) {
    if (tight && bytes > 0 && top + bytes <= ARENA) {
      if (!arena && posix_memalign((void**)&arena, 64, ARENA)) return nullptr;
      char* p = arena + top;
      top += bytes;
      VH_UNPOISON(p, bytes);
      return p;
    }
    return (char*)malloc(bytes + 1);
  }
  void put(char* p, size_t bytes) {
    if (arena && p >= arena && p < arena + ARENA) {
      if (p + bytes == arena + top) top -= bytes;
      if ((uintptr_t)p % 8 == 0) VH_POISON(p, bytes);
    } else {
      free(p);
    }
  }
  const Block* find(const void* p) const {
    auto it = blocks.upper_bound((char*)p);
    if (it == blocks.begin()) return nullptr;
    --it;
    const Block& b = it->second;
    return (char*)p < b.p + b.n * b.elem ? &b : nullptr;
  }
  long live_in(const Block& b) const {
    long n = 0;
    for (auto it = live.lower_bound(b.p); it != live.end() && (char*)it->first < b.p + b.n * b.elem; ++it) n++;
    return n;
  }
  void reset() {
    blocks.clear();
    live.clear();
    fail_in = -1;
    ev = Events();
    top = 0;
    tight = false;
  }
};
inline Ledger& L() {
  static Ledger* l = new Ledger();
  return *l;
}

// ---------------------------------------------------------------- element
constexpr int64_t DEFAULT_VALUE = 4242, MOVED_VALUE = -777, DEAD_VALUE = 0x5ead5ead5ead;
constexpr int64_t PATTERN = (int64_t)0xcdcdcdcdcdcdcdcdull, UNKNOWN = INT64_MIN;
struct Tracked {
  int64_t v;
  uint64_t self;
  void born(const char* how) {
    Ledger& l = L();
    JUDGE(MON_LIFE, !l.live.count(this), "an element is constructed (%s) over a live element", how);
    if (const Block* b = l.find(this)) {
      JUDGE(MON_LIFE, ((char*)this - b->p) % sizeof(Tracked) == 0, "an element is constructed at a misaligned place of a block");
      JUDGE(MON_ALLOC, !b->through || l.constructing == this, "an element of an array is constructed (%s) without its allocator", how);
      JUDGE(MON_ALLOC, l.constructing != this || l.acting_id == b->id, "an element is constructed by allocator %d in a block of allocator %d", l.acting_id, b->id);
    }
    l.live[this] = 1;
    self = (uint64_t)(uintptr_t)this;
  }
  void used(const char* how) const {
    JUDGE(MON_LIFE, L().live.count(this), "an element is used (%s) while it is not alive", how);
  }
  Tracked() : v(DEFAULT_VALUE) {
    L().ev.ctor_default++;
    born("default");
  }
  Tracked(int64_t x) : v(x) {
    L().ev.ctor_value++;
    born("value");
  }
  Tracked(const Tracked& o) {
    o.used("copied from");
    v = o.v;
    L().ev.ctor_copy++;
    born("copy");
  }
  Tracked(Tracked&& o) {
    o.used("moved from");
    v = o.v;
    L().ev.ctor_move++;
    born("move");
    o.v = MOVED_VALUE;
  }
  Tracked& operator=(const Tracked& o) {
    used("assigned to");
    o.used("copied from");
    v = o.v;
    L().ev.assign_copy++;
    return *this;
  }
  Tracked& operator=(Tracked&& o) {
    used("assigned to");
    o.used("moved from");
    int64_t x = o.v;
    if (&o != this) o.v = MOVED_VALUE;
    v = x;
    L().ev.assign_move++;
    return *this;
  }
  ~Tracked() {
    Ledger& l = L();
    l.ev.dtor++;
    JUDGE(MON_LIFE, l.live.count(this), "an element is destroyed while it is not alive");
    if (const Block* b = l.find(this)) {
      JUDGE(MON_ALLOC, !b->through || l.destroying == this, "an element of an array is destroyed without its allocator");
      JUDGE(MON_ALLOC, l.destroying != this || l.acting_id == b->id, "an element is destroyed by allocator %d in a block of allocator %d", l.acting_id, b->id);
    }
    l.live.erase(this);
    v = DEAD_VALUE;
  }
  bool operator==(const Tracked& o) const {
    used("compared");
    o.used("compared");
    return v == o.v;
  }
  bool operator!=(const Tracked& o) const { return !(*this == o); }
};
struct MoveTracked : Tracked {
  MoveTracked() = default;
  MoveTracked(int64_t x) : Tracked(x) {}
  MoveTracked(MoveTracked&&) = default;
  MoveTracked& operator=(MoveTracked&&) = default;
  MoveTracked(const MoveTracked&) = delete;
  MoveTracked& operator=(const MoveTracked&) = delete;
};
inline int64_t value_of(const Tracked& t) {
  t.used("read");
  return t.v;
}
inline int64_t value_of(const int64_t& t) { return t; }
inline int64_t value_of(const std::string& t) { return t.empty() ? DEFAULT_VALUE : atoll(t.c_str()); }
template <class T>
struct MakeVal {
  static T make(int64_t v) { return T(v); }
};
template <>
struct MakeVal<std::string> {
  static std::string make(int64_t v) { return std::to_string(v) + " a string too long for the small buffer"; }
};

// ---------------------------------------------------------------- allocator
// Flags: 1 propagate on copy assignment, 2 on move assignment, 4 on swap, 8 always-default on copy
// construction (select_on_container_copy_construction gives id + 50), 16 a base allocator whose construct and destroy need not be used.
template <class T, int Flags>
struct LedgerAlloc {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, (Flags & 1) != 0>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, (Flags & 2) != 0>;
  using propagate_on_container_swap = std::integral_constant<bool, (Flags & 4) != 0>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = LedgerAlloc<U, Flags>;
  };
  int id;
  LedgerAlloc() : id(0) {}
  explicit LedgerAlloc(int i) : id(i) {}
  template <class U>
  LedgerAlloc(const LedgerAlloc<U, Flags>& o) : id(o.id) {}
  LedgerAlloc select_on_container_copy_construction() const { return LedgerAlloc(Flags & 8 ? id + 50 : id); }
  T* allocate(size_t n) {
    Ledger& l = L();
    if (l.fail_in > 0 && --l.fail_in == 0) {
      l.fail_in = -1;
      throw std::bad_alloc();
    }
    char* p = l.get(n * sizeof(T));
    if (!p) harness_error("out of memory");
    memset(p, 0xCD, n * sizeof(T));
    l.blocks[p] = Block{p, n, sizeof(T), id, !(Flags & 16)};
    l.ev.allocs++;
    count("allocations");
    return (T*)p;
  }
  void deallocate(T* q, size_t n) {
    Ledger& l = L();
    char* p = (char*)q;
    if (!p && n == 0) return;
    auto it = l.blocks.find(p);
    // Freeing a pointer that is not a block would corrupt the heap: stop whatever the property.
    if (it == l.blocks.end()) fail("deallocation of %p, which is not an allocated block", (void*)p);
    JUDGE(MON_ALLOC, it->second.n == n, "a block of %zu elements is deallocated as %zu", it->second.n, n);
    JUDGE(MON_ALLOC, it->second.id == id, "a block of allocator %d is returned to allocator %d", it->second.id, id);
    JUDGE(MON_LIFE, l.live_in(it->second) == 0, "a block is deallocated with %ld live elements in it", l.live_in(it->second));
    for (auto e = l.live.lower_bound(p); e != l.live.end() && (char*)e->first < p + it->second.n * sizeof(T);) e = l.live.erase(e);
    size_t bytes = it->second.n * sizeof(T);
    l.blocks.erase(it);
    l.put(p, bytes);
    l.ev.frees++;
  }
  template <class U, class... Args>
  void construct(U* p, Args&&... args) {
    Ledger& l = L();
    l.constructing = p;
    l.acting_id = id;
    l.ev.constructs++;
    new ((void*)p) U(std::forward<Args>(args)...);
    l.constructing = nullptr;
  }
  template <class U>
  void destroy(U* p) {
    Ledger& l = L();
    l.destroying = p;
    l.acting_id = id;
    l.ev.destroys++;
    p->~U();
    l.destroying = nullptr;
  }
  template <class U>
  friend bool operator==(const LedgerAlloc& a, const LedgerAlloc<U, Flags>& b) {
    return a.id == b.id;
  }
  template <class U>
  friend bool operator!=(const LedgerAlloc& a, const LedgerAlloc<U, Flags>& b) {
    return a.id != b.id;
  }
};
// ledger: a LedgerAlloc or a wrapper of one; fresh: what a default constructed element holds
// (0 a value, 1 PATTERN, 2 unspecified); inline_n: elements kept inside the array object.
template <class A>
struct AllocTraits {
  static constexpr bool ledger = false;
  static constexpr int fresh = 0;
  static constexpr long inline_n = 0, align = 1;
  static int id(const A&) { return 0; }
  static int socc(int id) { return id; } // the id that a copy of an array selects
  // Does the allocator itself go along (for wrappers: as the allocator they wrap says)?
  using Tr = std::allocator_traits<typename std::conditional<std::is_same<A, int>::value, std::allocator<int>, A>::type>;
  static constexpr bool pocca = Tr::propagate_on_container_copy_assignment::value;
  static constexpr bool pocma = Tr::propagate_on_container_move_assignment::value;
  static constexpr bool pocs = Tr::propagate_on_container_swap::value;
  static A make(int) { return A(); }
};
template <class T, int F>
struct AllocTraits<LedgerAlloc<T, F>> : AllocTraits<int> {
  static constexpr bool ledger = true;
  static int id(const LedgerAlloc<T, F>& a) { return a.id; }
  static int socc(int id) { return F & 8 ? id + 50 : id; }
  static constexpr bool pocca = F & 1, pocma = F & 2, pocs = F & 4;
  static LedgerAlloc<T, F> make(int i) { return LedgerAlloc<T, F>(i); }
};
template <class T, int F>
struct AllocTraits<nda::uninitialized_allocator<LedgerAlloc<T, F>>> : AllocTraits<int> {
  using U = nda::uninitialized_allocator<LedgerAlloc<T, F>>;
  static constexpr bool ledger = true;
  static constexpr int fresh = 1;
  static int id(const U& a) { return a.id; }
  static int socc(int id) { return F & 8 ? id + 50 : id; }
  static constexpr bool pocca = F & 1, pocma = F & 2, pocs = F & 4;
  static U make(int i) {
    U u;
    u.id = i;
    return u;
  }
};
template <class T, size_t N, size_t A, class B>
struct AllocTraits<nda::auto_allocator<T, N, A, B>> : AllocTraits<int> {
  using U = nda::auto_allocator<T, N, A, B>;
  static constexpr long inline_n = (long)N, align = (long)A;
  static constexpr bool pocca = false, pocma = false, pocs = false;
  static int id(const U&) { return 0; }
  static U make(int) { return U(); }
};
template <class T, size_t N, size_t A, class B>
struct AllocTraits<nda::uninitialized_allocator<nda::auto_allocator<T, N, A, B>>> : AllocTraits<int> {
  using U = nda::uninitialized_allocator<nda::auto_allocator<T, N, A, B>>;
  static constexpr int fresh = 2;
  static constexpr long inline_n = (long)N, align = (long)A;
  static constexpr bool pocca = false, pocma = false, pocs = false;
  static int id(const U&) { return 0; }
  static U make(int) { return U(); }
};

} // namespace vh
#endif
