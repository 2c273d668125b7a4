// Random histories over a small pool of arrays, judged after every operation against a
// value-semantic model and the ledger. See ledger.h for which monitors judge in which check.
#ifndef VERIF_HISTORY_H
#define VERIF_HISTORY_H
#include "ledger.h"
#include "types.h"

namespace vh {

enum Status {
  ABSENT,
  LIVE,
  HOLLOW,  // moved from: a non-empty (static) shape without storage; acts as default elements when copied
  LIMITED, // involved in a failed allocation: may only be assigned or destroyed
};

template <class T, class Shape, class Alloc, bool CanCopy = true>
struct History {
  using A = nda::array<T, Shape, Alloc>;
  using AT = AllocTraits<Alloc>;
  using Tr = std::allocator_traits<Alloc>;
  static constexpr size_t N = Shape::rank();
  static constexpr bool POCCA = AT::pocca;
  static constexpr bool POCMA = AT::pocma;
  static constexpr bool POCS = AT::pocs;
  static constexpr bool tracked = std::is_base_of<Tracked, T>::value;

  struct Slot {
    A* a = nullptr;
    Status st = ABSENT;
    MShape shape;
    std::vector<int64_t> vals;
    int id = 0; // allocator, -1 unknown
  };
  static constexpr int P = 4;
  Slot s[P];
  Rng& R;
  int64_t next_val = 1;
  MShape default_shape;
  bool failing;
  long locals = 0; // elements alive in the harness itself
  GenOpts opts;

  History(Rng& R_, bool failing_) : R(R_), failing(failing_) {
    L().reset();
    L().tight = R.chance(40);
    if (R.chance(30)) opts.empty_percent = 12;
    Shape d;
    d.resolve();
    default_shape = to_mshape(d);
    opts.max_size = 60;
    opts.max_ext = 5;
    opts.allow_empty = true;
  }

  // Arrays may need more alignment than C++14's operator new provides.
  static void* mem() {
    void* p = nullptr;
    if (posix_memalign(&p, 64, sizeof(A))) harness_error("out of memory");
    return p;
  }
  // The value of a default constructed element, UNKNOWN if unspecified.
  static int64_t dflt() { return AT::fresh == 1 ? PATTERN : AT::fresh == 2 ? UNKNOWN : std::is_same<T, int64_t>::value ? 0 : DEFAULT_VALUE; }

  // ---- model helpers
  static size_t count_of(const MShape& m) { return (size_t)m.size(); }
  static int64_t value_at(const Slot& x, const Idx& i) {
    long o = 0, str = 1;
    for (size_t k = 0; k < x.shape.rank(); k++) {
      o += (i[k] - x.shape.d[k].min) * str;
      str *= x.shape.d[k].ext;
    }
    return x.vals[(size_t)o];
  }
  void set_model(Slot& x, const MShape& m, int64_t v) {
    x.shape = m;
    x.vals.assign(count_of(m), v);
    x.st = LIVE;
  }
  // Whatever the library left there (used where the result is valid but unspecified).
  void resync(Slot& x) {
    Shape sh = x.a->shape();
    sh.resolve();
    x.shape = to_mshape(sh);
    x.vals.assign(count_of(x.shape), dflt());
    if (!x.shape.empty() && x.a->base() == nullptr) {
      x.st = HOLLOW;
      return;
    }
    x.st = LIVE;
    size_t k = 0;
    x.shape.each([&](const Idx& i) { x.vals[k++] = value_of(call_idx<N>(*x.a, i)); });
    x.id = AT::id(x.a->get_allocator());
  }

  // ---- the monitors, after every operation
  void check(const char* op) {
    long total_live = 0, owned = 0, maybe_owned = 0;
    std::set<const Block*> seen;
    for (int k = 0; k < P; k++) {
      Slot& x = s[k];
      if (x.st == ABSENT || x.st == LIMITED) continue;
      A& a = *x.a;
      const A& ca = a;
      MShape got = to_mshape(a.shape());
      // The strides of an array without storage may be unresolved.
      if (!a.base() && same_bounds(got, x.shape)) got = x.shape;
      JUDGE(MON_VALUE, got == x.shape, "after %s: array %d has shape %s, the model says %s", op, k, got.str().c_str(), x.shape.str().c_str());
      if (!(got == x.shape)) {
        resync(x);
        if (x.st != LIVE) continue;
      }
      int id = AT::id(a.get_allocator());
      JUDGE(MON_ALLOC, x.id < 0 || id == x.id, "after %s: array %d has allocator %d, expected %d", op, k, id, x.id);
      x.id = id;
      if (x.st == HOLLOW) continue;
      JUDGE(MON_VALUE, a.empty() == x.shape.empty() && a.size() == count_of(x.shape), "after %s: size of array %d", op, k);
      if (x.shape.empty()) {
        JUDGE(MON_VALUE, a.size() == 0, "after %s: size of the empty array %d", op, k);
        maybe_owned += a.base() != nullptr; // a flat extent without elements
        continue;
      }
      if (a.base() == nullptr) fail("after %s: array %d has elements but no storage", op, k);
      long lo, hi;
      x.shape.flat_range(&lo, &hi);
      if (AT::ledger) {
        const Block* b = L().find(a.base() + lo);
        const Block* b2 = L().find(a.base() + hi);
        if (!b || b != b2) fail("after %s: array %d is not inside one allocated block", op, k);
        JUDGE(MON_ALLOC || MON_VALUE, seen.insert(b).second, "after %s: array %d shares its block with another array", op, k);
        JUDGE(MON_ALLOC, b->id == id, "after %s: the block of array %d came from allocator %d, the array has allocator %d", op, k, b->id, id);
        owned++;
        if (tracked) {
          long n = L().live_in(*b);
          JUDGE(MON_LIFE, n == (long)count_of(x.shape), "after %s: the block of array %d has %ld live elements, the array %ld", op, k, n, (long)count_of(x.shape));
          total_live += n;
        }
      } else if (AT::inline_n > 0) {
        const char* p = (const char*)(a.base() + lo);
        size_t bytes = (size_t)(hi - lo + 1) * sizeof(T);
        bool inside = p >= (const char*)&a && p + bytes <= (const char*)(&a + 1);
        if (hi - lo + 1 <= AT::inline_n) {
          JUDGE(MON_STORE, inside, "after %s: array %d needs %ld elements, but does not keep them in its inline buffer for %ld", op, k, hi - lo + 1, AT::inline_n);
          JUDGE(MON_STORE, (uintptr_t)p % AT::align == 0, "after %s: the inline buffer of array %d is not aligned to %ld", op, k, (long)AT::align);
          count("inline_arrays_seen");
        } else {
          const Block* b = L().find(a.base() + lo);
          JUDGE(MON_STORE, !inside && b && b == L().find(a.base() + hi), "after %s: array %d needs %ld elements, but they are not in a block of the base allocator", op, k, hi - lo + 1);
          JUDGE(MON_STORE, seen.insert(b).second, "after %s: array %d shares its block with another array", op, k);
          owned++;
          count("base_allocated_arrays_seen");
        }
        if (tracked) {
          Block fake{(char*)p, (size_t)(hi - lo + 1), sizeof(T), 0, false};
          long n = L().live_in(fake);
          JUDGE(MON_LIFE, n == (long)count_of(x.shape), "after %s: array %d has %ld live elements in its storage, its size is %ld", op, k, n, (long)count_of(x.shape));
        }
        JUDGE(MON_STORE, share_check(k), "after %s: array %d shares storage with another", op, k);
      } else {
        JUDGE(MON_VALUE, share_check(k), "after %s: array %d shares storage with another", op, k);
      }
      size_t n = 0;
      x.shape.each([&](const Idx& i) {
        auto& e = call_idx<N>(a, i);
        int64_t v = value_of(e);
        if (x.vals[n] == UNKNOWN) x.vals[n] = v;
        JUDGE(MON_VALUE, v == x.vals[n], "after %s: element %s of array %d is %ld, the model says %ld", op, idx_str(i).c_str(), k, (long)v, (long)x.vals[n]);
        JUDGE(MON_VALUE, &call_idx<N>(ca, i) == &e, "const and mutable access differ");
        x.vals[n] = v;
        n++;
      });
      count("elements_checked", n);
    }
    for (int k = 0; k < P; k++) {
      if (s[k].st != LIMITED && s[k].st != HOLLOW) continue;
      // Might own something or not: count what is attributable.
      if (!AT::ledger || !s[k].a->base()) continue;
      const Block* b = L().find(s[k].a->data());
      if (b && seen.insert(b).second) {
        owned++;
        if (tracked) total_live += L().live_in(*b);
      }
    }
    if (AT::ledger) {
      bool unknown = false;
      for (int k = 0; k < P; k++) unknown |= s[k].st == LIMITED;
      JUDGE(MON_ALLOC, unknown || ((long)L().blocks.size() >= owned && (long)L().blocks.size() <= owned + maybe_owned), "after %s: %zu blocks are allocated, the arrays own %ld", op, L().blocks.size(), owned);
      JUDGE(MON_ALLOC, unknown || !maybe_owned || (long)L().blocks.size() > owned, "after %s: an array without elements or storage has a base", op);
      if (tracked) JUDGE(MON_LIFE, unknown || (long)L().live.size() == total_live + locals, "after %s: %zu elements are alive, the arrays have %ld", op, L().live.size(), total_live);
    }
    if (AT::inline_n > 0) {
      bool unknown = false;
      for (int k = 0; k < P; k++) unknown |= s[k].st == LIMITED;
      JUDGE(MON_STORE, unknown || ((long)L().blocks.size() >= owned && (long)L().blocks.size() <= owned + maybe_owned), "after %s: %zu blocks of the base allocator are allocated, the arrays need %ld", op, L().blocks.size(), owned);
    }
    count("states_checked");
  }
  static bool same_bounds(const MShape& a, const MShape& b) {
    for (size_t k = 0; k < N; k++)
      if (a.d[k].min != b.d[k].min || a.d[k].ext != b.d[k].ext) return false;
    return true;
  }
  bool share_check(int k) {
    for (int j = 0; j < P; j++)
      if (j != k && (s[j].st == LIVE) && !s[j].shape.empty() && s[j].a->base() == s[k].a->base()) return false;
    return true;
  }

  // ---- generators
  // A shape argument; *m is what it resolves to.
  Shape shape_arg(MShape* m, bool nonempty = false) {
    for (int t = 0; t < 200; t++) {
      opts.allow_empty = !nonempty && R.chance(40);
      if (!gen_for_type<Shape>(R, m, opts) || !m->one_to_one() || (nonempty && m->empty())) continue;
      if (m->size() > 300) continue;
      MShape arg = *m;
      if (R.chance(35)) {
        std::vector<long> ss = static_strides<Shape>(std::make_index_sequence<N>());
        for (size_t k = 0; k < N; k++)
          if (ss[k] == (long)nda::dynamic) arg.d[k].str = (long)nda::unresolved;
      }
      Shape r = from_mshape<Shape>(arg);
      Shape q = r;
      q.resolve();
      *m = to_mshape(q);
      if (!m->one_to_one()) continue;
      return r;
    }
    Shape d;
    *m = default_shape;
    return d;
  }
  // A shape equal, overlapping or disjoint in relation to x's.
  Shape related_shape(const Slot& x, MShape* m) {
    if (x.shape.rank() == 0 || R.chance(25)) return shape_arg(m);
    if (R.chance(10)) {
      *m = x.shape;
      return from_mshape<Shape>(*m);
    }
    MShape fixed;
    Shape base = shape_arg(&fixed);
    (void)base;
    MShape b = fixed;
    // As many elements at the same mins, in rows of other lengths.
    bool refit = N > 1 && R.chance(20);
    if (refit) {
      std::vector<long> e(N);
      for (size_t k = 0; k < N; k++) e[k] = x.shape.d[k].ext;
      size_t i = R.below(N), j = (i + 1 + R.below(N - 1)) % N;
      long f = R.chance(50) ? 2 : 3;
      if (e[i] % f == 0 && R.chance(50)) {
        e[i] /= f;
        e[j] *= f;
      } else {
        std::swap(e[i], e[j]);
      }
      for (size_t k = 0; k < N; k++) {
        b.d[k].min = x.shape.d[k].min;
        b.d[k].ext = e[k];
      }
    }
    for (size_t k = 0; k < N && !refit; k++) {
      b.d[k].min = x.shape.d[k].min + R.range(-2, 2);
      if (R.chance(60)) b.d[k].ext = std::max<long>(R.chance(10) ? 0 : 1, x.shape.d[k].ext + R.range(-2, 2));
      if (R.chance(8)) b.d[k].min = x.shape.d[k].min + (R.chance(50) ? 100 : -100);
    }
    apply_static<Shape>(b, std::make_index_sequence<N>());
    std::vector<long> ss = static_strides<Shape>(std::make_index_sequence<N>());
    for (size_t k = 0; k < N; k++) b.d[k].str = ss[k] == (long)nda::dynamic ? (long)nda::unresolved : ss[k];
    Shape r = from_mshape<Shape>(b);
    if (R.chance(50)) r.resolve();
    Shape q = r;
    q.resolve();
    *m = to_mshape(q);
    if (m->size() > 400 || !m->one_to_one()) return shape_arg(m);
    return r;
  }
  int new_id() { return AT::ledger ? (int)R.below(4) : 0; }
  int pick(bool want_readable) {
    for (int t = 0; t < 20; t++) {
      int k = (int)R.below(P);
      if (s[k].st == LIVE || (!want_readable && s[k].st == HOLLOW)) return k;
    }
    return -1;
  }
  // A slot to build into; destroys what is there.
  int fresh() {
    int k = (int)R.below(P);
    for (int j = 0; j < P; j++)
      if (s[j].st == ABSENT && R.chance(60)) k = j;
    if (s[k].st != ABSENT) drop(k);
    return k;
  }
  void drop(int k) {
    desc(" ~%d", k);
    s[k].a->~A();
    free(s[k].a);
    s[k].a = nullptr;
    s[k].st = ABSENT;
    check("destruction");
  }
  // Run fn, possibly with a failing allocation. Returns false if it threw.
  template <class Fn>
  bool attempt(Fn&& fn) {
    bool arm_fail = failing && (AT::ledger || AT::inline_n > 0) && R.chance(25);
    if (arm_fail) L().fail_in = R.range(1, 2);
    bool ok = true;
    try {
      fn();
    } catch (const std::bad_alloc&) {
      ok = false;
      JUDGE(true, arm_fail, "bad_alloc without a failed allocation");
      count("failed_allocations");
      desc("!");
    }
    L().fail_in = -1;
    return ok;
  }
  void limit(int k) {
    s[k].st = LIMITED;
    s[k].id = -1;
  }
  int socc(int id) { return AT::ledger ? AT::socc(id) : 0; }
  Alloc mk(int id) { return AT::make(id); }

  // ---- operations
  void op_construct() {
    int k = fresh();
    MShape m;
    int which = (int)R.below(7), id = new_id();
    int64_t v = next_val++;
    desc(" %d=new", k);
    A* a = nullptr;
    bool ok = true;
    if (which == 0) {
      ok = attempt([&] { a = new (mem()) A(); });
      m = default_shape, id = 0, v = dflt();
    } else if (which == 1) {
      ok = attempt([&] { a = new (mem()) A(mk(id)); });
      m = default_shape, v = dflt();
    } else {
      Shape sh = shape_arg(&m);
      desc("%s", m.str().c_str());
      if (which == 2) ok = attempt([&] { a = new (mem()) A(sh); }), id = 0, v = dflt();
      if (which == 3) ok = attempt([&] { a = new (mem()) A(sh, mk(id)); }), v = dflt();
      if (which == 4) ok = build_value(&a, sh, v, -1, std::integral_constant<bool, CanCopy>()), id = 0, v = CanCopy ? v : dflt();
      if (which >= 5) ok = build_value(&a, sh, v, id, std::integral_constant<bool, CanCopy>()), v = CanCopy ? v : dflt();
    }
    if (!ok) return check("a constructor that failed to allocate");
    s[k].a = a;
    set_model(s[k], m, v);
    s[k].id = id;
    check("construction");
  }
  bool build_value(A** a, const Shape& sh, int64_t v, int id, std::true_type) {
    T val = MakeVal<T>::make(v);
    return attempt([&] { *a = id < 0 ? new (mem()) A(sh, val) : new (mem()) A(sh, val, mk(id)); });
  }
  bool build_value(A** a, const Shape& sh, int64_t, int id, std::false_type) {
    return attempt([&] { *a = id < 0 ? new (mem()) A(sh) : new (mem()) A(sh, mk(id)); });
  }
  void op_copy_construct(std::true_type) {
    int from = pick(false);
    if (from < 0) return;
    int k = fresh();
    if (s[from].st == ABSENT) return;
    bool with = R.chance(50);
    int id = with ? new_id() : socc(s[from].id);
    desc(" %d=copy(%d)", k, from);
    A* a = nullptr;
    const A& src = *s[from].a;
    Events e0 = L().ev;
    if (!attempt([&] { a = with ? new (mem()) A(src, mk(id)) : new (mem()) A(src); })) return check("a copy that failed to allocate");
    s[k] = s[from];
    s[k].a = a;
    s[k].st = s[from].st == HOLLOW && !a->base() ? HOLLOW : LIVE;
    s[k].id = id;
    if (tracked) JUDGE(MON_LIFE, (L().ev - e0).ctor_move == 0 && (L().ev - e0).assign_move == 0, "copy construction moved from its source");
    check("copy construction");
  }
  void op_copy_construct(std::false_type) {}
  void op_move_construct() {
    int from = pick(false);
    if (from < 0) return;
    int k = fresh();
    if (s[from].st == ABSENT) return;
    bool with = R.chance(50);
    int id = with ? new_id() : POCMA ? s[from].id : 0;
    bool take = (!with && POCMA) || id == s[from].id || !AT::ledger;
    desc(" %d=move(%d)%s", k, from, take ? "" : "elementwise");
    A* a = nullptr;
    const void* base = s[from].a->base();
    Events e0 = L().ev;
    if (!attempt([&] { a = with ? new (mem()) A(std::move(*s[from].a), mk(id)) : new (mem()) A(std::move(*s[from].a)); })) {
      limit(from);
      return check("a move that failed to allocate");
    }
    Events e = L().ev - e0;
    Status was = s[from].st;
    s[k] = s[from];
    s[k].a = a;
    s[k].id = with || POCMA ? id : -1;
    if (was == HOLLOW) {
      // Either default elements or still without storage.
      if (!a->base()) s[k].st = HOLLOW;
      else s[k].st = LIVE;
    }
    // Without propagation the new array's allocator may be a default one or a copy of the source's.
    bool may_take = take && (with || POCMA || s[from].id == 0);
    if (AT::ledger && may_take && was == LIVE) {
      JUDGE(MON_LIFE, e.makes() == 0 && e.assign_copy + e.assign_move == 0 && e.dtor == 0, "moving an array whose allocator permits taking the allocation performs element operations");
      JUDGE(MON_VALUE, a->base() == base, "the moved-to array does not have the allocation of its source");
      JUDGE(MON_ALLOC, e.allocs == 0 && e.frees == 0, "moving an array whose allocator permits taking the allocation allocates");
    }
    JUDGE(MON_LIFE, e.ctor_copy == 0 && e.assign_copy == 0, "move construction copies elements");
    resync(s[from]);
    check("move construction");
  }
  void op_copy_assign(std::true_type) {
    int from = pick(false), k = (int)R.below(P);
    if (from < 0 || s[k].st == ABSENT) return;
    if (R.chance(8)) {
      if (s[k].st == LIMITED) return;
      from = k;
    }
    desc(" %d=%d", k, from);
    const A& src = *s[from].a;
    Status before = s[k].st;
    Events e0 = L().ev;
    if (!attempt([&] {
          A& r = (*s[k].a = src);
          JUDGE(MON_VALUE, &r == s[k].a, "assignment returns *this");
        })) {
      if (k != from) limit(k);
      return check("an assignment that failed to allocate");
    }
    if (k == from) {
      Events e = L().ev - e0;
      JUDGE(MON_LIFE, e.makes() == 0 && e.dtor == 0, "self-assignment reconstructs elements");
      return check("self-assignment");
    }
    int id = POCCA ? s[from].id : before == LIMITED ? -1 : s[k].id;
    A* a = s[k].a;
    s[k] = s[from];
    s[k].a = a;
    s[k].id = id;
    s[k].st = s[from].st == HOLLOW && !a->base() ? HOLLOW : LIVE;
    check("copy assignment");
  }
  void op_copy_assign(std::false_type) {}
  void op_move_assign() {
    int from = pick(false), k = (int)R.below(P);
    if (from < 0 || s[k].st == ABSENT) return;
    if (R.chance(8)) {
      if (s[k].st == LIMITED) return;
      from = k;
    }
    desc(" %d=move(%d)", k, from);
    Status before = s[k].st, sbefore = s[from].st;
    bool known = before != LIMITED;
    bool take = POCMA || !AT::ledger || (known && s[k].id == s[from].id);
    const void* base = s[from].a->base();
    Events e0 = L().ev;
    if (!attempt([&] {
          A& src = *s[from].a;
          A& r = (*s[k].a = std::move(src));
          JUDGE(MON_VALUE, &r == s[k].a, "assignment returns *this");
        })) {
      limit(k);
      if (from != k) limit(from);
      return check("a move assignment that failed to allocate");
    }
    if (k == from) return check("self-move-assignment");
    Events e = L().ev - e0;
    int id = POCMA ? s[from].id : known ? s[k].id : -1;
    A* a = s[k].a;
    s[k] = s[from];
    s[k].a = a;
    s[k].id = id;
    s[k].st = sbefore == HOLLOW && !a->base() ? HOLLOW : LIVE;
    if (AT::ledger && take && sbefore == LIVE) {
      JUDGE(MON_LIFE, e.makes() == 0 && e.assign_copy + e.assign_move == 0, "move assignment of an array whose allocator permits taking the allocation constructs or assigns elements");
      JUDGE(MON_VALUE, a->base() == base, "the moved-to array does not have the allocation of its source");
    }
    JUDGE(MON_LIFE, e.ctor_copy == 0 && e.assign_copy == 0, "move assignment copies elements");
    if (before == LIMITED) {
      // The source may have received whatever the failed operation left behind.
      limit(from);
      s[from].id = -1;
    } else {
      resync(s[from]);
      if (POCMA) s[from].id = -1;
    }
    check("move assignment");
  }
  void op_assign_copy(std::true_type) {
    int from = pick(false), k = (int)R.below(P);
    if (from < 0 || s[k].st == ABSENT || (k == from && s[k].st == LIMITED)) return;
    desc(" %d.assign(%d)", k, from);
    const A& src = *s[from].a;
    if (!attempt([&] { s[k].a->assign(src); })) {
      limit(k);
      return check("an assign that failed to allocate");
    }
    if (k == from) return check("self-assign");
    int id = s[k].st == LIMITED ? -1 : s[k].id;
    A* a = s[k].a;
    s[k] = s[from];
    s[k].a = a;
    s[k].id = id;
    s[k].st = s[from].st == HOLLOW && !a->base() ? HOLLOW : LIVE;
    check("assign(array)");
  }
  void op_assign_copy(std::false_type) {}
  void op_assign_move() {
    int from = pick(true), k = (int)R.below(P);
    if (from < 0 || s[k].st == ABSENT || k == from) return;
    desc(" %d.assign(move %d)", k, from);
    Events e0 = L().ev;
    if (!attempt([&] { s[k].a->assign(std::move(*s[from].a)); })) {
      limit(k);
      limit(from);
      return check("an assign that failed to allocate");
    }
    Events e = L().ev - e0;
    JUDGE(MON_LIFE, e.ctor_copy == 0 && e.assign_copy == 0, "assign(array&&) copies elements");
    int id = s[k].st == LIMITED ? -1 : s[k].id;
    A* a = s[k].a;
    s[k] = s[from];
    s[k].a = a;
    s[k].id = id;
    s[k].st = LIVE;
    resync(s[from]);
    check("assign(array&&)");
  }
  void op_assign_value(std::true_type) {
    int k = (int)R.below(P);
    if (s[k].st == ABSENT) return;
    MShape m;
    Shape sh = s[k].st == LIVE && R.chance(50) ? related_shape(s[k], &m) : shape_arg(&m);
    int64_t v = next_val++;
    T val = MakeVal<T>::make(v);
    locals = 1;
    desc(" %d.assign(%s)", k, m.str().c_str());
    // Sometimes the value is one of the array's own elements: only with another shape is that
    // unsupported, so it is not exercised.
    if (!attempt([&] { s[k].a->assign(sh, val); })) {
      limit(k);
      check("an assign that failed to allocate");
      locals = 0;
      return;
    }
    int id = s[k].st == LIMITED ? -1 : s[k].id;
    set_model(s[k], m, v);
    s[k].id = id;
    check("assign(shape, value)");
    locals = 0;
  }
  void op_assign_value(std::false_type) {}
  void op_swap() {
    int a = pick(false), b = pick(false);
    if (a < 0 || b < 0) return;
    desc(" swap(%d,%d)", a, b);
    bool member = R.chance(50);
    bool cheap = POCS || !AT::ledger || s[a].id == s[b].id;
    Events e0 = L().ev;
    if (!attempt([&] {
          if (member) s[a].a->swap(*s[b].a);
          else nda::swap(*s[a].a, *s[b].a);
        })) {
      limit(a);
      limit(b);
      return check("a swap that failed to allocate");
    }
    Events e = L().ev - e0;
    if (cheap && AT::ledger) JUDGE(MON_LIFE, e.makes() == 0 && e.assign_copy + e.assign_move == 0 && e.dtor == 0, "swapping arrays whose allocators permit exchanging the allocations performs element operations");
    JUDGE(MON_LIFE, e.ctor_copy == 0 && e.assign_copy == 0, "swap copies elements");
    if (a != b) {
      std::swap(s[a].shape, s[b].shape);
      std::swap(s[a].vals, s[b].vals);
      bool ha = s[a].st == HOLLOW, hb = s[b].st == HOLLOW;
      // Hollow contents may have become default elements.
      s[a].st = hb && !s[a].a->base() ? HOLLOW : LIVE;
      s[b].st = ha && !s[b].a->base() ? HOLLOW : LIVE;
      if (POCS) std::swap(s[a].id, s[b].id);
      else if (!cheap) s[a].id = s[b].id = -1; // swapping unequal non-propagating allocators: contents only
    }
    check("swap");
  }
  void op_clear() {
    int k = pick(false);
    if (k < 0) return;
    desc(" clear(%d)", k);
    if (!attempt([&] { s[k].a->clear(); })) {
      limit(k);
      return check("a clear that failed to allocate");
    }
    int id = s[k].id;
    set_model(s[k], default_shape, dflt());
    s[k].id = id;
    check("clear");
  }
  void op_reshape() {
    int k = pick(true);
    if (k < 0) return;
    MShape m;
    Shape sh = related_shape(s[k], &m);
    desc(" reshape(%d,%s)", k, m.str().c_str());
    Slot old = s[k];
    const void* base = s[k].a->base();
    bool same = to_mshape(s[k].a->shape()) == m;
    Events e0 = L().ev;
    if (!attempt([&] { s[k].a->reshape(sh); })) {
      limit(k);
      return check("a reshape that failed to allocate");
    }
    Events e = L().ev - e0;
    JUDGE(VERIF_PROP == 0 || VERIF_PROP == 15, e.ctor_copy == 0 && e.assign_copy == 0, "reshape copies elements");
    if (same) {
      JUDGE(VERIF_PROP == 0 || VERIF_PROP == 15, s[k].a->base() == base && e.makes() == 0 && e.allocs == 0 && e.assign_move == 0 && e.dtor == 0, "reshaping to the current shape does something");
    }
    JUDGE(VERIF_PROP == 0 || VERIF_PROP == 15, s[k].id < 0 || AT::id(s[k].a->get_allocator()) == s[k].id, "reshape changes the allocator of the array from %d to %d", s[k].id, AT::id(s[k].a->get_allocator()));
    if (AT::ledger && !m.empty() && s[k].a->base()) {
      const Block* b = L().find(s[k].a->base());
      JUDGE(VERIF_PROP == 0 || VERIF_PROP == 15, !b || s[k].id < 0 || b->id == s[k].id, "reshape allocates from allocator %d, the array has allocator %d", b->id, s[k].id);
    }
    s[k].shape = m;
    s[k].vals.clear();
    long kept = 0;
    m.each([&](const Idx& i) {
      bool in = old.shape.contains(i);
      kept += in;
      s[k].vals.push_back(in ? value_at(old, i) : dflt());
    });
    count("reshape_elements_kept", (unsigned long long)kept);
    count("reshape_elements_new", (unsigned long long)(m.size() - kept));
    if (kept == 0 && !m.empty() && !old.shape.empty()) count("reshapes_to_disjoint_shape");
    check("reshape");
  }
  void op_write() {
    int k = pick(true);
    if (k < 0 || s[k].shape.empty()) return;
    Slot& x = s[k];
    int64_t v = next_val++;
    switch (R.below(3)) {
    case 0: {
      size_t at = (size_t)R.below((long)x.vals.size()), n = 0;
      Idx w;
      x.shape.each([&](const Idx& i) { if (n++ == at) w = i; });
      desc(" %d%s=%ld", k, idx_str(w).c_str(), (long)v);
      call_idx<N>(*x.a, w) = MakeVal<T>::make(v);
      x.vals[at] = v;
      break;
    }
    case 1: {
      desc(" number(%d)", k);
      size_t n = 0;
      x.shape.each([&](const Idx& i) {
        call_idx<N>(*x.a, i) = MakeVal<T>::make(next_val);
        x.vals[n++] = next_val++;
      });
      break;
    }
    default: {
      desc(" all(%d)", k);
      x.a->for_each_value([&](T& e) { e = MakeVal<T>::make(v); });
      for (auto& y : x.vals) y = v;
      break;
    }
    }
    check("a write");
  }
  void op_make(std::true_type) {
    int from = pick(true);
    if (from < 0) return;
    int k = fresh();
    if (s[from].st == ABSENT) return;
    Slot& f = s[from];
    int id = new_id(), which = (int)R.below(6);
    // A sub-region of the source in a layout of the right type.
    MShape sub = gen_subregion(R, f.shape);
    std::vector<long> ss = static_strides<Shape>(std::make_index_sequence<N>());
    apply_static<Shape>(sub, std::make_index_sequence<N>());
    bool ok_sub = true;
    for (size_t q = 0; q < N; q++) {
      sub.d[q].str = ss[q] == (long)nda::dynamic ? (long)nda::unresolved : ss[q];
      ok_sub &= sub.d[q].min >= f.shape.d[q].min && sub.d[q].max() <= f.shape.d[q].max();
    }
    Shape sh;
    MShape m = f.shape;
    if (ok_sub && which >= 2) {
      sh = from_mshape<Shape>(sub);
      sh.resolve();
      if (to_mshape(sh).one_to_one()) m = to_mshape(sh);
      else ok_sub = false;
    }
    if (!ok_sub || which < 2) sh = from_mshape<Shape>(m = f.shape);
    A* a = nullptr;
    desc(" %d=make%d(%d,%s)", k, which, from, m.str().c_str());
    std::vector<int64_t> vals;
    m.each([&](const Idx& i) { vals.push_back(value_at(f, i)); });
    bool moved = false;
    Status fst = f.st;
    bool ok = attempt([&] {
      A& src = *f.a;
      const A& csrc = src;
      if (which == 0) a = new (mem()) A(nda::make_copy(csrc, mk(id)));
      if (which == 1) a = new (mem()) A(nda::make_copy(csrc)), id = 0;
      if (which == 2) a = new (mem()) A(nda::make_copy(csrc, sh, mk(id)));
      if (which == 3) a = new (mem()) A(nda::make_copy(csrc.cref(), sh, mk(id)));
      if (which == 4) a = new (mem()) A(nda::make_move(src, sh, mk(id))), moved = true;
      if (which == 5) a = new (mem()) A(nda::make_move(std::move(src), sh, mk(id))), moved = true;
    });
    (void)fst;
    if (!ok) {
      if (which >= 4) limit(from);
      return check("a make function that failed to allocate");
    }
    s[k].a = a;
    s[k].shape = m;
    s[k].vals = vals;
    s[k].st = LIVE;
    s[k].id = id;
    if (moved) resync(s[from]);
    check("a make function");
  }
  void op_make(std::false_type) {}
  void op_make_array(std::true_type) {
    int k = fresh();
    MShape m;
    Shape sh = shape_arg(&m);
    int id = new_id();
    int64_t v = next_val++;
    T val = MakeVal<T>::make(v);
    locals = 1;
    desc(" %d=make_array(%s)", k, m.str().c_str());
    A* a = nullptr;
    bool plain = R.chance(40);
    if (!attempt([&] {
          if (plain) a = new (mem()) A(nda::make_array<T>(sh, mk(id)));
          else a = new (mem()) A(nda::make_array<T>(sh, val, mk(id)));
        })) {
      check("make_array that failed to allocate");
      locals = 0;
      return;
    }
    s[k].a = a;
    set_model(s[k], m, plain ? dflt() : v);
    s[k].id = id;
    check("make_array");
    locals = 0;
  }
  void op_make_array(std::false_type) {}

  // Another view of (part of) the elements of x: dims narrowed, flipped, shifted, exchanged. *off is where its base is.
  MShape window(const Slot& x, bool narrow, long* off) {
    MShape n = x.shape;
    *off = 0;
    MShape lo = n, hi = n; // what apply_static changes is static
    for (size_t d = 0; d < N; d++) lo.d[d].min = lo.d[d].ext = -777, hi.d[d].min = hi.d[d].ext = -778;
    apply_static<Shape>(lo, std::make_index_sequence<N>());
    apply_static<Shape>(hi, std::make_index_sequence<N>());
    std::vector<long> ss = static_strides<Shape>(std::make_index_sequence<N>());
    for (size_t d = 0; d < N; d++) {
      MDim& q = n.d[d];
      bool free_min = lo.d[d].min != hi.d[d].min, free_ext = lo.d[d].ext != hi.d[d].ext, free_str = ss[d] == (long)nda::dynamic;
      if (narrow && free_ext && R.chance(50)) {
        long a = R.below(q.ext), e = R.range(1, q.ext - a);
        *off += a * q.str;
        q.ext = e;
      }
      if (free_str && R.chance(25)) {
        *off += (q.ext - 1) * q.str;
        q.str = -q.str;
      }
      if (free_min && R.chance(30)) q.min = R.range(-12, 12);
    }
    if (N >= 2 && R.chance(25)) {
      size_t a = (size_t)R.below((long)N), b = (size_t)R.below((long)N);
      bool free = true;
      for (size_t d : {a, b}) free &= lo.d[d].min != hi.d[d].min && lo.d[d].ext != hi.d[d].ext && ss[d] == (long)nda::dynamic;
      if (free) std::swap(n.d[a], n.d[b]);
    }
    return n;
  }
  std::vector<int64_t> window_values(const Slot& x, const MShape& n, long off) {
    std::map<long, int64_t> at;
    x.shape.each([&](const Idx& i) { at[x.shape.offset(i)] = value_at(x, i); });
    std::vector<int64_t> v;
    n.each([&](const Idx& i) {
      auto it = at.find(n.offset(i) + off);
      if (it == at.end()) harness_error("window outside the array");
      v.push_back(it->second);
    });
    return v;
  }
  void op_set_shape(std::true_type) {
    int k = pick(true);
    if (k < 0 || s[k].shape.empty()) return;
    Slot& x = s[k];
    long off;
    // Inline storage is judged by what the shape needs, so there the flat extent stays.
    MShape n = window(x, AT::inline_n == 0, &off);
    desc(" %d.set_shape(%s,%ld)", k, n.str().c_str(), off);
    T* base = x.a->base();
    Events e0 = L().ev;
    std::vector<int64_t> v = window_values(x, n, off);
    if (off == 0 && R.chance(50)) x.a->set_shape(from_mshape<Shape>(n));
    else x.a->set_shape(from_mshape<Shape>(n), (nda::index_t)off);
    Events e = L().ev - e0;
    JUDGE(MON_VALUE, x.a->base() == base + off, "set_shape moves the base by something else than the offset");
    JUDGE(MON_ALLOC || MON_VALUE, e.allocs == 0 && e.frees == 0, "set_shape allocates or deallocates");
    x.shape = n;
    x.vals = v;
    count("set_shapes");
    check("set_shape");
  }
  void op_set_shape(std::false_type) {}
  void op_move_reinterpret(std::true_type) {
    int from = pick(true);
    if (from < 0 || s[from].shape.empty() || AT::inline_n > 0) return;
    if (!POCMA && s[from].id != 0) return; // the result's allocator is a default one
    int k = fresh();
    if (s[from].st == ABSENT) return;
    Slot x = s[from];
    long off = 0;
    bool plain = R.chance(25);
    MShape n = plain ? x.shape : window(x, true, &off);
    desc(" %d=move_reinterpret(%d,%s,%ld)", k, from, n.str().c_str(), off);
    T* base = x.a->base();
    std::vector<int64_t> v = window_values(x, n, off);
    A* a = nullptr;
    Shape sh = from_mshape<Shape>(n);
    if (!attempt([&] {
          if (plain) a = new (mem()) A(nda::move_reinterpret_shape<Shape>(std::move(*s[from].a)));
          else a = new (mem()) A(nda::move_reinterpret_shape(std::move(*s[from].a), sh, (nda::index_t)off));
        })) {
      limit(from);
      return check("a move_reinterpret_shape that failed to allocate");
    }
    JUDGE(MON_VALUE, a->base() == base + off, "move_reinterpret_shape moves the base by something else than the offset");
    s[k].a = a;
    s[k].shape = n;
    s[k].vals = v;
    s[k].st = LIVE;
    s[k].id = POCMA ? x.id : 0;
    resync(s[from]);
    if (POCMA) s[from].id = -1;
    count("move_reinterprets");
    check("move_reinterpret_shape");
  }
  void op_move_reinterpret(std::false_type) {}

  void run(int ops) {
    std::integral_constant<bool, CanCopy> cc;
    std::integral_constant<bool, std::is_trivial<T>::value> triv;
    op_construct();
    op_construct();
    for (int i = 0; i < ops; i++) {
      switch (R.below(VERIF_PROP == 15 ? 30 : 23)) {
      case 0: case 1: op_construct(); break;
      case 2: case 3: op_copy_construct(cc); break;
      case 4: case 5: op_move_construct(); break;
      case 6: case 7: case 8: op_copy_assign(cc); break;
      case 9: case 10: case 11: op_move_assign(); break;
      case 12: op_assign_copy(cc); break;
      case 13: op_assign_move(); break;
      case 14: op_assign_value(cc); break;
      case 15: case 16: op_swap(); break;
      case 17: op_clear(); break;
      case 20: op_make(cc); break;
      case 21: {
        int k = (int)R.below(P);
        if (s[k].st != ABSENT) drop(k);
        break;
      }
      case 22: op_make_array(cc); break;
      case 18: case 19: op_write(); break;
      default: op_reshape(); break;
      }
      if (R.chance(12)) op_reshape();
      if (R.chance(20)) op_write();
      if (std::is_trivial<T>::value && R.chance(18)) op_set_shape(triv);
      if (std::is_trivial<T>::value && R.chance(10)) op_move_reinterpret(triv);
      count("operations");
    }
    for (int k = 0; k < P; k++)
      if (s[k].st != ABSENT) drop(k);
    if (AT::ledger || AT::inline_n > 0) {
      JUDGE(MON_ALLOC || MON_LIFE || MON_STORE, L().blocks.empty(), "%zu blocks leaked", L().blocks.size());
      JUDGE(MON_ALLOC, L().ev.allocs == L().ev.frees, "%ld allocations, %ld deallocations", L().ev.allocs, L().ev.frees);
      if (tracked) {
        JUDGE(MON_LIFE, L().live.empty(), "%zu elements were never destroyed", L().live.size());
        JUDGE(MON_LIFE, L().ev.makes() == L().ev.dtor, "%ld constructions, %ld destructions", L().ev.makes(), L().ev.dtor);
      }
      count("constructions", (unsigned long long)L().ev.makes());
      count("destructions", (unsigned long long)L().ev.dtor);
      count("blocks", (unsigned long long)L().ev.allocs);
    }
  }
};

// One history of the given configuration.
template <class T, class Shape, class Alloc, bool CanCopy = true>
void history(Rng& R, bool failing, int ops) {
  nontrivial();
  History<T, Shape, Alloc, CanCopy> h(R, failing);
  h.run(ops);
}

} // namespace vh
#endif
