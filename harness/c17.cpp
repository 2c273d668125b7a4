// C17: split() yields the documented pieces.
#include "model.h"
#include "types.h"
using namespace vh;
using nda::interval;

struct Piece {
  long min, ext;
  bool operator==(const Piece& o) const { return min == o.min && ext == o.ext; }
};
static std::string str(const std::vector<Piece>& v) {
  std::string r;
  for (auto& p : v) r += "[" + std::to_string(p.min) + "," + std::to_string(p.min + p.ext) + ")";
  return r;
}
// The specification: fixed pieces shift the last one back, run-time pieces shorten it.
static std::vector<Piece> expect(long min, long ext, long n, bool fixed) {
  std::vector<Piece> r;
  for (long k = 0; k * n < ext; k++) {
    long a = min + k * n, e = n;
    if (a + e > min + ext) {
      if (fixed) a = min + ext - n;
      else e = min + ext - a;
    }
    r.push_back({a, e});
  }
  return r;
}

// Walk a split result in every way; each must give the expected pieces.
template <class S>
void walk(Rng& R, const S& s, const std::vector<Piece>& want) {
  long n = (long)want.size();
  CHECK_EQ(s.size(), n, "size() of the split");
  // Range-for, with a budget so that a broken end is reported rather than looping.
  std::vector<Piece> got;
  for (auto i : s) {
    got.push_back({(long)i.min(), (long)i.extent()});
    CHECK((long)got.size() <= n, "iterating yields more than %ld intervals: %s", n, str(got).c_str());
  }
  CHECK(got == want, "iterating yields %s, expected %s", str(got).c_str(), str(want).c_str());
  // Explicit iterators: ->, post-increment, difference.
  auto b = s.begin();
  const auto e = s.end();
  long k = 0;
  for (auto it = b; it != e; k++) {
    CHECK(k < n, "iterator does not reach the end");
    CHECK(!(it == e), "operator== and operator!= disagree");
    CHECK_EQ(it - b, k, "it - begin()");
    CHECK_EQ(e - it, n - k, "end() - it");
    CHECK(it->min() == want[(size_t)k].min && it->extent() == want[(size_t)k].ext, "piece %ld through -> is [%ld,+%ld)", k, (long)it->min(), (long)it->extent());
    auto old = it++;
    CHECK((*old).min() == want[(size_t)k].min && (*old).extent() == want[(size_t)k].ext, "it++ does not return the previous piece");
  }
  CHECK(k == n, "iterator ended after %ld of %ld", k, n);
  CHECK(b == s.begin() && e == s.end(), "walking changed the split");
  // Random access, forwards, from the beginning and from any other position.
  for (long i = 0; i < n; i++) {
    auto p = b[i];
    auto q = *s[i];
    auto r = *(b + i);
    CHECK(p.min() == want[(size_t)i].min && p.extent() == want[(size_t)i].ext, "begin()[%ld] is [%ld,+%ld), expected [%ld,+%ld)", i, (long)p.min(), (long)p.extent(), want[(size_t)i].min, want[(size_t)i].ext);
    CHECK(q.min() == p.min() && q.extent() == p.extent() && r.min() == p.min() && r.extent() == p.extent(), "split[%ld] or begin() + %ld is not that piece", i, i);
  }
  // Advancing to the end, from anywhere, in one step.
  CHECK(b + n == e && !(b + n != e), "begin() + size() is not end()");
  for (int t = 0; t < 3 && n > 0; t++) {
    auto it = b + R.below(n);
    long left = e - it;
    it += left;
    CHECK(it == e, "an iterator advanced by its distance %ld from the end is not end()", left);
    CHECK_EQ(it - b, n, "distance of end() reached in one step");
  }
  if (n > 0) {
    for (int t = 0; t < 6; t++) {
      long i = R.below(n), j = R.range(i, n - 1);
      // A position at a clamped or shifted last piece has nothing after it but the end.
      auto it = b + i;
      auto p = it[j - i];
      CHECK(p.min() == want[(size_t)j].min && p.extent() == want[(size_t)j].ext, "(begin() + %ld)[%ld] is [%ld,+%ld)", i, j - i, (long)p.min(), (long)p.extent());
      it += j - i;
      CHECK(it->min() == want[(size_t)j].min && it->extent() == want[(size_t)j].ext, "begin() + %ld += %ld is [%ld,+%ld)", i, j - i, (long)it->min(), (long)it->extent());
      CHECK(j < n - 1 || ++it == e, "incrementing the last piece does not give end()");
      auto x = b + j;
      CHECK_EQ(x - (b + i), j - i, "difference of iterators");
      CHECK((b + i == b + j) == (i == j), "equality of iterators %ld and %ld", i, j);
    }
    count("random_accesses", (unsigned long long)n * 3 + 18);
  }
  count("pieces_checked", (unsigned long long)n);
}

template <long N, class I>
void fixed_split(Rng& R, const I& v) {
  if (v.extent() < N) return;
  auto s = nda::split<N>(v);
  static_assert(std::decay_t<decltype(*s.begin())>::Extent == N, "pieces of split<N> have a static extent");
  walk(R, s, expect((long)v.min(), (long)v.extent(), N, true));
}
template <class I, class D>
void all_splits(Rng& R, const I& v, const D& d) {
  fixed_split<1>(R, v), fixed_split<1>(R, d);
  fixed_split<2>(R, v), fixed_split<2>(R, d);
  fixed_split<3>(R, v), fixed_split<3>(R, d);
  fixed_split<4>(R, v), fixed_split<4>(R, d);
  fixed_split<5>(R, v), fixed_split<5>(R, d);
  fixed_split<7>(R, v), fixed_split<7>(R, d);
  fixed_split<8>(R, v), fixed_split<8>(R, d);
  fixed_split<16>(R, v), fixed_split<16>(R, d);
  fixed_split<17>(R, v), fixed_split<17>(R, d);
}
template <class I, class D>
void runtime_splits(Rng& R, const I& v, const D& d) {
  long e = (long)v.extent();
  for (long n : {1L, 2L, 3L, 4L, 5L, 7L, 8L, 16L, e - 1, e, e + 1, e / 2, R.range(1, 40), 1000000L}) {
    if (n < 1) continue;
    walk(R, nda::split(v, n), expect((long)v.min(), e, n, false));
    walk(R, nda::split(d, n), expect((long)v.min(), e, n, false));
  }
}

static long pick_min(Rng& R, long ext) {
  switch (R.below(8)) {
  case 0: return 0;
  case 1: return -9; // the sentinel `dynamic`
  case 2: return R.range(-20, 20);
  case 3: return -ext; // straddles or ends at zero
  case 4: return -9 - ext + R.range(-2, 2);
  case 5: return R.range(-1000000, 1000000);
  case 6: return sizeof(nda::index_t) > 4 ? 1000000000000L + R.range(0, 9) : 1000000000L;
  default: return R.range(-3, 3);
  }
}

GROUP(dynamic_intervals, 3000, 60000) {
  long ext = I < 200 ? I / 5 : R.chance(20) ? R.range(0, 300) : R.range(0, 40);
  long min = pick_min(R, ext);
  desc("[%ld,+%ld)", min, ext);
  if (ext > 1) nontrivial();
  interval<> v(min, ext);
  nda::dim<> d(min, ext, R.range(-3, 40));
  all_splits(R, v, d);
  runtime_splits(R, v, d);
}
template <long Min, long Ext>
void static_case(Rng& R, long min, long ext) {
  if (Min != (long)nda::dynamic) min = Min;
  if (Ext != (long)nda::dynamic) ext = Ext;
  desc("interval<%ld,%ld>(%ld,%ld)", Min, Ext, min, ext);
  if (ext > 1) nontrivial();
  interval<Min, Ext> v(min, ext);
  nda::dim<Min, Ext, 1> d(min, ext, 1);
  all_splits(R, v, d);
  runtime_splits(R, v, d);
}
GROUP(static_intervals, 700, 14000) {
  long ext = R.range(0, 40), min = pick_min(R, ext);
  constexpr long dyn = nda::dynamic;
  switch (I % 7) {
  case 0: return static_case<0, dyn>(R, min, ext);
  case 1: return static_case<dyn, 12>(R, min, ext);
  case 2: return static_case<0, 16>(R, min, ext);
  case 3: return static_case<-5, 17>(R, min, ext);
  case 4: return static_case<3, dyn>(R, min, ext);
  case 5: return static_case<dyn, 0>(R, min, ext);
  default: return static_case<-8, 8>(R, min, ext);
  }
}

// Tiling an array with the pieces touches each element: exactly once for run-time splits, and for
// fixed splits once except where the last piece overlaps its predecessor.
template <long N>
void tile(Rng& R, nda::array<int, nda::shape<nda::dense_dim<>, nda::dim<>>>& a, bool fixed_x, long nx, long ny) {
  const nda::interval<> bx(a.x().min(), a.x().extent()), by(a.y().min(), a.y().extent());
  auto touch = [&](auto xr, auto yr) {
    auto t = a(xr, yr);
    CHECK(t.x().min() == xr.min() && t.x().extent() == xr.extent(), "tile has the wrong x range");
    CHECK(t.y().min() == yr.min() && t.y().extent() == yr.extent(), "tile has the wrong y range");
    t.for_each_value([](int& v) { v++; });
  };
  a.for_each_value([](int& v) { v = 0; });
  if (fixed_x) {
    for (auto yr : nda::split(by, ny))
      for (auto xr : nda::split<N>(a.x())) touch(xr, yr);
  } else {
    for (auto yr : nda::split(a.y(), ny))
      for (auto xr : nda::split(bx, nx)) touch(xr, yr);
  }
  long nf = fixed_x ? N : nx, X = bx.extent();
  for (long y = 0; y < by.extent(); y++)
    for (long x = 0; x < X; x++) {
      int want = 1;
      long full = X / nf * nf;
      if (fixed_x && full != X && x >= X - nf && x < full) want = 2;
      CHECK(a(bx.min() + x, by.min() + y) == want, "element (%ld,%ld) was in %d tiles, expected %d", x, y, (int)a(bx.min() + x, by.min() + y), want);
    }
  count("tiled_elements", (unsigned long long)(X * by.extent()));
}
GROUP(tiles, 600, 12000) {
  long X = R.range(1, 30), Y = R.range(1, 20), nx = R.range(1, 9), ny = R.range(1, 9);
  long mx = R.range(-40, 40), my = R.pick<long>({0, -9, 5, -20});
  bool fixed = R.chance(50) && X >= 8;
  desc("tiles of %ld x %ld at (%ld,%ld) by %ld x %ld %s", X, Y, mx, my, nx, ny, fixed ? "fixed" : "");
  nontrivial();
  nda::array<int, nda::shape<nda::dense_dim<>, nda::dim<>>> a({{(nda::index_t)mx, (nda::index_t)X}, {(nda::index_t)my, (nda::index_t)Y}});
  switch (R.below(3)) {
  case 0: return tile<3>(R, a, fixed, nx, ny);
  case 1: return tile<4>(R, a, fixed, nx, ny);
  default: return tile<8>(R, a, fixed, nx, ny);
  }
}
// A piece is itself an interval that can be split again.
GROUP(nested, 400, 8000) {
  long ext = R.range(12, 90), min = pick_min(R, ext), n = R.range(1, 12);
  desc("[%ld,+%ld) by 12 or %ld then again", min, ext, n);
  nontrivial();
  for (auto o : nda::split<12>(interval<>(min, ext))) {
    walk(R, nda::split<5>(o), expect((long)o.min(), 12, 5, true));
    walk(R, nda::split<12>(o), expect((long)o.min(), 12, 12, true));
    walk(R, nda::split(o, n), expect((long)o.min(), 12, n, false));
  }
  for (auto o : nda::split(interval<>(min, ext), 12)) {
    long e = (long)o.extent();
    walk(R, nda::split(o, n), expect((long)o.min(), e, n, false));
    if (e >= 5) walk(R, nda::split<5>(o), expect((long)o.min(), e, 5, true));
  }
}
HARNESS_MAIN
