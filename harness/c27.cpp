// C27: AbslStringify of intervals, dims and shapes.
#include "model.h"
#include "types.h"

#include "absl/strings/str_cat.h"
#include "absl/strings/str_format.h"
#include "absl/strings/str_join.h"

#include "array/../../absl/absl.h"

using namespace vh;

namespace {
std::string interval_text(long mn, long ex) { return "[" + std::to_string(mn) + ", " + std::to_string(mn + ex) + ")"; }
std::string dim_text(const MDim& d) {
  std::string r = "dim(" + std::to_string(d.min) + ", " + std::to_string(d.ext);
  if (d.str != (long)nda::unresolved) r += ", " + std::to_string(d.str);
  return r + ")";
}
std::string shape_text(const MShape& m) {
  std::string r = "shape<" + std::to_string(m.rank()) + ">(";
  for (size_t k = 0; k < m.rank(); k++) r += (k ? ", " : "") + dim_text(m.d[k]);
  return r + ")";
}
// A sink of another type than the formatters'.
struct MySink {
  std::string out;
  long calls = 0;
  void Append(size_t n, char c) { out.append(n, c); calls++; }
  void Append(absl::string_view s) { out.append(s.data(), s.size()); calls++; }
  friend void AbslFormatFlush(MySink* s, absl::string_view v) { s->Append(v); }
};
template <class T>
void expect(const T& x, const std::string& want, const char* what) {
  auto eq = [&](const std::string& got, const char* how) {
    if (got != want) fail("%s rendered by %s is \"%s\", expected \"%s\"", what, how, got.c_str(), want.c_str());
    count("strings_compared");
  };
  eq(absl::StrFormat("%v", x), "StrFormat(%v)");
  eq(absl::StrCat(x), "StrCat");
  std::string a = absl::StrCat("<", x, "|", x, ">");
  if (a != "<" + want + "|" + want + ">") fail("%s twice in StrCat: \"%s\"", what, a.c_str());
  MySink s;
  s.out = "abc";
  AbslStringify(s, x);
  if (s.out != "abc" + want) fail("%s appended to a sink: \"%s\", expected \"%s\"", what, s.out.c_str(), want.c_str());
  const std::vector<T> two(2, x);
  eq(absl::StrJoin(two, "").substr(0, want.size()), "StrJoin");
}
template <class Dims, size_t... Is>
void dims_of(const Dims& d, const MShape& m, std::index_sequence<Is...>) {
  (void)d;
  (void)m;
  int u[] = {0, (expect(std::get<Is>(d), dim_text(m.d[Is]), "a dim of a shape"), 0)...};
  (void)u;
}
template <class S>
void expect_shape(const S& s, const char* what) {
  MShape m = to_mshape(s);
  expect(s, shape_text(m), what);
  dims_of(s.dims(), m, std::make_index_sequence<S::rank()>());
}
long value(Rng& R, bool extent) {
  switch (R.below(7)) {
  case 0: return 0;
  case 1: return 1;
  case 2: return -9;
  case 3: return R.range(-100000, 100000);
  case 4: return extent ? R.range(0, 12) : R.range(-1000000000, 1000000000);
  default: return R.range(-12, 12);
  }
}
} // namespace

GROUP(values, 600, 20000) {
  long mn = value(R, false), ex = value(R, true), st = value(R, false);
  bool unresolved = R.chance(30);
  MDim d;
  d.min = mn;
  d.ext = ex;
  d.str = unresolved ? (long)nda::unresolved : st;
  desc("min %ld extent %ld stride %ld", mn, ex, d.str);
  nontrivial();
  nda::index_t m = (nda::index_t)mn, e = (nda::index_t)ex, s = (nda::index_t)d.str;
  expect(nda::interval<>(m, e), interval_text(mn, ex), "interval<>");
  expect(nda::dim<>(m, e, s), dim_text(d), "dim<>");
  expect(nda::shape<nda::dim<>>(nda::dim<>(m, e, s)), "shape<1>(" + dim_text(d) + ")", "shape of rank 1");
  expect(nda::range(m, (nda::index_t)(m + e)), interval_text(mn, ex), "range");
  // The same values with static parameters.
  nda::interval<3> i3(3, e);
  expect(i3, interval_text(3, ex), "interval<3>");
  expect(nda::interval<>(i3), interval_text(3, ex), "interval<> of interval<3>");
  nda::fixed_interval<5> f5(m, 5);
  expect(f5, interval_text(mn, 5), "fixed_interval<5>");
  expect(nda::interval<>(f5), interval_text(mn, 5), "interval<> of fixed_interval<5>");
  expect(nda::interval<-5, -12>(), interval_text(-5, -12), "interval<-5, -12>");
  expect(nda::interval<0, 7>(), interval_text(0, 7), "interval<0, 7>");
  MDim q = d;
  q.str = 1;
  nda::dense_dim<> dd(m, e);
  expect(dd, dim_text(q), "dense_dim<>");
  expect(nda::dim<>(dd), dim_text(q), "dim<> of dense_dim<>");
  q.str = 0;
  expect(nda::broadcast_dim<>(m, e), dim_text(q), "broadcast_dim<>");
  q.str = -4;
  q.min = 2;
  q.ext = 3;
  nda::dim<2, 3, -4> fixed;
  expect(fixed, dim_text(q), "dim<2, 3, -4>");
  expect(nda::dim<>(fixed), dim_text(q), "dim<> of dim<2, 3, -4>");
  q.str = d.str;
  q.min = mn;
  nda::fixed_dim<3> fd(m, 3, s);
  expect(fd, dim_text(q), "fixed_dim<3>");
  expect(nda::dim<>(fd), dim_text(q), "dim<> of fixed_dim<3>");
  expect(nda::make_shape(fixed, dd, fd), "shape<3>(dim(2, 3, -4), " + dim_text(MDim{mn, ex, 1}) + ", " + dim_text(q) + ")", "make_shape");
}
GROUP(shapes, 600, 20000) {
  size_t rank = (size_t)(I % 7);
  GenOpts o;
  o.max_size = 1 << 20;
  MShape m = gen_shape(R, rank, o);
  for (auto& x : m.d)
    if (R.chance(15)) x.str = (long)nda::unresolved;
  desc("%s", m.str().c_str());
  nontrivial();
  with_rank<0, 6>(rank, [&](auto r) { expect_shape(dyn<decltype(r)::value>(m), "shape"); });
}
GROUP(types, 310, 6000) {
  with_type(StaticShapes(), (size_t)I % list_size(StaticShapes()), [&](auto tag) {
    using S = typename decltype(tag)::type;
    MShape m;
    if (!gen_for_type<S>(R, &m)) return;
    desc("type %ld %s", I % (long)list_size(StaticShapes()), m.str().c_str());
    nontrivial();
    S s = from_mshape<S>(m);
    CHECK(to_mshape(s) == m, "shape values");
    expect_shape(s, "static shape");
    nda::shape_of_rank<S::rank()> d = s;
    CHECK(absl::StrFormat("%v", s) == absl::StrFormat("%v", d), "static and dynamic shapes of equal value are rendered differently");
    expect_shape(s.bounds(), "bounds of a shape");
    CHECK(absl::StrFormat("%v", S()) == shape_text(to_mshape(S())), "default shape: %s", absl::StrFormat("%v", S()).c_str());
  });
}
HARNESS_MAIN
