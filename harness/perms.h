// Compile-time permutations and index patterns.
#ifndef VERIF_PERMS_H
#define VERIF_PERMS_H
#include <utility>
#include <cstddef>
namespace vh {
constexpr size_t fact(size_t n) { return n < 2 ? 1 : n * fact(n - 1); }
// Entry i of the k-th permutation of 0..n-1 (lexicographic).
constexpr size_t perm_at(size_t n, size_t k, size_t i) {
  bool used[8] = {};
  size_t v = 0;
  for (size_t p = 0; p <= i; p++) {
    size_t f = fact(n - 1 - p), q = k / f;
    k %= f;
    v = 0;
    for (size_t c = 0; c < n; c++) {
      if (used[c]) continue;
      if (q == 0) { v = c; break; }
      q--;
    }
    used[v] = true;
  }
  return v;
}
template <size_t N, size_t K, class Seq>
struct PermSeqImpl;
template <size_t N, size_t K, size_t... Is>
struct PermSeqImpl<N, K, std::index_sequence<Is...>> {
  using type = std::index_sequence<perm_at(N, K, Is)...>;
};
template <size_t N, size_t K>
using PermSeq = typename PermSeqImpl<N, K, std::make_index_sequence<N>>::type;

// fn(PermSeq<N, k>) for a runtime k.
template <size_t N, class Fn, size_t... Ks>
void with_perm_impl(size_t k, Fn&& fn, std::index_sequence<Ks...>) {
  int unused[] = {0, (k == Ks ? (fn(PermSeq<N, Ks>()), 0) : 0)...};
  (void)unused;
}
template <size_t N, class Fn>
void with_perm(size_t k, Fn&& fn) {
  with_perm_impl<N>(k, fn, std::make_index_sequence<fact(N)>());
}
template <size_t... Is>
std::vector<size_t> seq_vector(std::index_sequence<Is...>) {
  return std::vector<size_t>{Is...};
}
} // namespace vh
#endif
