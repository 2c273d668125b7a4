// C11, C12, C13, C15 (with -DVERIF_PROP=n): random histories of array operations.
#include "history.h"
using namespace vh;
template <size_t N>
using DS = nda::shape_of_rank<N>;
template <int F>
using TA = LedgerAlloc<Tracked, F>;
static int len(Rng& R) { return (int)R.range(4, 30); }
#define H(SHAPE, FLAGS) history<Tracked, SHAPE, TA<FLAGS>>(R, fail, len(R))

#if !defined(VERIF_PART) || VERIF_PART == 1
// Every combination of propagation traits.
GROUP(traits, 1600, 60000) {
  bool fail = I % 3 == 0;
  desc("flags %ld%s:", I % 8, fail ? " failing" : "");
  switch (I % 8) {
  case 0: return H(DS<2>, 0);
  case 1: return H(DS<2>, 1);
  case 2: return H(DS<2>, 2);
  case 3: return H(DS<2>, 3 + 8);
  case 4: return H(DS<2>, 4 + 8);
  case 5: return H(DS<2>, 5);
  case 6: return H(DS<2>, 6 + 8);
  default: return H(DS<2>, 7);
  }
}
#endif
#if !defined(VERIF_PART) || VERIF_PART == 4
// Inline storage with a recorded base allocator, and allocators that skip default construction.
template <class T, size_t N, size_t A = alignof(T)>
using AA = nda::auto_allocator<T, N, A, LedgerAlloc<T, 16>>;
GROUP(storage, 3200, 100000) {
  bool fail = I % 4 == 0;
  desc("storage %ld%s:", I % 16, fail ? " failing" : "");
  switch (I % 16) {
  case 0: return history<Tracked, DS<2>, AA<Tracked, 6>>(R, fail, len(R));
  case 1: return history<Tracked, DS<1>, AA<Tracked, 4, 64>>(R, fail, len(R));
  case 2: return history<int64_t, DS<2>, AA<int64_t, 9, 32>>(R, fail, len(R));
  case 3: return history<Tracked, nda::fixed_dense_shape<2, 3>, AA<Tracked, 6>>(R, fail, len(R));
  case 4: return history<int64_t, nda::dense_shape<2>, nda::uninitialized_allocator<LedgerAlloc<int64_t, 0>>>(R, fail, len(R));
  case 5: return history<int64_t, DS<2>, nda::uninitialized_allocator<LedgerAlloc<int64_t, 7>>>(R, fail, len(R));
  case 6: return history<int64_t, DS<2>, nda::uninitialized_allocator<AA<int64_t, 12, 16>>>(R, fail, len(R));
  case 7: return history<std::string, nda::dense_shape<1>, AA<std::string, 3>>(R, fail, len(R));
  case 8: return history<int64_t, DS<3>, LedgerAlloc<int64_t, 2>>(R, fail, len(R));
  case 9: return history<int64_t, DS<2>, LedgerAlloc<int64_t, 5 + 8>>(R, fail, len(R));
  case 10: return history<int64_t, nda::shape<nda::dim<>, nda::dim<0, 2>>, LedgerAlloc<int64_t, 0>>(R, fail, len(R));
  case 11: return history<int64_t, DS<2>, nda::uninitialized_allocator<LedgerAlloc<int64_t, 1 + 8>>>(R, fail, len(R));
  case 12: return history<int64_t, DS<2>, nda::uninitialized_allocator<LedgerAlloc<int64_t, 2>>>(R, fail, len(R));
  case 13: return history<int64_t, DS<1>, nda::uninitialized_allocator<LedgerAlloc<int64_t, 4 + 8>>>(R, fail, len(R));
  case 14: return history<int64_t, DS<2>, nda::uninitialized_allocator<LedgerAlloc<int64_t, 3>>>(R, fail, len(R));
  default: return history<Tracked, nda::shape<nda::dim<nda::dynamic, 3>, nda::dense_dim<>>, AA<Tracked, 8>>(R, fail, len(R));
  }
}
#endif
#if !defined(VERIF_PART) || VERIF_PART == 2
using Mixed = nda::shape<nda::dim<nda::dynamic, 3>, nda::dense_dim<>>;
using Fixed = nda::fixed_dense_shape<2, 3>;
using FixedExt = nda::shape<nda::dim<nda::dynamic, 3>, nda::dim<nda::dynamic, 2>>;
GROUP(shapes, 1800, 60000) {
  bool fail = I % 4 == 0;
  desc("shape %ld%s:", I % 9, fail ? " failing" : "");
  switch (I % 9) {
  case 0: return H(DS<1>, 0);
  case 1: return H(nda::dense_shape<3>, 2);
  case 2: return H(Fixed, 0);
  case 3: return H(Fixed, 7);
  case 4: return H(FixedExt, 1);
  case 5: return H(Mixed, 4);
  case 6: return H(DS<0>, 2);
  case 7: return H(nda::chunky_image_shape<3>, 0);
  default: return H(FixedExt, 2);
  }
}
#endif
#if !defined(VERIF_PART) || VERIF_PART == 3
// Other element types on the standard allocator; the sanitizers watch storage.
GROUP(elements, 2250, 40000) {
  bool fail = I % 3 == 0;
  desc("element %ld:", I % 9);
  switch (I % 9) {
  case 0: return history<std::string, DS<2>, std::allocator<std::string>>(R, fail, len(R));
  case 1: return history<Tracked, nda::matrix_shape<>, std::allocator<Tracked>>(R, fail, len(R));
  case 2: return history<std::string, nda::fixed_dense_shape<2, 2>, std::allocator<std::string>>(R, fail, len(R));
  case 4: return history<MoveTracked, DS<2>, LedgerAlloc<MoveTracked, 0>, false>(R, fail, len(R));
  case 5: return history<MoveTracked, nda::shape<nda::dim<nda::dynamic, 3>, nda::dense_dim<>>, LedgerAlloc<MoveTracked, 6>, false>(R, fail, len(R));
  case 7: return history<int64_t, nda::dense_shape<2>, std::allocator<int64_t>>(R, fail, len(R));
  case 8: return history<int64_t, DS<3>, LedgerAlloc<int64_t, 5>>(R, fail, len(R));
  case 6: return history<std::string, nda::shape<nda::dim<>, nda::dim<0, 2>>, LedgerAlloc<std::string, 3>>(R, fail, len(R));
  default: return history<std::string, DS<3>, std::allocator<std::string>>(R, fail, len(R));
  }
}
#endif
HARNESS_MAIN
