// Shapes whose elements lie further apart than 32 bits can count, over memory that is reserved and
// touched only where there are elements; and endless loops that are left by an exception.
#pragma once
#include "model.h"
#include "types.h"
#include <sys/mman.h>
// CHECK_EQ with a formatted message.
#define CHECK_EQF(a, b, ...)                                                                       \
  do {                                                                                             \
    long long va_ = (long long)(a), vb_ = (long long)(b);                                          \
    if (va_ != vb_) {                                                                              \
      char what_[300];                                                                             \
      snprintf(what_, sizeof what_, __VA_ARGS__);                                                  \
      ::vh::fail("%s: got %lld, expected %lld (%s:%d)", what_, va_, vb_, __FILE__, __LINE__);      \
    }                                                                                              \
  } while (0)
namespace vh {
// Elements at any offset in [-Range, Range] from base().
struct FarMem {
  static constexpr long Range = 14L << 30;
  char* mem = nullptr;
  static FarMem& get() {
    static FarMem m;
    return m;
  }
  static FarMem& get2() {
    static FarMem m;
    return m;
  }
  FarMem() {
    void* p = mmap(nullptr, 2 * Range + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p != MAP_FAILED) {
      mem = (char*)p;
      madvise(p, 2 * Range + 8192, MADV_NOHUGEPAGE);
    }
  }
  char* base() { return mem + Range + 4096; }
  void clear() { madvise(mem, 2 * Range + 8192, MADV_DONTNEED); }
};
// Gives the dims of m whose stride is not known (0 in `known`) strides so that the indices map to
// distinct offsets, at least one of them far apart, with all offsets within +-limit.
inline bool far_strides(Rng& R, MShape& m, const std::vector<long>& known, long limit) {
  for (int tries = 0; tries < 50; tries++) {
    long inner = 1;
    bool far = false;
    for (size_t k = 0; k < m.rank(); k++) {
      if (known[k]) {
        m.d[k].str = known[k];
        inner = std::max(inner, labs(known[k]) * std::max<long>(1, m.d[k].ext));
      }
    }
    for (size_t k : gen_perm(R, m.rank())) {
      if (known[k]) continue;
      if (R.chance(40) || (!far && m.d[k].ext > 1)) {
        m.d[k].str = std::max<long>(inner, R.pick<long>({1L << 31, (1L << 31) - 1, (1L << 31) + 1, 1L << 32, (1L << 32) + 1, (1L << 32) - 3, 3L << 30, (1L << 31) + 123456, (1L << 32) + (1L << 20)}));
        far |= m.d[k].ext > 1;
      } else {
        m.d[k].str = inner + (R.chance(50) ? R.range(0, 5000) : 0);
      }
      inner = m.d[k].str * std::max<long>(1, m.d[k].ext);
      if (R.chance(30)) m.d[k].str = -m.d[k].str;
    }
    long lo, hi;
    m.flat_range(&lo, &hi);
    if (far && lo >= -limit && hi <= limit && m.one_to_one()) return true;
  }
  return false;
}
// fn(Tag<Shape>, m) for one of several shape types.
template <class Fn>
bool with_far(Rng& R, long i, long limit, Fn&& fn) {
  auto go = [&](auto tag, std::vector<long> known) {
    using Shape = typename decltype(tag)::type;
    MShape m;
    m.d.resize(Shape::rank());
    for (auto& d : m.d) {
      d.min = R.chance(50) ? 0 : gen_min(R);
      d.ext = R.range(1, 4);
    }
    apply_static<Shape>(m, std::make_index_sequence<Shape::rank()>());
    if (!far_strides(R, m, known, limit)) return false;
    desc("far %ld %s", i, m.str().c_str());
    nontrivial();
    fn(tag, m);
    count("far_shapes");
    return true;
  };
  switch (i % 9) {
  case 0: return go(Tag<nda::shape_of_rank<1>>(), {0});
  case 1: return go(Tag<nda::shape_of_rank<2>>(), {0, 0});
  case 2: return go(Tag<nda::shape_of_rank<3>>(), {0, 0, 0});
  case 3: return go(Tag<nda::shape_of_rank<4>>(), {0, 0, 0, 0});
  case 4: return go(Tag<nda::matrix_shape<>>(), {0, 1});
  case 5: return go(Tag<nda::chunky_image_shape<3>>(), {3, 0, 1});
  case 6: return go(Tag<nda::planar_image_shape>(), {1, 0, 0});
  case 7: return go(Tag<nda::chunky_image_shape<>>(), {0, 0, 1});
  default: return go(Tag<nda::dense_shape<2>>(), {1, 0});
  }
}
// Far array_refs of bytes: element i holds far_value(i).
inline unsigned char far_value(const MShape& m, const Idx& i) {
  unsigned long h = 1469598103934665603UL;
  for (size_t k = 0; k < i.size(); k++) h = (h ^ (unsigned long)(i[k] - m.d[k].min + 1)) * 1099511628211UL;
  return (unsigned char)(h >> 11 | 1);
}
// One dimension longer than any generated elsewhere, at the sizes where 8, 15 and 16 bit counters end.
inline MShape long_shape(Rng& R, size_t rank, bool negative = true) {
  MShape m;
  m.d.resize(rank);
  size_t which = (size_t)R.below((long)rank);
  for (size_t k = 0; k < rank; k++) {
    m.d[k].min = R.chance(50) ? 0 : gen_min(R);
    m.d[k].ext = k != which ? R.range(1, 3) : R.chance(50) ? R.pick<long>({255, 256, 257, 1000, 2047, 2049, 4095, 4096, 4097, 5000}) : R.pick<long>({10000, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 70001});
    if (k != which && m.d[which].ext > 9000) m.d[k].ext = R.range(1, 2);
  }
  GenOpts o;
  o.allow_negative = negative;
  gen_strides(R, m, o);
  return m;
}
struct Enough {};
// Extents of more than 2^31 in one dimension.
inline MShape endless(Rng& R, size_t rank, size_t* which) {
  MShape m;
  m.d.resize(rank);
  *which = (size_t)R.below((long)rank);
  for (size_t k = 0; k < rank; k++) {
    m.d[k].min = R.chance(50) ? 0 : gen_min(R);
    m.d[k].ext = k == *which ? R.pick<long>({1L << 31, (1L << 31) + 3, (1L << 32) + 1, (1L << 32) + 2, (1L << 33) + 1, 1L << 32, (1L << 32) - 1, 1L << 40}) : R.range(1, 3);
    m.d[k].str = 0;
  }
  return m;
}
} // namespace vh
