// Compiled only after another translation unit failed to: if this does compile, the library and the
// toolchain work, and the failure is in a use (or a static property of a result) that the harness relies on.
#include "array/array.h"
#include "array/ein_reduce.h"
#include "array/image.h"
#include "array/matrix.h"
#include "array/z_order.h"
int main() {
  nda::array_of_rank<int, 2> a({3, 4}, 1);
  nda::dense_array<int, 2> b({3, 4});
  nda::copy(a, b);
  b(1, 2) = a(2, 1);
  a.for_each_value([](int& x) { x++; });
  return b(0, 0) == 1 ? 0 : 1;
}
