// Shape types exercised besides the fully dynamic ones.
#ifndef VERIF_TYPES_H
#define VERIF_TYPES_H

#include "array/array.h"
#include "array/image.h"
#include "array/matrix.h"

namespace vh {
using nda::dynamic;
template <class... Ts>
struct TypeList {};

using StaticShapes = TypeList<
    nda::shape<>,
    nda::dense_shape<1>, nda::dense_shape<2>, nda::dense_shape<3>, nda::dense_shape<4>,
    nda::matrix_shape<>, nda::matrix_shape<3>, nda::matrix_shape<dynamic, 4>, nda::matrix_shape<2, 5>,
    nda::vector_shape<>, nda::vector_shape<6>,
    nda::chunky_image_shape<>, nda::chunky_image_shape<3>, nda::chunky_image_shape<3, 4>,
    nda::chunky_image_shape<dynamic, 4>, nda::chunky_image_shape<3, dynamic>, nda::chunky_image_shape<1>,
    nda::planar_image_shape, nda::image_shape,
    nda::fixed_dense_shape<4, 3>, nda::fixed_dense_shape<2, 3, 4>, nda::fixed_dense_shape<5>,
    nda::shape<nda::dim<>, nda::dense_dim<>>,
    nda::shape<nda::dim<2>, nda::dim<dynamic, 3>, nda::dense_dim<-1>>,
    nda::shape<nda::strided_dim<2>, nda::dim<>>,
    nda::shape<nda::dim<0, 4, 3>, nda::dim<dynamic, dynamic, 1>>,
    nda::shape<nda::dim<1, 3, -4>, nda::dense_dim<0, 4>>,
    nda::shape<nda::fixed_dim<3>, nda::dim<>, nda::dim<>, nda::fixed_dim<2>>,
    nda::shape<nda::strided_dim<-1>, nda::dim<>, nda::dim<>>,
    nda::shape<nda::dim<>, nda::strided_dim<8>, nda::dense_dim<0, 8>>,
    nda::shape<nda::dim<-3, 2>, nda::dim<5>, nda::dim<>, nda::dense_dim<>, nda::dim<>>,
    nda::shape<nda::dim<2, 1>, nda::dim<>>,
    nda::shape<nda::dim<>, nda::dim<-3, 1>, nda::dim<1>>>;

using BroadcastShapes = TypeList<
    nda::shape<nda::broadcast_dim<>>,
    nda::shape<nda::broadcast_dim<>, nda::dense_dim<>>,
    nda::shape<nda::dim<>, nda::broadcast_dim<0, 4>>,
    nda::shape<nda::dense_dim<>, nda::broadcast_dim<>, nda::dim<>>,
    nda::shape<nda::broadcast_dim<1, 3>, nda::broadcast_dim<>, nda::dim<>>>;

template <size_t I, class List>
struct TypeAt;
template <class T, class... Ts>
struct TypeAt<0, TypeList<T, Ts...>> {
  using type = T;
};
template <size_t I, class T, class... Ts>
struct TypeAt<I, TypeList<T, Ts...>> : TypeAt<I - 1, TypeList<Ts...>> {};

template <class T>
struct Tag {
  using type = T;
};

template <class... Ts>
constexpr size_t list_size(TypeList<Ts...>) {
  return sizeof...(Ts);
}

// fn(Tag<T>) for the i-th type (modulo the list size).
template <class Fn>
void with_type(TypeList<>, size_t, Fn&&) {}
template <class T, class... Ts, class Fn>
void with_type(TypeList<T, Ts...>, size_t i, Fn&& fn) {
  if (i == 0) fn(Tag<T>());
  else with_type(TypeList<Ts...>(), i - 1, fn);
}
} // namespace vh
#endif
