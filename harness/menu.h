// The shape types the drivers instantiate: every rank 0-4, dynamic and static mixes, the shape kinds
// with specialised traversal, and the layouts the documentation names.
#ifndef VERIF_MENU_H
#define VERIF_MENU_H
#include "nd.h"
#include "array/image.h"
#include "array/matrix.h"

namespace nd {
template <class... S> struct list {};
constexpr nda::index_t dyn = nda::dynamic;
using nda::shape; using nda::dim; using nda::dense_dim; using nda::strided_dim; using nda::fixed_dim;

using M0 = list<shape<>>;
using M1 = list<
  nda::shape_of_rank<1>, nda::dense_shape<1>, shape<dim<0>>, shape<dim<dyn, 4>>, shape<dim<2, 3, 2>>,
  shape<strided_dim<2>>, nda::vector_shape<5>, nda::fixed_dense_shape<4>, shape<dim<-3, 4, -2>>,
  shape<dim<-1, dyn, dyn>>, shape<dim<dyn, 1>>, shape<dim<3, 0>>, shape<dim<dyn, 1, -2>>>;
using M2 = list<
  nda::shape_of_rank<2>, nda::dense_shape<2>, nda::matrix_shape<>, nda::matrix_shape<2, 3>,
  nda::matrix_shape<nda::dynamic, 3>, shape<dim<>, dim<1, 3>>, shape<strided_dim<3>, dense_dim<0, 3>>,
  nda::fixed_dense_shape<3, 2>, shape<dim<0, 2, 3>, dim<0, 3, 1>>, shape<dim<-2>, dim<dyn, dyn, -4>>,
  shape<dim<1, 2, -1>, dim<-1, dyn, dyn>>, shape<dense_dim<>, fixed_dim<3>>,
  shape<dim<dyn, 1>, dim<>>, shape<dim<>, dim<4, 1, dyn>>, shape<dim<dyn, 0>, dim<>>, nda::matrix_shape<nda::dynamic, 1>>;
using M3 = list<
  nda::shape_of_rank<3>, nda::dense_shape<3>, nda::planar_image_shape, nda::chunky_image_shape<3>,
  nda::chunky_image_shape<>, nda::chunky_image_shape<3, 4>, nda::chunky_image_shape<nda::dynamic, 4>,
  nda::fixed_dense_shape<2, 3, 2>, shape<dim<>, dim<0, 2>, dim<-1, dyn, dyn>>,
  shape<dim<dyn, 3, dyn>, dense_dim<1, dyn>, dim<0, 2, dyn>>,
  shape<dim<dyn, 1>, dim<>, dim<dyn, 1>>, shape<dim<>, dim<dyn, 1>, dim<2, dyn>>, nda::chunky_image_shape<1>>;
using M4 = list<
  nda::shape_of_rank<4>, nda::dense_shape<4>, nda::fixed_dense_shape<2, 2, 1, 2>,
  shape<dim<>, dense_dim<0, 2>, dim<dyn, 3>, dim<-1>>,
  shape<dim<dyn, 1>, dim<>, dense_dim<>, dim<dyn, 1>>>;
// Higher ranks.
using M5 = list<
  nda::shape_of_rank<5>, nda::dense_shape<5>, nda::fixed_dense_shape<2, 1, 2, 1, 2>,
  shape<dim<>, dim<dyn, 1>, dense_dim<>, dim<0, 2>, dim<dyn, dyn, dyn>, dim<-1>>, nda::shape_of_rank<6>>;
using M7 = list<nda::shape_of_rank<7>, shape<dim<>, dim<>, dense_dim<>, dim<>, dim<2>, dim<>, dim<dyn, 2>, dim<>>>;

// Calls f(Tag<Shape>{}) for every shape of the list.
template <class S> struct tag { using type = S; };
template <class F, class... S> void for_list(list<S...>, F&& f) {
  int u[] = {0, (f(tag<S>{}), 0)...}; (void)u;
}
template <class F> void for_menu(F&& f) {
  for_list(M0{}, f); for_list(M1{}, f); for_list(M2{}, f); for_list(M3{}, f); for_list(M4{}, f);
  for_list(M5{}, f); for_list(M7{}, f);
}

// An allocator that records the last allocation.
struct AllocRec { void* p; size_t n; };
inline AllocRec& last_alloc() { static AllocRec r{nullptr, 0}; return r; }
template <class T> struct rec_alloc {
  using value_type = T;
  rec_alloc() {}
  template <class U> rec_alloc(const rec_alloc<U>&) {}
  T* allocate(size_t n) {
    T* p = (T*)malloc(n * sizeof(T)); last_alloc() = {p, n}; return p;
  }
  void deallocate(T* p, size_t) { free(p); }
  friend bool operator==(const rec_alloc&, const rec_alloc&) { return true; }
  friend bool operator!=(const rec_alloc&, const rec_alloc&) { return false; }
};
} // namespace nd
#endif
