// C18: compaction of shapes and compact copies.
#include "menu.h"
using namespace nd;

template <class S> void one(Rng& r, bool arrays) {
  ShapeV st = static_v<S>();
  ShapeV v = rand_bounds(r, st, 4, 6);
  std::vector<size_t> dynst;
  for (auto& d : v) if (d[2] == UNR && r.chance(70)) d[2] = r.pick({1, 2, 3, 5, 8, -1, -4, 30, 0});
  S s = make_shape_of<S>(v);
  pending("make_compact");
  auto c = nda::make_compact(s);
  E e("compact");
  e("st", st)("dims", shape_v(s))("ost", static_v<decltype(c)>())("out", shape_v(c))("copied", false);
  emit(e);
  (void)arrays;
}

template <class S> void with_copy(Rng& r) {
  constexpr size_t R = S::rank();
  ShapeV st = static_v<S>();
  ShapeV v = rand_bounds(r, st, 3, 10);
  rand_strides(r, v, true, 50);
  if (!vone2one(v)) return;
  S s = make_shape_of<S>(v);
  pending("make_compact_copy");
  nda::array<int, S> a(s, 0);
  std::vector<IdxV> xs; all_idx(v, xs);
  long k = 0;
  for (auto& x : xs) a[idx_tuple<R>(x)] = (int)(100 + k++);
  auto c = nda::make_compact(s);
  int how = (int)r.in(0, 3);
  auto done = [&](auto&& b) {
    std::vector<long> src, vals;
    for (auto& x : xs) { src.push_back(a[idx_tuple<R>(x)]); vals.push_back(b[idx_tuple<R>(x)]); }
    emit(E("compact")("st", st)("dims", shape_v(s))("ost", static_v<decltype(c)>())("out", shape_v(c))
         ("copied", true)("cst", static_v<typename std::decay_t<decltype(b)>::shape_type>())
         ("cdims", shape_v(b.shape()))("src", src)("vals", vals)("sep", b.base() != a.base() || a.base() == nullptr));
  };
  if (how == 0) done(nda::make_compact_copy(a));
  else if (how == 1) done(nda::make_compact_copy(a.cref()));
  else if (how == 2) done(nda::make_compact_copy(a.ref()));
  else done(nda::make_compact_move(a));
}

// Every combination of dimension kinds. The work is split over several programs (PART 0-3) only to
// compile them in parallel.
#ifndef PART
#define PART 0
#endif
template <class... D> struct kinds {};
using K3 = kinds<nda::dim<>, nda::dim<dyn, 3>, nda::dense_dim<>, nda::dense_dim<dyn, 2>, nda::strided_dim<4>, nda::dim<1, 1, 1>, nda::dim<dyn, 3, -1>, nda::strided_dim<-2>>;
using K2 = kinds<nda::dim<>, nda::dim<dyn, 3>, nda::dim<0, 2>, nda::dense_dim<>, nda::dense_dim<dyn, 2>, nda::strided_dim<4>, nda::strided_dim<-3>,
                 nda::dim<1, 1, 1>, nda::dim<dyn, 1>, nda::dim<dyn, 3, -1>, nda::broadcast_dim<>, nda::dim<0, 4, 2>, nda::dim<-2, dyn, 6>>;
using K3a = std::conditional_t<PART == 1, kinds<nda::dim<>, nda::dim<dyn, 3>>,
            std::conditional_t<PART == 2, kinds<nda::dense_dim<>, nda::dense_dim<dyn, 2>>,
                               kinds<nda::strided_dim<4>, nda::strided_dim<-2>, nda::dim<1, 1, 1>, nda::dim<dyn, 3, -1>>>>;
template <class F, class... D> void each(kinds<D...>, F&& f) { int u[] = {0, (f(tag<D>{}), 0)...}; (void)u; }

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r((uint64_t)a.num("seed", 1) * 104729 + 7);
  long n = a.num("n", 2);
  for (long k = 0; k < n; k++) {
#if PART == 0
    each(K2{}, [&](auto d0) {
      using D0 = typename decltype(d0)::type;
      begin_session("k2");
      one<shape<D0>>(r, false);
      each(K2{}, [&](auto d1) { one<shape<D0, typename decltype(d1)::type>>(r, false); });
      end_session();
    });
#else
    each(K3a{}, [&](auto d0) {
      each(K3{}, [&](auto d1) {
        begin_session("k3");
        each(K3{}, [&](auto d2) {
          one<shape<typename decltype(d0)::type, typename decltype(d1)::type, typename decltype(d2)::type>>(r, false);
        });
        end_session();
      });
    });
#endif
#if PART == 0
    begin_session("menu");
    for_menu([&](auto t) { one<typename decltype(t)::type>(r, false); });
    end_session();
    for (int q = 0; q < 3; q++) {
      begin_session("copy");
      for_menu([&](auto t) { with_copy<typename decltype(t)::type>(r); });
      end_session();
    }
#endif
  }
  finish_out();
  return 0;
}
