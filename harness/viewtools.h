// Shared by the drivers of views: a region of memory that can be made inaccessible, sessions of views
// over it, and what is observed of a view.
#ifndef VERIF_VIEWTOOLS_H
#define VERIF_VIEWTOOLS_H
#include "menu.h"
#include <sys/mman.h>
using namespace nd;
using nda::index_t;

// ---------------------------------------------------------------- memory
constexpr long PAGES = 64, BYTES = PAGES * 4096;
static char* region() {
  static char* p = (char*)mmap(nullptr, BYTES, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  return p;
}
static int* mid() { return (int*)(region() + BYTES / 2); }
static long rel(const void* p) {
  long d = (const char*)p - (const char*)mid();
  if (d % 4) return BIG;
  return d / 4;
}
static void freeze() { mprotect(region(), BYTES, PROT_NONE); }
static void thaw() { mprotect(region(), BYTES, PROT_READ | PROT_WRITE); }
template <class F> auto frozen(F&& f) { freeze(); auto r = f(); thaw(); return r; }

// Allocates from the region; one block at a time.
struct Blk { long p, n; bool live; long allocs; };
inline Blk& blk() { static Blk b{0, 0, false, 0}; return b; }
static bool logfree = false;
template <class T> struct arena_alloc {
  using value_type = T;
  arena_alloc() {}
  template <class U> arena_alloc(const arena_alloc<U>&) {}
  T* allocate(size_t n) {
    blk().allocs++;
    if (blk().live) return (T*)malloc(n * sizeof(T));   // not the block under test
    blk() = Blk{40, (long)n, true, blk().allocs};
    return (T*)(mid() + 40);
  }
  void deallocate(T* p, size_t n) {
    if (std::abs(rel(p)) > BYTES) { free(p); return; }
    blk().live = false;
    if (logfree) emit(E("free")("block", std::vector<long>{rel(p), (long)n}));
  }
  friend bool operator==(const arena_alloc&, const arena_alloc&) { return true; }
  friend bool operator!=(const arena_alloc&, const arena_alloc&) { return false; }
};

// ---------------------------------------------------------------- session state
struct Ctx {
  Rng& r;
  int n = 0;          // views so far
  long lo = 0, hi = -1;
  const J* plan = nullptr;
  int pos = 0, depth = 0;
};
static void fill_window(Ctx& c) { for (long o = c.lo; o <= c.hi; o++) mid()[o] = (int)(5000 + o); }
static void dump(Ctx& c) {
  std::vector<long> m;
  for (long o = c.lo; o <= c.hi; o++) m.push_back(mid()[o]);
  emit(E("mem")("lo", c.lo)("hi", c.hi)("mem", m));
}
template <class R> struct elem { using type = typename R::value_type; };
template <class T> struct unref { static constexpr bool isconst = false; };
template <class T, class S> struct unref<nda::array_ref<T, S>> { static constexpr bool isconst = std::is_const<T>::value; };
template <class T, class S, class A> struct unref<nda::array<T, S, A>> { static constexpr bool isconst = false; };
template <class T, class S, class A> struct unref<const nda::array<T, S, A>> { static constexpr bool isconst = true; };
template <class R> V vobs(R& v) {
  using S = typename std::decay_t<R>::shape_type;
  bool null = v.base() == nullptr;
  E e;
  e("null", null)("b", null ? 0 : rel(v.base()))("st", static_v<S>())("dims", shape_v(v.shape()))
   ("c", unref<R>::isconst)("data", null || !v.shape().is_resolved() || v.shape().empty() ? 0 : rel(v.data()));
  return e.obj();
}
template <class R> V vobs_ref(const R& v) { R w = v; return vobs(w); }

template <class Ref, class T> std::enable_if_t<std::is_const<T>::value> poke(Ctx&, const Ref&, int, const IdxV&, tag<T>) {}
template <class Ref, class T>
std::enable_if_t<!std::is_const<T>::value> poke(Ctx& c, const Ref& v, int id, const IdxV& x, tag<T>) {
  constexpr size_t R = std::decay_t<Ref>::rank();
  static int k = 0;
  int val = 10000 + (k++ % 80000);
  if (c.r.chance(50)) v[idx_tuple<R>(x)] = (T)val;
  else spread<R>([&](auto... i) { v(i...) = (T)val; }, x);
  emit(E("poke")("v", id)("x", x)("val", val));
}
// Read and write through the view, inside its bounds and the watched window.
template <class Ref> void probe(Ctx& c, const Ref& v, int id) {
  constexpr size_t R = Ref::rank();
  if (v.base() == nullptr) return;
  ShapeV d = shape_v(v.shape());
  for (auto& x : d) if (x[2] == UNR) x[2] = 0;
  if (vsize(d) == 0 || vsize(d) > 500) return;
  std::vector<IdxV> xs, in; all_idx(d, xs);
  long b = rel(v.base());
  for (auto& x : xs) { long o = b + voff(d, x); if (o >= c.lo && o <= c.hi) in.push_back(x); }
  if (in.empty()) return;
  std::vector<IdxV> sel; std::vector<long> vals;
  for (int k = 0; k < 6; k++) {
    const IdxV& x = in[c.r.in(0, (long)in.size() - 1)];
    sel.push_back(x);
    vals.push_back(k % 2 ? (long)v[idx_tuple<R>(x)] : (long)spread<R>([&](auto... i) { return v(i...); }, x));
  }
  emit(E("peek")("v", id)("xs", sel)("vals", vals));
  poke(c, v, id, in[c.r.in(0, (long)in.size() - 1)], tag<typename Ref::value_type>{});
}
template <class Ref> int made(Ctx& c, E e, const Ref& res, const char* to = "same") {
  e("res", vobs_ref(res))("to", to);
  emit(e);
  int id = ++c.n;
  probe(c, res, id);
  return id;
}
inline E view(const char* k, int from) {
  pending(k);
  E e("view");
  e("k", k)("from", from);
  if (std::string(k) == "convert") e("nocorrupt", true);   // strides of new dimensions are free
  return e;
}

#endif
