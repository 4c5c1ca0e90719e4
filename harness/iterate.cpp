// C03, C04, C20: iteration over indices and values, fill, generate and transform.
#include "menu.h"
#include <functional>
#include <memory>
using namespace nd;

// ---------------------------------------------------------------- kinds of shapes with own orders
template <class S> struct kind { static constexpr int v = 0; };
template <long R, long C> struct kind<nda::matrix_shape<R, C>> { static constexpr int v = 1; };
template <long C, long X> struct kind<nda::chunky_image_shape<C, X>> { static constexpr int v = 2; };

template <class S> ShapeV rand_shape(Rng& r, long maxext, int zero, bool injective) {
  ShapeV st = static_v<S>(), v;
  for (int tries = 0; tries < 20; tries++) {
    v = rand_bounds(r, st, maxext, zero);
    int how = (int)r.in(0, 5);
    if (how == 0 && !injective) {
      for (auto& d : v) if (d[2] == UNR) d[2] = r.pick({0, 1, 2, -1, 3, 1, 6});
    } else if (how == 1) {
      S s = make_shape_of<S>(v); s.resolve(); v = shape_v(s);
    } else {
      rand_strides(r, v, true, how == 2 ? 0 : 40);
    }
    if (!injective || vone2one(v)) break;
  }
  return v;
}

// ---------------------------------------------------------------- C03
inline long& calls() { static long n = 0; return n; }
inline void call_ev(const IdxV& x) { calls()++; emit(E("call")("x", x)); }

// A callable with state of its own: given as an lvalue, it has to be this object that is called, every time.
// It can be copied, but a copy does not count for the original; it can only be called when not const.
struct Counting {
  long n = 0;
  template <class... I> void operator()(const std::tuple<I...>& x) { n++; call_ev(idx_v(x)); }
  template <class... I> void operator()(long x0, I... x) { n++; call_ev(IdxV{x0, (long)x...}); }
};
struct Counting0 {
  long n = 0;
  void operator()() { n++; call_ev(IdxV{}); }
};
template <size_t R> struct counting { using type = Counting; };
template <> struct counting<0> { using type = Counting0; };
// A callable that cannot be copied.
struct MoveOnly {
  std::unique_ptr<int> state{new int(0)};
  template <class... I> void operator()(const std::tuple<I...>& x) { ++*state; call_ev(idx_v(x)); }
};

template <class S, class F> void run_index(const S& s, const std::vector<long>& order, int expl, F&& f) {
  emit(E("begin")("dims", shape_v(s))("kind", kind<S>::v)("order", order)("expl", expl));
  pending("for_each_index");
  calls() = 0;
  bool usable = f();
  emit(E("end")("usable", usable));
}

template <size_t... O, class S> void explicit_order(Rng& r, const S& s) {
  std::vector<long> ord{(long)(O + 1)...};
  using idx_t = nda::index_of_rank<sizeof...(O)>;
  run_index(s, ord, 1, [&] {
    if (r.chance(50)) {
      std::function<void(const idx_t&)> f = [](const idx_t& x) { call_ev(idx_v(x)); };
      nda::for_each_index<O...>(s, f);
      return (bool)f;
    }
    nda::for_each_index<O...>(s, [](const idx_t& x) { call_ev(idx_v(x)); });
    return true;
  });
  run_index(s, ord, 1, [&] {
    Counting f;
    if (r.chance(50)) nda::for_all_indices<O...>(s, f); else nda::for_each_index<O...>(s, f);
    return f.n == calls();
  });
}

template <class S> void default_orders(Rng& r, const S& s) {
  using idx_t = typename S::index_type;
  constexpr size_t R = S::rank();
  for (int api = 0; api < 6; api++) {
    run_index(s, {}, api == 3 ? 2 : 0, [&] {
      std::function<void(const idx_t&)> f = [](const idx_t& x) { call_ev(idx_v(x)); };
      switch (api) {
      case 0: nda::for_each_index(s, f); break;
      case 1: nda::for_all_indices(s, [](auto... x) { call_ev(IdxV{(long)x...}); }); break;
      case 2: nda::shape_traits<S>::for_each_index(s, f); break;
      case 3: nda::for_each_index_in_order(s, f); break;
      case 4: {
        typename counting<R>::type c;
        nda::for_all_indices(s, c);
        return c.n == calls();
      }
      default: nda::for_each_index(s, MoveOnly()); break;
      }
      return (bool)f;
    });
  }
}

template <class S> std::enable_if_t<S::rank() == 0> orders(Rng&, const S&) {}
template <class S> std::enable_if_t<S::rank() == 1> orders(Rng& r, const S& s) { explicit_order<0>(r, s); }
template <class S> std::enable_if_t<S::rank() == 2> orders(Rng& r, const S& s) {
  explicit_order<0, 1>(r, s); explicit_order<1, 0>(r, s); explicit_order<0>(r, s); explicit_order<1>(r, s);
}
template <class S> std::enable_if_t<S::rank() == 3> orders(Rng& r, const S& s) {
  switch (r.in(0, 3)) {
  case 0: explicit_order<0, 1, 2>(r, s); explicit_order<1, 0, 2>(r, s); explicit_order<2, 0>(r, s); break;
  case 1: explicit_order<2, 0, 1>(r, s); explicit_order<0, 2, 1>(r, s); explicit_order<0, 2>(r, s); break;
  case 2: explicit_order<2, 1, 0>(r, s); explicit_order<1>(r, s); explicit_order<2>(r, s); break;
  default: explicit_order<1, 2, 0>(r, s); explicit_order<2, 1>(r, s); explicit_order<1, 0>(r, s); break;
  }
}
template <class S> std::enable_if_t<(S::rank() >= 5)> orders(Rng& r, const S& s) {
  switch (r.in(0, 2)) {
  case 0: explicit_order<4, 0, 3, 1, 2>(r, s); break;
  case 1: explicit_order<3, 4>(r, s); explicit_order<1, 4, 2, 0>(r, s); break;
  default: explicit_order<0, 1, 2, 3, 4>(r, s); explicit_order<4>(r, s); break;
  }
}
template <class S> std::enable_if_t<S::rank() == 4> orders(Rng& r, const S& s) {
  switch (r.in(0, 3)) {
  case 0: explicit_order<3, 1, 0, 2>(r, s); explicit_order<2, 0>(r, s); break;
  case 1: explicit_order<3, 2, 1, 0>(r, s); explicit_order<1, 3, 0>(r, s); break;
  case 2: explicit_order<0, 1, 2, 3>(r, s); explicit_order<3>(r, s); break;
  default: explicit_order<1, 3, 2, 0>(r, s); explicit_order<2, 3, 1>(r, s); break;
  }
}

template <class S> void index_session(Rng& r) {
  long maxext = rand_maxext(r, S::rank());
  S s = make_shape_of<S>(rand_shape<S>(r, maxext, 12, false));
  begin_session("index");
  default_orders(r, s);
  orders(r, s);
  end_session();
}
using index5 = shape<dim<>, dim<>, dim<0, 2>, dim<>, dim<>>;


// ---------------------------------------------------------------- C04, C20
// A cell logs every assignment made to it, with its address.
struct Cell;
struct Log { std::function<void(const Cell*, long, long)> f; };
inline Log& lg() { static Log l; return l; }
struct Cell {
  int v;
  Cell() = default;
  Cell(int x) : v(x) {}
  Cell(const Cell& c) : v(c.v) {}
  Cell& operator=(const Cell& c) {
    int old = v; v = c.v;
    if (lg().f) lg().f(this, old, v);
    return *this;
  }
};

// Memory with watched surroundings.
constexpr long GUARD = 12;
// An allocator with guard cells around what it returns.
struct GA { char* block; size_t n; };
inline GA& ga() { static GA g{nullptr, 0}; return g; }
template <class T> struct guard_alloc {
  using value_type = T;
  guard_alloc() {}
  template <class U> guard_alloc(const guard_alloc<U>&) {}
  T* allocate(size_t n) {
    char* b = (char*)malloc((n + 2 * GUARD) * sizeof(T));
    ga() = {b, n};
    return (T*)b + GUARD;
  }
  void deallocate(T* p, size_t) { free((char*)(p - GUARD)); }
  friend bool operator==(const guard_alloc&, const guard_alloc&) { return true; }
  friend bool operator!=(const guard_alloc&, const guard_alloc&) { return false; }
};

// Watch cells lo..hi relative to p.
// Plain elements (integers, floating point, a trivially copyable record) do not report what is assigned to them:
// what the calls leave in memory is seen at the end.
struct Pod { short a; char b; int v; };
#ifndef ELEM
#define ELEM Cell
#endif
#ifndef QUIET
#define QUIET 0
#endif
using Elem = ELEM;
inline long get(const Cell& c) { return c.v; }
inline void put(Cell& c, long x) { c.v = (int)x; }
inline long get(const Pod& c) { return c.a == 77 && c.b == 7 ? c.v : BIG; }
inline void put(Pod& c, long x) { c.a = 77; c.b = 7; c.v = (int)x; }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value, long> get(const T& c) { return (long)c; }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value> put(T& c, long x) { c = (T)x; }
template <class T> struct modulus { static constexpr long v = 1000000; };
template <> struct modulus<char> { static constexpr long v = 113; };
template <> struct modulus<unsigned char> { static constexpr long v = 251; };
template <> struct modulus<bool> { static constexpr long v = 2; };
inline long cap(long x) { return x % modulus<Elem>::v; }
inline Elem make(long x) { Elem e; put(e, cap(x)); return e; }

// Watch cells lo..hi relative to p.
struct Watch {
  Elem* p; long lo, hi;
  void fill() { for (long o = lo; o <= hi; o++) put(p[o], cap(5000 + o)); }
  std::vector<long> dump() const { std::vector<long> r; for (long o = lo; o <= hi; o++) r.push_back(get(p[o])); return r; }
};

inline void touch_ev(long o, long rd, long wr) { emit(E("touch")("o", o)("r", rd)("w", wr)); }

template <class S, class F>
void run_values(const char* how, const ShapeV& v, bool null, Watch w, long fv, F&& f) {
  if (!null) w.fill(); else w = Watch{w.p, 0, -1};
  emit(E("vbegin")("how", how)("dims", v)("kind", kind<S>::v)("null", null)("lo", w.lo)("hi", w.hi)("fv", fv)("quiet", QUIET)
       ("init", w.dump()));
  pending(how);
  Elem* p = w.p;
  long lo = w.lo, hi = w.hi;
  lg().f = [p, lo, hi](const Cell* c, long o, long n) {
    long d = (long)(((const char*)c - (const char*)p) / (long)sizeof(Elem));
    touch_ev(d < lo || d > hi ? BIG : d, o, n);
  };
  bool usable = f();
  lg().f = nullptr;
  E e("vend");
  e("usable", usable)("mem", w.dump());
  if (QUIET && !vone2one(v)) e("nocorrupt", true);   // any of the values stored in a shared element may be left
  emit(e);
}

template <class S, class A, class RefT>
void apis(tag<int>, Rng& r, const ShapeV& v, A& a, RefT ref, Watch w, bool null) {
  using idx_t = typename S::index_type;
  Elem* p = w.p; long lo = w.lo, hi = w.hi;
  auto off = [p, lo, hi](const Elem& c) {
    long d = (long)(((const char*)&c - (const char*)p) / (long)sizeof(Elem));
    return d < lo || d > hi ? BIG : d;
  };
  int k = 0;
  auto rw = [&](Elem& c) {   // reads, then writes through the reference, without operator=
    long rd = get(c), wr = cap(1000 + k++);
    put(c, wr);
    touch_ev(off(c), rd, wr);
  };
  auto ro = [&](const Elem& c) { touch_ev(off(c), get(c), get(c)); };
  const A& ca = a;
  run_values<S>("array.for_each_value", v, null, w, 0, [&] {
    std::function<void(Elem&)> f = rw; k = 0;
    a.for_each_value(f); return (bool)f;
  });
  run_values<S>("const array.for_each_value", v, null, w, 0, [&] { ca.for_each_value(ro); return true; });
  run_values<S>("ref.for_each_value", v, null, w, 0, [&] { k = 0; ref.for_each_value(rw); return true; });
  run_values<S>("counted for_each_value", v, null, w, 0, [&] {
    struct Counted {
      decltype(rw)& f; long n;
      void operator()(Elem& c) { n++; f(c); }
    } f{rw, 0};
    k = 0;
    if (r.chance(50)) a.for_each_value(f); else ref.for_each_value(f);
    return f.n == k;
  });
  run_values<S>("cref.for_each_value", v, null, w, 0, [&] {
    std::function<void(const Elem&)> f = ro;
    ref.cref().for_each_value(f); return (bool)f;
  });
  run_values<S>("shape_traits", v, null, w, 0, [&] {
    k = 0; nda::shape_traits<S>::for_each_value(ref.shape(), ref.base(), rw); return true;
  });
  long fv = cap(r.chance(40) ? 0 : 777);
  if (r.chance(50)) run_values<S>("fill", v, null, w, fv, [&] { nda::fill(ref, make(fv)); return true; });
  else run_values<S>("fill", v, null, w, fv, [&] { nda::fill(a, make(fv)); return true; });
  run_values<S>("generate", v, null, w, 0, [&] {
    k = 0;
    std::function<Elem()> g = [&k] { long x = cap(3000 + k++); emit(E("gen")("v", x)); return make(x); };
    if (r.chance(50)) nda::generate(ref, g); else nda::generate(a, g);
    return (bool)g;
  });
  run_values<S>("generate", v, null, w, 0, [&] {
    k = 0;
    struct Source {    // keeps its own count
      int* k; long n;
      Elem operator()() { long x = cap(3000 + n++); ++*k; emit(E("gen")("v", x)); return make(x); }
    } g{&k, 0};
    if (r.chance(50)) nda::generate(ref, g); else nda::generate(a, g);
    return g.n == k;
  });
}

// The result of the call depends on the index and on the number of the call.
template <class S, class A, class RefT>
void apis(tag<bool>, Rng& r, const ShapeV& v, A& a, RefT ref, Watch w, bool null) {
  using idx_t = typename S::index_type;
  int k = 0;
  std::function<Elem(const idx_t&)> f = [&k](const idx_t& x) {
    long val = cap(2000 + k++);
    emit(E("fcall")("x", idx_v(x))("v", val));
    return make(val);
  };
  auto fs = [&k](auto... x) {
    long val = cap(2000 + k++);
    emit(E("fcall")("x", IdxV{(long)x...})("v", val));
    return make(val);
  };
  run_values<S>("transform_index ref", v, null, w, 0, [&] { k = 0; nda::transform_index(ref, f); return (bool)f; });
  run_values<S>("transform_indices ref", v, null, w, 0, [&] { k = 0; nda::transform_indices(ref, fs); return true; });
  run_values<S>("transform_index array", v, null, w, 0, [&] { k = 0; nda::transform_index(a, f); return (bool)f; });
  run_values<S>("transform_indices array", v, null, w, 0, [&] { k = 0; nda::transform_indices(a, fs); return true; });
}

template <class S, class Tr> void value_session(Rng& r, tag<Tr>) {
  constexpr bool transforms = std::is_same<Tr, bool>::value;
  tag<Tr> how;
  long maxext = rand_maxext(r, S::rank());
  bool owning = r.chance(50);
  ShapeV v = rand_shape<S>(r, maxext, 12, owning);
  S s = make_shape_of<S>(v);
  begin_session(transforms ? "transform" : "value");
  if (!owning || !vone2one(v)) {
    // A reference into watched memory.
    s.resolve(); v = shape_v(s);
    bool null = vsize(v) == 0 && r.chance(60);
    long mn = vfmin(v), mx = std::max(vfmax(v), mn);
    std::unique_ptr<Elem[]> cells(new Elem[mx - mn + 1 + 2 * GUARD]);
    Elem* base = null ? nullptr : cells.get() + GUARD - mn;
    Watch w{base, mn - GUARD, mx + GUARD};
    nda::array_ref<Elem, S> ref(base, s);
    emit(E("shape")("dims", shape_v(ref.shape())));
    apis<S>(how, r, v, ref, ref, w, null);
  } else if (transforms) {
    nda::array<Elem, S> a(s);
    v = shape_v(a.shape());
    bool null = a.base() == nullptr;
    long mn = vfmin(v), mx = vfmax(v);
    Watch w{a.base(), mn, vsize(v) ? mx : mn - 1};
    emit(E("shape")("dims", v));
    apis<S>(how, r, v, a, a.ref(), w, null);
  } else {
    nda::array<Elem, S, guard_alloc<Elem>> a(s);
    v = shape_v(a.shape());
    bool null = a.base() == nullptr;
    Watch w{a.base(), 0, -1};
    if (!null) {
      long first = (long)((Elem*)ga().block - a.base());
      w = Watch{a.base(), first, first + (long)ga().n + 2 * GUARD - 1};
    }
    emit(E("shape")("dims", v));
    apis<S>(tag<int>{}, r, v, a, a.ref(), w, null);
  }
  end_session();
}

// The work is split over several programs only to compile them in parallel.
#ifndef PART
#define PART 0
#endif
#ifndef MODE
#define MODE 0
#endif
template <class F> void menu_part(F&& f) {
#if PART == 0
  for_list(M0{}, f); for_list(M1{}, f);
#elif PART == 1
  for_list(M2{}, f);
#elif PART == 2
  for_list(M3{}, f);
#else
  for_list(M4{}, f); for_list(M5{}, f);
#if MODE == 0
  f(tag<index5>{}); f(tag<shape<dim<>, dim<>, dim<>, dim<dyn, 1>, dim<0, 2>, dim<>>>{});
#endif
#endif
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r((uint64_t)a.num("seed", 1) * 7919 + 3);
  long n = a.num("n", 2);
  for (long k = 0; k < n; k++) {
#if MODE == 0
    menu_part([&](auto t) { index_session<typename decltype(t)::type>(r); });
#elif MODE == 1
    menu_part([&](auto t) { value_session<typename decltype(t)::type>(r, tag<int>{}); });
#else
    menu_part([&](auto t) { value_session<typename decltype(t)::type>(r, tag<bool>{}); });
#endif
  }
  finish_out();
  return 0;
}
