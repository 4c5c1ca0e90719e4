// C17: which operations are within their contract. Every operation runs in a process of its own first,
// to see whether it aborts; if not, it runs again to see what it produces.
#include "menu.h"
#include "array/ein_reduce.h"
using namespace nd;
using nda::index_t;
using nda::interval;
#ifndef PART
#define PART 0
#endif
constexpr long ARENA = 4096;
static int arena[ARENA];
static int* mid() { return arena + ARENA / 2; }

// Runs f in a child; if it survives there, runs it here and reports what it returns.
template <class F> void attempt(E& e, F&& f, bool chain = false) {
  bool ab = aborts(f);
  e("aborted", ab)("chain", chain);
  e("out", ab ? ShapeV{} : f());
  emit(e);
}
template <class S> ShapeV near(Rng& r, const ShapeV& st, const ShapeV& own, int pct, bool unr) {
  // Values for a shape of type own, often equal to the constants of st.
  ShapeV v;
  for (size_t i = 0; i < own.size(); i++) {
    DimV d(3);
    for (int q = 0; q < 3; q++) {
      long want = i < st.size() ? st[i][q] : q == 1 ? 1 : DYN;
      if (own[i][q] != DYN) d[q] = own[i][q];
      else if (want != DYN && r.chance(pct)) d[q] = want;
      else if (q == 1 && want != DYN) d[q] = std::max(0l, want + r.pick({-1, 1, 2}));
      else if (want != DYN) d[q] = want + r.pick({-1, 1, 3});
      else d[q] = q == 0 ? r.in(-3, 4) : q == 1 ? r.in(0, 4) : unr && r.chance(30) ? UNR : r.in(-12, 12);
      if (q == 2 && own[i][q] == DYN && unr && r.chance(12)) d[q] = UNR;
    }
    v.push_back(d);
  }
  return v;
}
// Whether the types say different things about a dimension they share: such conversions do not compile.
constexpr bool differ(index_t a, index_t b) { return a != dyn && b != dyn && a != b; }
template <class A, class B, size_t N> struct conflict {
  using X = typename std::tuple_element<N - 1, typename A::dims_type>::type;
  using Y = typename std::tuple_element<N - 1, typename B::dims_type>::type;
  static constexpr bool value = differ(X::Min, Y::Min) || differ(X::Extent, Y::Extent) || differ(X::Stride, Y::Stride) ||
                                conflict<A, B, N - 1>::value;
};
template <class A, class B> struct conflict<A, B, 0> { static constexpr bool value = false; };
template <class A, class B> using clashing =
    std::integral_constant<bool, conflict<A, B, (A::rank() < B::rank() ? A::rank() : B::rank())>::value>;
static E op(const char* f) { E e("try"); e("f", f); return e; }

// ---------------------------------------------------------------- conversions of the same rank
template <class Src, class Dst> void conversions(Rng& r, int n) {
  constexpr size_t R = Src::rank();
  ShapeV st = static_v<Dst>(), own = static_v<Src>();
  for (int i = 0; i < n; i++) {
    bool unr = r.chance(40);
    ShapeV d = near<Src>(r, st, own, r.chance(50) ? 100 : 75, unr);
    Src src = make_shape_of<Src>(d);
    bool res = src.is_resolved();
    if (res) {
      emit(E("pred")("t", st)("d", d)("compatible", nda::is_compatible<Dst>(src)));
      if (r.chance(30)) emit(E("pred")("t", st)("d", d)("compatible", nda::is_explicitly_compatible<Dst>(src)));
    }
#ifdef NDEBUG
    // Without assertions only what is within the contract can be tried.
    bool same = true;
    for (size_t k = 0; k < Src::rank(); k++)
      for (int q = 0; q < 3; q++) same = same && (st[k][q] == DYN || d[k][q] == st[k][q] || (q == 2 && d[k][q] == UNR));
    if (!same) continue;
#endif
    int how = (int)r.in(0, 7);
    E e = op(how == 1 ? "assign" : "convert");
    e("t", st)("d", d)("how", how);
    ShapeV def;
    auto f = [&]() -> ShapeV {
      switch (how) {
      case 0: return shape_v(Dst(src));
      case 1: { Dst t; t = src; return shape_v(t); }
      case 2: return shape_v(nda::convert_shape<Dst>(src));
      case 3: return shape_v(Dst(src.dims()));
      case 4: { nda::array_ref<int, Src> a(nullptr, src); if (!res) return shape_v(Dst(src)); nda::array_ref<int, Dst> b(a); return shape_v(b.shape()); }
      case 5: { nda::array_ref<int, Src> a(nullptr, src); if (!res) return shape_v(Dst(src)); return shape_v(nda::convert_shape<Dst>(a).shape()); }
      case 6: { nda::array_ref<int, Src> a(nullptr, src); if (!res) return shape_v(Dst(src));
                nda::array_ref<const int, Src> b(a); return shape_v(nda::convert_shape<Dst>(b).shape()); }
      default: { nda::array_ref<int, Src> a(nullptr, src); if (!res) return shape_v(Dst(src));
                 Dst ds = Dst(); ds.resolve(); nda::array_ref<int, Dst> b(nullptr, ds); b = a; return shape_v(b.shape()); }
      }
    };
    (void)R;
    attempt(e, f);
  }
}
template <class Src, class Dst> void one(Rng&, int, std::true_type) {}
template <class Src, class Dst> void one(Rng& r, int n, std::false_type) {
  begin_session("conv");
  conversions<Src, Dst>(r, n);
  end_session();
}
template <class L, class... D> void row(Rng& r, int n, list<D...>) {
  int u[] = {0, (one<L, D>(r, n, clashing<L, D>{}), 0)...}; (void)u;
}
template <class M, class... S> void square(Rng& r, int n, list<S...>, M m) {
  int u[] = {0, (row<S>(r, n, m), 0)...}; (void)u;
}

// ---------------------------------------------------------------- conversions of the rank
template <class Src, class Dst> void rank_one(Rng&, int, std::true_type) {}
template <class Src, class Dst> void rank_one(Rng& r, int n, std::false_type) {
  begin_session("rank");
  ShapeV st = static_v<Dst>(), own = static_v<Src>();
  for (int i = 0; i < n; i++) {
    ShapeV d = near<Src>(r, st, own, r.chance(60) ? 100 : 70, r.chance(20));
    for (auto& x : d) if (x[2] == UNR && r.chance(50)) x[2] = 5;
    Src src = make_shape_of<Src>(d);
    bool res = src.is_resolved(), ref = r.chance(50) && res;
    E e = op("rank");
    e("t", st)("d", d)("how", ref);
    if (Dst::rank() > Src::rank()) e("nocorrupt", true);
    attempt(e, [&]() -> ShapeV {
      if (!ref) return shape_v(nda::convert_shape<Dst>(src));
      nda::array_ref<int, Src> a(nullptr, src);
      return shape_v(nda::convert_shape<Dst>(a).shape());
    });
  }
  end_session();
}
template <class L, class... D> void rank_row(Rng& r, int n, list<D...>) {
  int u[] = {0, (rank_one<L, D>(r, n, clashing<L, D>{}), 0)...}; (void)u;
}
template <class M, class... S> void rank_square(Rng& r, int n, list<S...>, M m) {
  int u[] = {0, (rank_row<S>(r, n, m), 0)...}; (void)u;
}

// ---------------------------------------------------------------- dimensions
template <class D> void dims(Rng& r, int n) {
  begin_session("dim");
  DimV t = static_dim_v<D>();
  for (int i = 0; i < n; i++) {
    DimV v(3);
    for (int q = 0; q < 3; q++) v[q] = t[q] != DYN && r.chance(75) ? t[q] : q == 1 ? r.in(0, 5) : r.in(-5, 5);
    if (t[2] == DYN && r.chance(20)) v[2] = UNR;
    E e = op("dim");
    e("t", ShapeV{t})("d", ShapeV{v});
    if (v[2] == UNR) e("nocorrupt", true);
    attempt(e, [&]() -> ShapeV { return {dim_v(D((index_t)v[0], (index_t)v[1], dec_stride(v[2])))}; });
    D x;
    for (int q = 0; q < 3; q++) {
      DimV now = dim_v(x);
      const char* what[] = {"min", "extent", "stride"};
      long val = t[q] != DYN && r.chance(50) ? t[q] : q == 2 && r.chance(20) ? UNR : q == 1 ? r.in(0, 5) : r.in(-5, 5);
      E s = op("set");
      s("t", ShapeV{t})("d", ShapeV{now})("what", what[q])("x", val);
      attempt(s, [&]() -> ShapeV {
        D y(x);
        if (q == 0) y.set_min((index_t)val); else if (q == 1) y.set_extent((index_t)val); else y.set_stride(dec_stride(val));
        return {dim_v(y)};
      });
      if (t[q] == DYN) { if (q == 0) x.set_min((index_t)val); else if (q == 1) x.set_extent((index_t)val); }
    }
  }
  end_session();
}
template <class I> void intervals(Rng& r, int n) {
  begin_session("interval");
  DimV t = {enc_static(I::Min), enc_static(I::Extent), 1};
  for (int i = 0; i < n; i++) {
    DimV v = {t[0] != DYN && r.chance(70) ? t[0] : r.in(-5, 5), t[1] != DYN && r.chance(70) ? t[1] : r.in(0, 5), 1};
    E e = op("dim");
    e("t", ShapeV{t})("d", ShapeV{v});
    int how = (int)r.in(0, 2);
    attempt(e, [&]() -> ShapeV {
      I x = how == 0 ? I((index_t)v[0], (index_t)v[1]) : how == 1 ? I(interval<>((index_t)v[0], (index_t)v[1])) : I();
      if (how == 2) x = interval<>((index_t)v[0], (index_t)v[1]);
      return {{(long)x.min(), (long)x.extent(), 1}};
    });
  }
  end_session();
}

// ---------------------------------------------------------------- splitting and dimension numbers
template <index_t K> void splits(Rng& r, int n) {
  begin_session("split");
  for (int i = 0; i < n; i++) {
    long mn = r.in(-4, 4), ex = r.in(0, 2 * K), how = r.in(0, 1);
    E e = op("split");
    e("t", ShapeV{})("d", ShapeV{{mn, ex, 1}})("x", (long)K);
    attempt(e, [&]() -> ShapeV {
      if (how) { auto s = nda::split<K>(interval<>(mn, ex)); (void)*s.begin(); }
      else { auto s = nda::split<K>(nda::dim<>(mn, ex, 2)); (void)*s.begin(); }
      return {};
    });
    long by = r.in(-2, 2);
    ex = r.in(4 * K, 6 * K);
    E a = op("advance");
    a("t", ShapeV{})("d", ShapeV{{mn, ex, 1}})("x", by);
    attempt(a, [&]() -> ShapeV {
      if (how) { auto s = nda::split<K>(interval<>(mn, ex)); auto it = s.begin(); it += by; (void)*it; }
      else { auto s = nda::split(interval<>(mn, ex), K); (void)s[by]; }
      return {};
    });
  }
  end_session();
}
template <class S> void dim_numbers(Rng& r, int n) {
  begin_session("dimno");
  S s;
  for (int i = 0; i < n; i++) {
    long x = r.in(0, (long)S::rank() + 2);
    E e = op("dimno");
    e("t", ShapeV{})("d", shape_v(s))("x", x);
    attempt(e, [&]() -> ShapeV { return {dim_v(s.dim((size_t)x))}; });
  }
  end_session();
}

// ---------------------------------------------------------------- transfers
static ShapeV layout(Rng& r, ShapeV b) {
  for (auto& d : b) d[2] = UNR;
  for (int i = 0; i < 30; i++) { ShapeV v = b; if (rand_strides(r, v, true, 30)) return v; }
  nd::die("no layout", 0);
  return b;
}
template <size_t R> void copies_case(const ShapeV& s, const ShapeV& d, long how) {
  using S = nda::shape_of_rank<R>;
  S ss = make_shape_of<S>(s), ds = make_shape_of<S>(d);
  E e = op("copy");
  e("t", ShapeV{})("d", s)("new", d)("how", how);
  attempt(e, [&]() -> ShapeV {
    if (how == 2 || how == 3) {
      nda::array<int, S> a(ss), b(ds);
      if (how == 2) nda::copy(a, b); else nda::move(a, b);
      return {};
    }
    if (how == 4 || how == 5) {
      nda::array<int, S> a(ss);
      if (how == 4) nda::make_copy(a, ds, std::allocator<int>()); else nda::make_move(a, ds, std::allocator<int>());
      return {};
    }
    nda::array_ref<int, S> a(mid(), ss), b(mid() + 1000, ds);
    if (how) nda::copy(a, b); else nda::move(a, b);
    return {};
  });
}
template <size_t R> void copies(Rng& r, int n) {
  begin_session("copy");
  for (int i = 0; i < n; i++) {
    ShapeV s, d;
    for (size_t k = 0; k < R; k++) {
      s.push_back({r.in(-3, 3), r.chance(10) ? 0 : r.in(1, 4), UNR});
      long lo = r.chance(60) ? r.in(0, s[k][1]) : r.in(-2, 2), ex = r.chance(70) ? r.in(0, std::max(0l, s[k][1] - lo)) : r.in(0, 4);
      d.push_back({s[k][0] + lo, ex, UNR});
    }
    copies_case<R>(layout(r, s), layout(r, d), r.in(0, 5));
  }
  end_session();
}

// ---------------------------------------------------------------- shapes over existing memory
static ShapeV some_layout(Rng& r, size_t rank, bool unr) {
  ShapeV v;
  for (size_t k = 0; k < rank; k++)
    v.push_back({r.in(-3, 3), r.chance(6) ? 0 : r.in(1, 4), unr && r.chance(25) ? UNR : r.in(-8, 8)});
  return v;
}
template <class S> ShapeV set_ref(nda::array_ref<int, S>& a, const S& ns, index_t off) { a.set_shape(ns, off); return shape_v(a.shape()); }
template <class S> void shapes_case(const ShapeV& old, const ShapeV& neu, long off, const char* f, long how) {
  S os = make_shape_of<S>(old), ns = make_shape_of<S>(neu);
  E e = op(f);
  e("t", ShapeV{})("d", old)("new", neu)("off", off)("how", how);
  long moved = off;
  auto go = [&]() -> ShapeV {
    if (!strcmp(f, "setshape")) {
      if (how == 0) {
        nda::array_ref<int, S> a(mid(), os);
        a.set_shape(ns, off);
        moved = a.base() - mid();
        return shape_v(a.shape());
      }
      nda::array<int, S> a(os);
      int* b = a.base();
      a.set_shape(ns, off);
      moved = a.base() - b;
      return shape_v(a.shape());
    }
    if (!strcmp(f, "reint")) {
      if (how == 0) {
        nda::array_ref<int, S> a(mid(), os);
        auto q = nda::reinterpret_shape(a, ns, off);
        moved = q.base() - mid();
        return shape_v(q.shape());
      }
      nda::array<int, S> a(os);
      auto q = nda::reinterpret_shape(a, ns, off);
      moved = q.base() - a.base();
      return shape_v(q.shape());
    }
    nda::array<int, S> a(os);
    int* b = a.base();
    auto q = nda::move_reinterpret_shape(std::move(a), ns, off);
    moved = q.base() - b;
    return shape_v(q.shape());
  };
  bool ab = aborts(go);
  ShapeV out;
  if (!ab) out = go();
  e("aborted", ab)("chain", false)("out", out);
  bool empty = vsize(old) == 0 || vsize(neu) == 0, res = true;
  for (auto& x : neu) res = res && x[2] != UNR;
  if (!ab) e("moved", empty ? off : moved);
  if (empty || !res) e("nocorrupt", true);
  emit(e);
}
static const char* SHAPE_OPS[] = {"setshape", "reint", "mvreint"};
template <size_t R> void shapes(Rng& r, int n) {
  using S = nda::shape_of_rank<R>;
  begin_session("shapes");
  for (int i = 0; i < n; i++) {
    const char* f = SHAPE_OPS[r.in(0, 2)];
    ShapeV old = some_layout(r, R, false), neu = some_layout(r, R, strcmp(f, "mvreint") != 0 && r.chance(25));
    if (r.chance(40)) {   // a part of the old shape
      neu = old;
      for (auto& d : neu) { d[1] = std::max(0l, d[1] - r.in(0, 2)); if (r.chance(20)) d[2] = -d[2]; if (r.chance(20)) d[1]++; }
    }
    long off = r.chance(30) ? 0 : r.in(-6, 12);
    if (vsize(old) && r.chance(50)) {   // at the edge of what fits
      S t = make_shape_of<S>(neu); t.resolve();
      ShapeV tv = shape_v(t);
      off = r.chance(50) ? vfmin(old) - vfmin(tv) : vfmax(old) - vfmax(tv);
      if (r.chance(40)) off += r.pick({-1, 1});
    }
    shapes_case<S>(old, neu, off, f, r.in(0, 1));
  }
  end_session();
}
// One reference followed through several assignments of shapes.
template <size_t R> void chains(Rng& r, int n, int len) {
  using S = nda::shape_of_rank<R>;
  for (int i = 0; i < n; i++) {
    begin_session("chain");
    ShapeV old = layout(r, rand_bounds(r, static_v<S>(), 4, 0));
    nda::array_ref<int, S> a(mid(), make_shape_of<S>(old));
    emit(E("start")("d", old));
    for (int k = 0; k < len; k++) {
      ShapeV now = shape_v(a.shape()), neu = now;
      for (auto& d : neu) {
        d[0] += r.in(-1, 1);
        d[1] = std::max(1l, d[1] + r.in(-2, 1));
        if (r.chance(30)) d[2] = r.pick({-d[2], 2 * d[2], 1, d[2] + 1});
      }
      long off = r.chance(40) ? 0 : r.chance(50) ? vfmin(now) - vfmin(neu) : r.in(-3, 3);
      S ns = make_shape_of<S>(neu);
      E e = op("setshape");
      e("t", ShapeV{})("d", now)("new", neu)("off", off)("how", 0);
      bool ab = aborts([&] { a.set_shape(ns, off); });
      int* b = a.base();
      if (!ab) a.set_shape(ns, off);
      e("aborted", ab)("chain", true)("out", ab ? ShapeV{} : shape_v(a.shape()));
      if (!ab) e("moved", (long)(a.base() - b));
      emit(e);
    }
    end_session();
  }
}

// ---------------------------------------------------------------- reductions
struct Bd { long mn, ex; };
struct Op { ShapeV d; std::vector<long> is; };
static V leaf(const Op& o) { E e; e("k", "arr")("b", 0)("dims", o.d)("is", o.is); return e.obj(); }
static V prod(const V& a, const V& b) { E e; e("k", "bin")("f", "mul")("a", a)("b", b); return e.obj(); }
static int next_op = 0;
template <size_t R> nda::array_ref<int, nda::shape_of_rank<R>> view(const Op& o) {
  static int big[8][1024];
  int* p = big[next_op++ % 8] + 512;
  return nda::array_ref<int, nda::shape_of_rank<R>>(p, make_shape_of<nda::shape_of_rank<R>>(o.d));
}
enum { i = 0, j = 1, k = 2 };
static Op operand(Rng& r, const std::vector<Bd>& b, std::vector<long> is, int pct, bool result) {
  Op o; o.is = is;
  for (long q : is) {
    long mn = b[q].mn, ex = b[q].ex;
    if (r.chance(pct)) {
      int w = (int)r.in(0, 3);
      if (w == 0) mn += r.pick({-1, 1});
      else if (w == 1) ex = std::max(0l, ex + r.pick({-1, 1}));
      else if (w == 2) { mn--; ex++; }        // larger below
      else { mn--; ex += 2; }                 // larger on both sides
    }
    o.d.push_back({mn, ex, UNR});
  }
  o.d = layout(r, o.d);
  if (result && r.chance(8)) for (auto& d : o.d) d[2] = 0;
  if (!result && r.chance(8)) for (auto& d : o.d) if (r.chance(50)) d[2] = 0;
  return o;
}
static void reduction(Rng& r, const std::vector<Bd>& b, int form, int pct) {
  auto in = [&](std::vector<long> is) { return operand(r, b, is, pct, false); };
  auto res = [&](std::vector<long> is) { return operand(r, b, is, pct / 2, true); };
  using nda::ein;
  auto go = [&](const Op& c, const V& rhs, const std::function<void()>& f) {
    E e = op("ein");
    e("lhs", leaf(c))("rhs", rhs)("t", ShapeV{})("d", ShapeV{});
    if (pct) e("nocorrupt", true);
    attempt(e, [&]() -> ShapeV { next_op = 0; f(); return {}; });
  };
  auto sum = [&](std::vector<long> is, const V& rhs, const std::function<void()>& f) {
    E e = op("sum");
    e("is", is)("rhs", rhs)("t", ShapeV{})("d", ShapeV{});
    if (pct) e("nocorrupt", true);
    attempt(e, [&]() -> ShapeV { next_op = 0; f(); return {}; });
  };
  switch (form) {
  case 0: { Op c = res({0, 1}), a = in({0, 2}), d = in({2, 1});
    go(c, prod(leaf(a), leaf(d)), [&] { nda::ein_reduce(ein<i, j>(view<2>(c)) += ein<i, k>(view<2>(a)) * ein<k, j>(view<2>(d))); }); break; }
  case 1: { Op c{{}, {}}, a = in({0}), d = in({0});
    go(c, prod(leaf(a), leaf(d)), [&] { int s = 0; nda::ein_reduce(ein(s) += ein<i>(view<1>(a)) * ein<i>(view<1>(d))); }); break; }
  case 2: { Op c{{}, {}}, a = in({1, 1});
    go(c, leaf(a), [&] { int s = 0; nda::ein_reduce(ein(s) += ein<j, j>(view<2>(a))); }); break; }
  case 3: { Op c = res({0}), a = in({0, 0});
    go(c, leaf(a), [&] { nda::ein_reduce(ein<i>(view<1>(c)) = ein<i, i>(view<2>(a))); }); break; }
  case 4: { Op c = res({1, 1}), a = in({1});
    go(c, leaf(a), [&] { nda::ein_reduce(ein<j, j>(view<2>(c)) = ein<j>(view<1>(a))); }); break; }
  case 5: { Op c = res({0}), a = in({0}), d = in({0});
    go(c, prod(leaf(a), leaf(d)), [&] { nda::ein_reduce(ein<i>(view<1>(c)) = ein<i>(view<1>(a)) + ein<i>(view<1>(d))); }); break; }
  case 6: { Op c = res({2}), a = in({0, 2}), d = in({2, 0});
    go(c, prod(leaf(a), leaf(d)), [&] { nda::ein_reduce(ein<k>(view<1>(c)) += ein<i, k>(view<2>(a)) * ein<k, i>(view<2>(d))); }); break; }
  case 7: { Op a = in({0, 2}), d = in({2, 1});
    sum({0, 1}, prod(leaf(a), leaf(d)), [&] { nda::make_ein_sum<int, i, j>(ein<i, k>(view<2>(a)) * ein<k, j>(view<2>(d))); }); break; }
  case 8: { Op a = in({0}), d = in({0});
    sum({}, prod(leaf(a), leaf(d)), [&] { nda::make_ein_sum<int>(ein<i>(view<1>(a)) * ein<i>(view<1>(d))); }); break; }
  case 9: { Op a = in({1, 1, 0});
    sum({0}, leaf(a), [&] { nda::make_ein_sum<int, i>(ein<j, j, i>(view<3>(a))); }); break; }
  }
}
// A statement over one index, from a plan: the dimensions it addresses.
static void planned(const std::string& form, const DimV& c, const DimV& a, const DimV& b) {
  using nda::ein;
  auto leaf1 = [](const DimV& d) { return Op{{d}, {0}}; };
  Op none{{}, {}};
  auto go = [&](const Op& l, const V& rhs, const std::function<void()>& f) {
    E e = op("ein");
    e("lhs", leaf(l))("rhs", rhs)("t", ShapeV{})("d", ShapeV{})("nocorrupt", true);
    attempt(e, [&]() -> ShapeV { next_op = 0; f(); return {}; });
  };
  Op oa = leaf1(a), ob = leaf1(b), oc = leaf1(c), ab{{a, b}, {0, 0}}, cb{{c, b}, {0, 0}};
  if (form == "dot") {
    go(none, prod(leaf(oa), leaf(ob)), [&] { int s = 0; nda::ein_reduce(ein(s) += ein<i>(view<1>(oa)) * ein<i>(view<1>(ob))); });
    E e = op("sum");
    e("is", std::vector<long>{})("rhs", prod(leaf(oa), leaf(ob)))("t", ShapeV{})("d", ShapeV{})("nocorrupt", true);
    attempt(e, [&]() -> ShapeV { nda::make_ein_sum<int>(ein<i>(view<1>(oa)) * ein<i>(view<1>(ob))); return {}; });
  } else if (form == "trace") {
    go(none, leaf(ab), [&] { int s = 0; nda::ein_reduce(ein(s) += ein<i, i>(view<2>(ab))); });
  } else if (form == "diag") {
    go(oc, leaf(ab), [&] { nda::ein_reduce(ein<i>(view<1>(oc)) = ein<i, i>(view<2>(ab))); });
  } else if (form == "todiag") {
    go(cb, leaf(oa), [&] { nda::ein_reduce(ein<i, i>(view<2>(cb)) -= ein<i>(view<1>(oa))); });
  } else {
    go(oc, prod(leaf(oa), leaf(ob)), [&] { nda::ein_reduce(ein<i>(view<1>(oc)) += ein<i>(view<1>(oa)) + ein<i>(view<1>(ob))); });
  }
}
static std::vector<Bd> some_bounds(Rng& r) {
  std::vector<Bd> b;
  for (int q = 0; q < 3; q++) b.push_back({r.in(-2, 2), r.chance(8) ? 0 : r.in(1, 3)});
  return b;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out", "/dev/stdout").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r(a.num("seed", 1) * 733 + PART);
  int n = (int)a.num("n", 4);
  std::vector<J> plan;
  if (!a.str("plan").empty()) plan = read_plan(a.str("plan").c_str());
  (void)plan;
#if PART == 0
  square(r, n, M1{}, M1{});
#elif PART == 1
  using H = list<nda::shape_of_rank<2>, nda::dense_shape<2>, nda::matrix_shape<2, 3>, nda::matrix_shape<nda::dynamic, 3>,
                 shape<dim<>, dim<1, 3>>, shape<dim<-2>, dim<dyn, dyn, -4>>, shape<dim<1, 2, -1>, dim<-1, dyn, dyn>>>;
  square(r, n, H{}, M2{});
#elif PART == 2
  using H = list<nda::shape_of_rank<3>, nda::chunky_image_shape<3>, nda::chunky_image_shape<nda::dynamic, 4>,
                 nda::fixed_dense_shape<2, 3, 2>, shape<dim<dyn, 3, dyn>, dense_dim<1, dyn>, dim<0, 2, dyn>>>;
  square(r, n, H{}, H{});
  using H4 = list<nda::shape_of_rank<4>, shape<dim<>, dense_dim<0, 2>, dim<dyn, 3>, dim<-1>>>;
  square(r, n, H4{}, H4{});
  square(r, 1, M0{}, M0{});
#elif PART == 3
  using A1 = list<nda::shape_of_rank<1>, shape<dim<dyn, 4>>, shape<dim<2, 3, 2>>, shape<dim<0, 1>>>;
  using A2 = list<nda::shape_of_rank<2>, nda::dense_shape<2>, nda::matrix_shape<nda::dynamic, 3>, shape<dim<>, dim<1, 1>>, shape<dim<>, dim<2, dyn, 7>>,
                  shape<dim<dyn, 1, dyn>, dim<-1>>>;
  using A3 = list<nda::shape_of_rank<3>, nda::chunky_image_shape<1>, shape<dim<>, dim<0, 1>, dim<dyn, 1, 9>>, shape<dim<dyn, 3, dyn>, dense_dim<1, dyn>, dim<0, 2, dyn>>>;
  rank_square(r, n, A1{}, A2{}); rank_square(r, n, A2{}, A1{}); rank_square(r, n, A2{}, A3{}); rank_square(r, n, A3{}, A2{});
  rank_square(r, n, A1{}, A3{}); rank_square(r, n, A3{}, A1{}); rank_square(r, n, M0{}, A1{}); rank_square(r, n, A1{}, M0{});
  rank_square(r, n, A3{}, M0{}); rank_square(r, n, A2{}, list<nda::shape_of_rank<4>>{});
#elif PART == 4
  dims<nda::dim<>>(r, n); dims<nda::dim<0>>(r, n); dims<nda::dim<2, 3>>(r, n); dims<nda::dim<-1, 2, -2>>(r, n);
  dims<nda::dim<dyn, 4, 1>>(r, n); dims<nda::dense_dim<>>(r, n); dims<nda::broadcast_dim<>>(r, n); dims<nda::dim<dyn, dyn, 3>>(r, n);
  intervals<interval<>>(r, n); intervals<interval<0>>(r, n); intervals<interval<2, 3>>(r, n); intervals<interval<dyn, 4>>(r, n);
  splits<1>(r, n); splits<2>(r, n); splits<3>(r, n); splits<5>(r, n);
  dim_numbers<nda::shape_of_rank<1>>(r, n); dim_numbers<nda::shape_of_rank<3>>(r, n); dim_numbers<nda::chunky_image_shape<3>>(r, n);
  for (const J& p : plan) {
    begin_session("plan");
    ShapeV old, neu;
    for (const J& d : p["old"].a) old.push_back(d.longs());
    for (const J& d : p["new"].a) neu.push_back(d.longs());
    if (old.size() == 1) {
      copies_case<1>(old, neu, r.in(0, 1));
      for (auto f : SHAPE_OPS) shapes_case<nda::shape_of_rank<1>>(old, neu, p["off"], f, r.in(0, 1));
    } else {
      copies_case<2>(old, neu, r.in(0, 1));
      for (auto f : SHAPE_OPS) shapes_case<nda::shape_of_rank<2>>(old, neu, p["off"], f, r.in(0, 1));
    }
    end_session();
  }
  for (int q = 0; q < n; q++) {
    copies<1>(r, 12); copies<2>(r, 12); copies<3>(r, 6); copies<0>(r, 1);
    shapes<1>(r, 12); shapes<2>(r, 16); shapes<3>(r, 8);
    chains<1>(r, 1, 8); chains<2>(r, 2, 8); chains<3>(r, 1, 8);
  }
#elif PART == 5
  for (size_t q = 0; q < plan.size(); q++) {
    if (q % 20 == 0) begin_session("plan");
    const J& p = plan[q];
    planned(p["form"].str, p["c"].longs(), p["a"].longs(), p["b"].longs());
    if (q % 20 == 19 || q + 1 == plan.size()) end_session();
  }
  for (int q = 0; q < n; q++) {
    begin_session("ein");
    for (int form = 0; form < 10; form++) {
      std::vector<Bd> b = some_bounds(r);
      for (int pct : {0, 15, 40, 40}) reduction(r, b, form, pct);
    }
    end_session();
  }
#endif
  finish_out();
}
