// C05, C16: views of arrays and references: slices, crops, transpositions, conversions,
// reinterpretations. MODE 0: compositions on type-erased references (random, or a TLC plan).
// MODE 1: typed slices. MODE 2: typed transpositions, conversions, reinterpretations.
#include "viewtools.h"
#ifndef MODE
#define MODE 0
#endif
#ifndef PART
#define PART 0
#endif
using nda::index_t;

// ---------------------------------------------------------------- slices
using Args4 = std::vector<std::vector<long>>;
inline V argv(const Args4& a) { std::vector<std::vector<long>> t; for (auto& x : a) t.push_back({x[0], x[1], x[2]}); return V(t); }
template <class A> struct isint : std::is_convertible<A, index_t> {};
template <class... A> struct nints;
template <> struct nints<> { static constexpr size_t v = 0; };
template <class A, class... B> struct nints<A, B...> { static constexpr size_t v = (isint<A>::value ? 1 : 0) + nints<B...>::v; };

#if MODE == 0
template <size_t R> using eref = nda::array_ref<int, nda::shape_of_rank<R>>;
template <size_t R> void step(Ctx& c, const eref<R>& v, int id);

// Erase the static type of the shape by the implicit conversion.
template <class Ref> void go_on(Ctx& c, const Ref& w, int id) {
  constexpr size_t R = Ref::rank();
  eref<R> e = frozen([&] { return eref<R>(w); });
  int id2 = made(c, view("convert", id)("t", static_v<nda::shape_of_rank<R>>()), e);
  step<R>(c, e, id2);
}
template <size_t R, class... A>
std::enable_if_t<nints<A...>::v == R> do_slice(Ctx& c, const eref<R>& v, int id, const Args4& a, A...) {
  // All indices: not a view. Make a copy instead.
  eref<R> w = frozen([&] { eref<R> x; x = v; return x; });
  int id2 = made(c, view("same", id), w);
  step<R>(c, w, id2);
}
template <size_t R, class... A>
std::enable_if_t<(nints<A...>::v < R)> do_slice(Ctx& c, const eref<R>& v, int id, const Args4& a, A... args) {
  std::vector<std::vector<long>> sty;
  for (auto& x : a) sty.push_back({x[0], DYN, DYN});
  if (c.r.chance(50)) {
    auto w = frozen([&] { return v(args...); });
    go_on(c, w, made(c, view("slice", id)("args", argv(a))("sty", sty), w));
  } else {
    auto w = frozen([&] { return v[std::make_tuple(args...)]; });
    go_on(c, w, made(c, view("slice", id)("args", argv(a))("sty", sty), w));
  }
}
template <size_t R, class... A>
std::enable_if_t<sizeof...(A) == R> slice_go(Ctx& c, const eref<R>& v, int id, const Args4& a, A... args) { do_slice<R>(c, v, id, a, args...); }
template <size_t R, class... A>
std::enable_if_t<(sizeof...(A) < R)> slice_go(Ctx& c, const eref<R>& v, int id, const Args4& a, A... args) {
  auto& x = a[sizeof...(A)];
  if (x[0] == 0) slice_go<R>(c, v, id, a, args..., (index_t)x[1]);
  else if (x[0] == 2) slice_go<R>(c, v, id, a, args..., nda::_);
  else slice_go<R>(c, v, id, a, args..., nda::interval<>(x[1], x[2]));
}

// ---------------------------------------------------------------- reorder
template <size_t... P, class Ref> void do_reorder(Ctx& c, const Ref& v, int id) {
  std::vector<long> p{(long)(P + 1)...};
  auto w = frozen([&] { return nda::reorder<P...>(v); });
  go_on(c, w, made(c, view("reorder", id)("p", p)("n", (long)sizeof...(P)), w));
}
template <size_t... P, class Ref> void do_transpose(Ctx& c, const Ref& v, int id) {
  std::vector<long> p{(long)(P + 1)...};
  auto w = frozen([&] { return nda::transpose<P...>(v); });
  go_on(c, w, made(c, view("reorder", id)("p", p)("n", (long)Ref::rank()), w));
}
inline bool is(const std::vector<long>& a, std::vector<long> b) { return a == b; }
#define RE(...) if (is(p, {__VA_ARGS__})) return do_reorder_1<__VA_ARGS__>(c, v, id);
template <size_t... P1, class Ref> void do_reorder_1(Ctx& c, const Ref& v, int id) {
  do_reorder<(P1 - 1)...>(c, v, id);
}
template <size_t... P1, class Ref> void do_transpose_1(Ctx& c, const Ref& v, int id) {
  if (c.r.chance(50)) do_transpose<(P1 - 1)...>(c, v, id); else do_reorder<(P1 - 1)...>(c, v, id);
}
#define TR(...) if (is(p, {__VA_ARGS__})) return do_transpose_1<__VA_ARGS__>(c, v, id);
inline void reorder_rt(Ctx& c, const eref<1>& v, int id, const std::vector<long>&) { do_transpose_1<1>(c, v, id); }
inline void reorder_rt(Ctx& c, const eref<2>& v, int id, const std::vector<long>& p) {
  RE(1) RE(2) TR(1, 2) TR(2, 1)
}
inline void reorder_rt(Ctx& c, const eref<3>& v, int id, const std::vector<long>& p) {
  RE(1) RE(2) RE(3) RE(1, 2) RE(2, 1) RE(1, 3) RE(3, 1) RE(2, 3) RE(3, 2)
  TR(1, 2, 3) TR(1, 3, 2) TR(2, 1, 3) TR(2, 3, 1) TR(3, 1, 2) TR(3, 2, 1)
}
inline void reorder_rt(Ctx& c, const eref<4>& v, int id, const std::vector<long>& p) {
  RE(3) RE(4, 1) RE(2, 4, 1) TR(4, 3, 2, 1) TR(2, 1, 4, 3) do_transpose_1<3, 1, 4, 2>(c, v, id);
}
inline std::vector<long> rand_perm(Rng& r, size_t n) {
  static const std::vector<std::vector<long>> p4{{3}, {4, 1}, {2, 4, 1}, {4, 3, 2, 1}, {2, 1, 4, 3}, {3, 1, 4, 2}};
  if (n == 4) return r.pick(p4);
  std::vector<long> p;
  for (size_t i = 1; i <= n; i++) p.push_back((long)i);
  for (size_t i = n; i > 1; i--) std::swap(p[i - 1], p[r.in(0, (long)i - 1)]);
  if (r.chance(40)) p.resize(r.in(1, (long)n));
  return p;
}

// ---------------------------------------------------------------- conversion
template <size_t N, size_t R> void do_convert(Ctx& c, const eref<R>& v, int id) {
  auto w = frozen([&] { return nda::convert_shape<nda::shape_of_rank<N>>(v); });
  int id2 = made(c, view("convert", id)("t", static_v<nda::shape_of_rank<N>>()), w);
  // Give the new dimension a stride.
  auto x = frozen([&] { return nda::make_array_ref(w.base(), w.shape()); });
  int id3 = made(c, view("resolve", id2), x);
  step<N>(c, x, id3);
}
template <size_t R> std::enable_if_t<(R < 4)> convert_up(Ctx& c, const eref<R>& v, int id) { do_convert<R + 1, R>(c, v, id); }
template <size_t R> std::enable_if_t<R == 4> convert_up(Ctx& c, const eref<R>& v, int id) { step<R>(c, v, id); }
template <size_t R> std::enable_if_t<(R > 1)> convert_down(Ctx& c, const eref<R>& v, int id) {
  if (v.shape().dim(R - 1).extent() == 1) do_convert<R - 1, R>(c, v, id); else step<R>(c, v, id);
}
template <size_t R> std::enable_if_t<R == 1> convert_down(Ctx& c, const eref<R>& v, int id) { step<R>(c, v, id); }

// ---------------------------------------------------------------- reshape
// A random shape of rank R inside the flat range of d, with the displacement of its base.
template <size_t R> bool rand_inside(Rng& r, const ShapeV& d, ShapeV& v, long& off) {
  long mn = vfmin(d), mx = vfmax(d);
  for (int t = 0; t < 10; t++) {
    v.clear();
    for (size_t i = 0; i < R; i++) v.push_back({r.in(-2, 3), r.chance(8) ? 0 : r.in(1, 4), r.chance(20) ? UNR : r.in(-4, 6)});
    auto s = make_shape_of<nda::shape_of_rank<R>>(v); s.resolve();
    ShapeV w = shape_v(s);
    if (vsize(w) == 0) { off = 0; bool ok = true; long a = 0, b = 0; for (auto& x : w) { a += (x[1] - 1) * std::min(0l, x[2]); b += (x[1] - 1) * std::max(0l, x[2]); } ok = a >= mn && b <= mx; if (ok) return true; continue; }
    long a = mn - vfmin(w), b = mx - vfmax(w);
    if (a <= b) { off = r.in(a, b); return true; }
  }
  return false;
}
template <size_t N, size_t R> void do_reshape(Ctx& c, const eref<R>& v, int id) {
  ShapeV d = shape_v(v.shape()), nw; long off;
  if (vsize(d) == 0 || !rand_inside<N>(c.r, d, nw, off)) return step<R>(c, v, id);
  using S = nda::shape_of_rank<N>;
  S s = make_shape_of<S>(nw);
  if (N == R && c.r.chance(50)) {
    s.resolve(); nw = shape_v(s);
    eref<R> w = v;
    int id2 = made(c, view("same", id), w);
    freeze(); if (off) w.set_shape(make_shape_of<nda::shape_of_rank<R>>(nw), off); else w.set_shape(make_shape_of<nda::shape_of_rank<R>>(nw)); thaw();
    emit(E("setshape")("from", id2)("arg", nw)("off", off)("res", vobs(w)));
    probe(c, w, id2);
    return step<R>(c, w, id2);
  }
  auto w = frozen([&] { return off ? nda::reinterpret_shape(v, s, off) : nda::reinterpret_shape(v, s); });
  int id2 = made(c, view("reshape", id)("t", static_v<S>())("arg", nw)("off", off), w);
  step<N>(c, w, id2);
}

template <size_t R> void reinterp(Ctx& c, const eref<R>& v, int id) {
  auto u = frozen([&] { return nda::reinterpret<unsigned>(v); });
  int id2 = made(c, view("same", id), u);
  auto cu = frozen([&] { return u.cref(); });
  int id3 = made(c, view("same", id2), cu, "const");
  auto ci = frozen([&] { return nda::reinterpret<const int>(cu); });
  int id4 = made(c, view("same", id3), ci, "const");
  auto w = frozen([&] { return nda::reinterpret_const<int>(ci); });
  int id5 = made(c, view("same", id4), w, "mutable");
  step<R>(c, w, id5);
}

template <size_t R> Args4 rand_args(Rng& r, const ShapeV& d) {
  Args4 a; bool view = false;
  for (size_t i = 0; i < R; i++) {
    long mn = d[i][0], ex = d[i][1];
    int k = (int)r.in(0, 9);
    if (k < 3 && ex > 0) a.push_back({0, r.in(mn, mn + ex - 1), 0});
    else if (k < 5) { a.push_back({2, 0, 0}); view = true; }
    else if (k < 8 && ex > 0) { long m = r.in(mn, mn + ex - 1); a.push_back({1, m, r.in(0, mn + ex - m)}); view = true; }
    else { a.push_back({1, mn + r.in(-3, 3), r.in(0, ex + 2)}); view = true; }
  }
  if (!view) a[r.in(0, (long)R - 1)] = {2, 0, 0};
  return a;
}

// One more operation on v.
template <size_t R> void step(Ctx& c, const eref<R>& v, int id) {
  if (c.plan) {
    if (c.pos >= (int)(*c.plan).size()) return;
    const J& op = (*c.plan)[c.pos++];
    const std::string& k = op["k"].str;
    if (k == "slice") {
      Args4 a; for (auto& x : op["args"].a) a.push_back(x.longs());
      return slice_go<R>(c, v, id, a);
    }
    if (k == "reorder") return reorder_rt(c, v, id, op["p"].longs());
    if ((long)op["n"] > (long)R) return convert_up<R>(c, v, id);
    return convert_down<R>(c, v, id);
  }
  if (c.depth-- <= 0) return;
  ShapeV d = shape_v(v.shape());
  switch (c.r.in(0, 9)) {
  case 0: case 1: case 2: return slice_go<R>(c, v, id, rand_args<R>(c.r, d));
  case 3: case 4: {
    auto p = rand_perm(c.r, R);
    for (size_t i = 0; i < R; i++)   // dropping an empty dimension would uncover memory
      if (d[i][1] == 0 && std::find(p.begin(), p.end(), (long)i + 1) == p.end()) return step<R>(c, v, id);
    return reorder_rt(c, v, id, p);
  }
  case 5: return convert_up<R>(c, v, id);
  case 6: return convert_down<R>(c, v, id);
  case 7: return do_reshape<R, R>(c, v, id);
  case 8: return c.r.chance(50) ? do_reshape<2, R>(c, v, id) : do_reshape<1, R>(c, v, id);
  default: return reinterp<R>(c, v, id);
  }
}
template <size_t R> void session(Rng& r, const ShapeV& root, const J* plan, int depth) {
  begin_session("views");
  Ctx c{r}; c.plan = plan; c.depth = depth;
  auto s = make_shape_of<nda::shape_of_rank<R>>(root);
  eref<R> v(mid(), s);
  ShapeV d = shape_v(v.shape());
  long mn = vfmin(d), mx = std::max(mn, vfmax(d));
  c.lo = mn - 8; c.hi = mx + 8;
  fill_window(c);
  emit(E("root")("st", static_v<nda::shape_of_rank<R>>())("arg", root)("c", false)("own", false)("block", std::vector<long>{})
       ("lo", c.lo)("hi", c.hi)("res", vobs(v)));
  c.n = 1;
  probe(c, v, 1);
  step<R>(c, v, 1);
  dump(c);
  end_session();
}
template <size_t R> void rand_session(Rng& r) {
  ShapeV st(R, DimV{DYN, DYN, DYN}), v;
  for (int t = 0; t < 20; t++) {
    v = rand_bounds(r, st, R >= 4 ? 3 : R == 3 ? 4 : 6, 4);
    if (r.chance(30)) {
      for (auto& d : v) if (r.chance(60)) d[2] = r.pick({0, 1, 2, -1, 3, -3, 6});
      break;
    }
    if (rand_strides(r, v, true, 40)) break;
  }
  session<R>(r, v, nullptr, (int)r.in(2, 6));
}
#endif

#if MODE > 0
// ---------------------------------------------------------------- typed roots
template <class S> bool rand_root(Rng& r, ShapeV& v) {
  ShapeV st = static_v<S>();
  for (int t = 0; t < 30; t++) {
    v = rand_bounds(r, st, S::rank() >= 4 ? 2 : S::rank() == 3 ? 3 : 5, 8);
    if (r.chance(40)) { S s = make_shape_of<S>(v); s.resolve(); v = shape_v(s); }
    else rand_strides(r, v, true, 30);
    if (vone2one(v)) return true;
  }
  return false;
}
// Calls f with an array, a constant array, a reference and a constant reference.
template <class S, class F> void with_root(Rng& r, int kind, F&& f) {
  ShapeV v;
  if (!rand_root<S>(r, v)) return;
  S s = make_shape_of<S>(v);
  begin_session("typed");
  Ctx c{r};
  long mn = vfmin(v), mx = std::max(mn, vfmax(v));
  auto root_ev = [&](auto& obj, bool own) {
    E e("root");
    e("st", static_v<S>())("arg", v)("c", unref<std::remove_reference_t<decltype(obj)>>::isconst)("own", own)
     ("block", own ? std::vector<long>{blk().p, blk().n} : std::vector<long>{})("lo", c.lo)("hi", c.hi)("res", vobs(obj));
    emit(e);
    c.n = 1;
  };
  if (kind < 2) {
    logfree = false; blk() = Blk{0, 0, false, 0};
    {
      pending("array");
      nda::array<int, S, arena_alloc<int>> a(s);
      long b = a.base() ? rel(a.base()) : 0;
      c.lo = b + mn - 8; c.hi = b + mx + 8;
      fill_window(c);
      bool own = blk().live;
      root_ev(a, own);
      logfree = own;
      if (kind == 0) f(c, a);
      else { const auto& ca = a; c.n = 0; out().cur.resize(out().cur.rfind("{\"op\":\"root\"")); out().first = true; root_ev(ca, own); f(c, ca); }
      dump(c);
    }
    logfree = false;
  } else {
    nda::array_ref<int, S> a(r.chance(10) && vsize(v) == 0 ? nullptr : mid(), s);
    c.lo = mn - 8; c.hi = mx + 8;
    fill_window(c);
    if (kind == 2) { root_ev(a, false); f(c, a); }
    else { nda::array_ref<const int, S> ca = a; root_ev(ca, false); f(c, ca); }
    dump(c);
  }
  end_session();
}
#endif

#if MODE == 1
// ---------------------------------------------------------------- typed slice arguments
template <int K> struct Arg;
#define ARG(K, KIND, MIN, EXT, TYPE, ...) \
  template <> struct Arg<K> { static std::vector<long> sty() { return {KIND, MIN, EXT}; } \
    using type = TYPE; static type make(Rng& r, const DimV& d, std::vector<long>& rt) { (void)r; (void)d; __VA_ARGS__ } };
inline long pickx(Rng& r, const DimV& d) { return d[1] > 0 && r.chance(85) ? r.in(d[0], d[0] + d[1] - 1) : d[0] + r.in(-2, 3); }
using iv12 = nda::interval<1, 2>;
using ivd2 = nda::interval<nda::dynamic, 2>;
using iv0d = nda::interval<0, nda::dynamic>;
using dm02 = nda::dim<0, 2>;
using ddd = nda::dim<nda::dynamic, 2, 1>;
using ic1 = std::integral_constant<int, 1>;
ARG(0, 0, DYN, DYN, index_t, index_t x = pickx(r, d); rt = {0, (long)x, 0}; return x;)
ARG(1, 1, DYN, DYN, nda::interval<>, index_t x = pickx(r, d); index_t e = r.in(0, 3); rt = {1, (long)x, (long)e}; return nda::interval<>(x, e);)
ARG(2, 2, DYN, DYN, std::decay_t<decltype(nda::_)>, rt = {2, 0, 0}; return nda::_;)
ARG(3, 1, 1, 2, iv12, rt = {1, 1, 2}; return iv12();)
ARG(4, 1, 0, 2, dm02, rt = {1, 0, 2}; return dm02();)
ARG(5, 1, DYN, 2, ddd, index_t x = pickx(r, d); rt = {1, (long)x, 2}; return ddd(x, 2);)
ARG(6, 1, DYN, 2, ivd2, index_t x = pickx(r, d); rt = {1, (long)x, 2}; return ivd2(x, 2);)
ARG(7, 1, DYN, DYN, nda::dim<>, index_t x = pickx(r, d); index_t e = r.in(0, 3); rt = {1, (long)x, (long)e}; return nda::dim<>(x, e, 77);)
ARG(8, 0, DYN, DYN, int, int x = (int)pickx(r, d); rt = {0, x, 0}; return x;)
ARG(9, 1, 0, DYN, iv0d, index_t e = r.in(0, 3); rt = {1, 0, (long)e}; return iv0d(0, e);)
ARG(10, 0, DYN, DYN, ic1, rt = {0, 1, 0}; return ic1();)
ARG(11, 0, DYN, DYN, short, short x = (short)pickx(r, d); rt = {0, x, 0}; return x;)

template <class Obj, class... A> auto apply_slice(Obj& v, int form, A... a) {
  freeze();
  auto w = form == 0 ? v(a...) : v[std::make_tuple(a...)];
  thaw();
  return w;
}
template <class Obj, int... K, size_t... Is>
auto tslice_impl(Ctx& c, Obj& v, int id, tag<std::integer_sequence<int, K...>>, std::index_sequence<Is...>, int& id2) {
  ShapeV d = shape_v(v.shape());
  Args4 rt(sizeof...(K)), sty{Arg<K>::sty()...};
  std::tuple<typename Arg<K>::type...> args{Arg<K>::make(c.r, d[Is], rt[Is])...};
  const auto& s = v.shape();
  auto sw = s(std::get<Is>(args)...);
  emit(E("shapeop")("k", "slice")("from", id)("args", rt)("sty", sty)("st", static_v<decltype(sw)>())("dims", shape_v(sw)));
  auto w = apply_slice(v, (int)c.r.in(0, 1), std::get<Is>(args)...);
  id2 = made(c, view("slice", id)("args", rt)("sty", sty), w);
  return w;
}
template <int... K, class Obj> auto tslice(Ctx& c, Obj& v, int id, int& id2) {
  return tslice_impl(c, v, id, tag<std::integer_sequence<int, K...>>{}, std::make_index_sequence<sizeof...(K)>(), id2);
}
// A second slice of the result.
template <class Ref> void again(Ctx& c, const Ref& w, int id, std::integral_constant<size_t, 1>) { int x; if (c.r.chance(50)) tslice<3>(c, w, id, x); else tslice<1>(c, w, id, x); }
template <class Ref> void again(Ctx& c, const Ref& w, int id, std::integral_constant<size_t, 2>) { int x; if (c.r.chance(50)) tslice<2, 0>(c, w, id, x); else tslice<6, 2>(c, w, id, x); }
template <class Ref> void again(Ctx& c, const Ref& w, int id, std::integral_constant<size_t, 3>) { int x; if (c.r.chance(50)) tslice<2, 0, 1>(c, w, id, x); else tslice<0, 9, 2>(c, w, id, x); }
template <class Ref> void again(Ctx& c, const Ref& w, int id, std::integral_constant<size_t, 4>) { int x; tslice<2, 2, 0, 1>(c, w, id, x); }
template <class Ref> void again(Ctx& c, const Ref& w, int id, std::integral_constant<size_t, 5>) { int x; tslice<2, 1, 0, 2, 3>(c, w, id, x); }
template <int... K, class Obj> void one(Ctx& c, Obj& v) {
  int id;
  auto w = tslice<K...>(c, v, 1, id);
  again(c, w, id, std::integral_constant<size_t, decltype(w)::rank()>());
}
template <class Obj> void cat(Ctx&, Obj&, std::integral_constant<size_t, 0>) {}
template <class Obj> void cat(Ctx& c, Obj& v, std::integral_constant<size_t, 1>) {
  one<1>(c, v); one<2>(c, v); one<3>(c, v); one<4>(c, v); one<5>(c, v); one<6>(c, v); one<7>(c, v); one<9>(c, v);
}
template <class Obj> void cat(Ctx& c, Obj& v, std::integral_constant<size_t, 2>) {
  one<0, 1>(c, v); one<1, 0>(c, v); one<0, 2>(c, v); one<2, 8>(c, v); one<3, 2>(c, v); one<2, 3>(c, v);
  one<4, 11>(c, v); one<8, 4>(c, v); one<5, 1>(c, v); one<6, 7>(c, v); one<10, 9>(c, v); one<2, 10>(c, v); one<9, 5>(c, v);
}
template <class Obj> void cat(Ctx& c, Obj& v, std::integral_constant<size_t, 3>) {
  one<0, 2, 2>(c, v); one<2, 0, 2>(c, v); one<2, 2, 0>(c, v); one<1, 2, 8>(c, v); one<3, 0, 4>(c, v);
  one<0, 3, 8>(c, v); one<5, 6, 7>(c, v); one<2, 9, 1>(c, v); one<10, 2, 1>(c, v);
}
template <class Obj> void cat(Ctx& c, Obj& v, std::integral_constant<size_t, 4>) {
  one<0, 2, 2, 2>(c, v); one<2, 0, 3, 1>(c, v); one<1, 2, 0, 8>(c, v); one<5, 9, 2, 7>(c, v);
}
template <class Obj> void cat(Ctx& c, Obj& v, std::integral_constant<size_t, 5>) {
  one<2, 2, 2, 2, 0>(c, v); one<0, 2, 3, 8, 2>(c, v); one<9, 2, 5, 2, 7>(c, v); one<2, 2, 2, 0, 1>(c, v);
}
template <class S> void typed(Rng& r) {
  with_root<S>(r, (int)r.in(0, 3), [](Ctx& c, auto& v) { cat(c, v, std::integral_constant<size_t, S::rank()>()); });
}
#endif

#if MODE == 2
// ---------------------------------------------------------------- typed transposition etc.
template <size_t... P, class Obj> void tr(Ctx& c, Obj& v) {
  std::vector<long> p{(long)(P + 1)...};
  auto w = frozen([&] { return nda::transpose<P...>(v); });
  made(c, view("reorder", 1)("p", p)("n", (long)sizeof...(P)), w);
}
template <size_t... P, class Obj> void ro(Ctx& c, Obj& v) {
  std::vector<long> p{(long)(P + 1)...};
  ShapeV d = shape_v(v.shape());
  for (size_t i = 0; i < d.size(); i++) if (d[i][1] == 0 && std::find(p.begin(), p.end(), (long)i + 1) == p.end()) return;
  auto w = frozen([&] { return nda::reorder<P...>(v); });
  made(c, view("reorder", 1)("p", p)("n", (long)sizeof...(P)), w);
}
template <size_t... P, class S> void so(const S& s, long n) {   // on shapes; transpositions may be partial
  std::vector<long> p{(long)(P + 1)...};
  if (n) {
    auto w = nda::transpose<P...>(s);
    emit(E("shapeop")("k", "reorder")("from", 1)("p", p)("n", n)("st", static_v<decltype(w)>())("dims", shape_v(w)));
  }
  auto w = nda::reorder<P...>(s);
  emit(E("shapeop")("k", "reorder")("from", 1)("p", p)("n", (long)p.size())("st", static_v<decltype(w)>())("dims", shape_v(w)));
}
template <class Obj> void perms(Ctx&, Obj&, std::integral_constant<size_t, 0>) {}
template <class Obj> void perms(Ctx& c, Obj& v, std::integral_constant<size_t, 1>) { tr<0>(c, v); ro<0>(c, v); so<0>(v.shape(), 1); }
template <class Obj> void perms(Ctx& c, Obj& v, std::integral_constant<size_t, 2>) {
  tr<1, 0>(c, v); ro<1>(c, v); ro<0>(c, v); so<1, 0>(v.shape(), 2); so<0>(v.shape(), 2);
}
template <class Obj> void perms(Ctx& c, Obj& v, std::integral_constant<size_t, 3>) {
  tr<2, 0, 1>(c, v); tr<1, 0, 2>(c, v); ro<2, 0>(c, v); ro<1>(c, v); ro<1, 2, 0>(c, v);
  so<1, 0>(v.shape(), 3); so<2, 0, 1>(v.shape(), 3); so<0>(v.shape(), 3);
}
template <class Obj> void perms(Ctx& c, Obj& v, std::integral_constant<size_t, 4>) {
  tr<3, 2, 1, 0>(c, v); tr<1, 3, 0, 2>(c, v); ro<0, 2>(c, v); ro<3, 1, 2>(c, v);
  so<2, 0, 1>(v.shape(), 4); so<1, 0>(v.shape(), 4); so<3, 0, 2, 1>(v.shape(), 4);
}
template <class Obj> void perms(Ctx& c, Obj& v, std::integral_constant<size_t, 5>) {
  tr<4, 2, 0, 3, 1>(c, v); ro<4>(c, v); ro<0, 4, 2>(c, v); ro<1, 0, 4, 3>(c, v); ro<3, 4, 0, 1, 2>(c, v);
  so<2, 0, 1>(v.shape(), 5); so<1, 0>(v.shape(), 5); so<4, 0, 2, 1, 3>(v.shape(), 5); so<1, 3, 0, 2>(v.shape(), 5);
}

inline bool conv_ok(const ShapeV& t, const ShapeV& d) {
  for (size_t i = t.size(); i < d.size(); i++) if (d[i][1] != 1) return false;
  for (size_t i = 0; i < t.size(); i++) {
    if (i >= d.size()) { if (!(t[i][1] == 1 || t[i][1] == DYN) || !(t[i][0] == DYN || t[i][0] == 0)) return false; continue; }
    for (int k = 0; k < 3; k++) if (t[i][k] != DYN && t[i][k] != d[i][k]) return false;
  }
  return true;
}
// Constants that differ do not compile.
constexpr bool sameconst(index_t a, index_t b) { return a == nda::dynamic || b == nda::dynamic || a == b; }
template <class A, class B> struct dims_ok {
  static constexpr bool v = sameconst(A::Min, B::Min) && sameconst(A::Extent, B::Extent) && sameconst(A::Stride, B::Stride);
};
template <class T, class S, size_t... Is> constexpr bool types_ok_impl(std::index_sequence<Is...>) {
  bool r = true;
  bool u[] = {true, dims_ok<std::tuple_element_t<Is, typename T::dims_type>, std::tuple_element_t<Is, typename S::dims_type>>::v...};
  for (bool b : u) r = r && b;
  return r;
}
template <class T, class S> constexpr bool types_ok() {
  return types_ok_impl<T, S>(std::make_index_sequence<(T::rank() < S::rank() ? T::rank() : S::rank())>());
}
template <class T, class Obj> std::enable_if_t<!types_ok<T, typename Obj::shape_type>()> cv(Ctx&, Obj&, tag<T>) {}
template <class T, class Obj> std::enable_if_t<types_ok<T, typename Obj::shape_type>()> cv(Ctx& c, Obj& v, tag<T>) {
  if (!conv_ok(static_v<T>(), shape_v(v.shape()))) return;
  auto w = frozen([&] { return nda::convert_shape<T>(v); });
  made(c, view("convert", 1)("t", static_v<T>()), w);
}
template <class T, class E_, class S> std::enable_if_t<T::rank() == S::rank() && types_ok<T, S>()> imp(Ctx& c, const nda::array_ref<E_, S>& v, tag<T>) {
  if (!conv_ok(static_v<T>(), shape_v(v.shape()))) return;
  if (c.r.chance(50)) {
    auto w = frozen([&] { nda::array_ref<E_, T> w = v; return w; });
    made(c, view("convert", 1)("t", static_v<T>()), w);
  } else {
    auto w = frozen([&] { nda::array_ref<E_, T> w; w = v; return w; });
    made(c, view("convert", 1)("t", static_v<T>()), w);
  }
}
template <class T, class Obj, class S> std::enable_if_t<T::rank() != S::rank() || !types_ok<T, S>()> imp(Ctx&, const nda::array_ref<Obj, S>&, tag<T>) {}

using T1 = list<nda::shape_of_rank<1>, nda::dense_shape<1>, shape<dim<dyn, 4>>, shape<dim<0>>, nda::shape_of_rank<2>, nda::dense_shape<2>, nda::shape_of_rank<3>,
                shape<dim<>, dim<0, 1>>, shape<dim<>, dense_dim<>>>;
using T2 = list<nda::shape_of_rank<2>, nda::dense_shape<2>, nda::matrix_shape<>, shape<dim<>, dim<dyn, 3>>, shape<dim<0>, dim<>>, nda::shape_of_rank<1>,
                nda::shape_of_rank<3>, nda::shape_of_rank<4>, nda::matrix_shape<nda::dynamic, 3>>;
using T3 = list<nda::shape_of_rank<3>, nda::dense_shape<3>, nda::shape_of_rank<2>, nda::shape_of_rank<1>, shape<dim<>, dim<0, 2>, dim<>>, nda::shape_of_rank<4>,
                nda::chunky_image_shape<>>;
using T4 = list<nda::shape_of_rank<4>, nda::dense_shape<4>, nda::shape_of_rank<3>, nda::shape_of_rank<2>, nda::shape_of_rank<5>>;
using T5 = list<nda::shape_of_rank<5>, nda::dense_shape<5>, nda::shape_of_rank<4>, nda::shape_of_rank<6>, shape<dim<>, dim<>, dim<0>, dim<>, dim<dyn, 2>>>;
using T0 = list<shape<>, nda::shape_of_rank<1>, nda::shape_of_rank<2>>;
template <size_t R> using targets = std::tuple_element_t<R, std::tuple<T0, T1, T2, T3, T4, T5>>;

// Same type, moved or shrunk, inside the old memory.
template <class S> bool rand_sub(Rng& r, const ShapeV& d, ShapeV& nw, long& off) {
  if (vsize(d) == 0) return false;
  nw = d; off = 0;
  ShapeV st = static_v<S>();
  for (size_t i = 0; i < d.size(); i++) {
    if (st[i][1] == DYN) {
      long skip = r.in(0, d[i][1] - 1);
      off += skip * d[i][2];
      nw[i][1] = d[i][1] - skip - r.in(0, d[i][1] - skip - 1);
    }
    if (st[i][0] == DYN) nw[i][0] = r.in(-3, 3);
    if (st[i][2] == DYN && nw[i][1] > 1 && r.chance(30)) { off += (nw[i][1] - 1) * nw[i][2]; nw[i][2] = -nw[i][2]; }
  }
  return true;
}
template <class S, class Obj> void setshape(Ctx& c, Obj& v, int id) {
  ShapeV nw; long off;
  if (!rand_sub<S>(c.r, shape_v(v.shape()), nw, off)) return;
  freeze(); if (off) v.set_shape(make_shape_of<S>(nw), off); else v.set_shape(make_shape_of<S>(nw)); thaw();
  emit(E("setshape")("from", id)("arg", nw)("off", off)("res", vobs(v)));
}
template <class S, class A> void moves(Ctx& c, nda::array<int, S, A>& a) {
  ShapeV d = shape_v(a.shape()), nw; long off = 0;
  using N = nda::shape_of_rank<S::rank()>;
  if (c.r.chance(50)) { setshape<S>(c, a, 1); probe(c, a.ref(), 1); d = shape_v(a.shape()); }
  bool dynamic_ = true;
  for (auto& t : static_v<S>()) if (t[1] != DYN) dynamic_ = false;
  if (S::rank() == 0) dynamic_ = false;
  if (!rand_sub<N>(c.r, d, nw, off)) return;
  long allocs = blk().allocs;
  N ns = make_shape_of<N>(nw);
  bool plain = c.r.chance(30);
  if (plain) { nw = d; off = 0; }
  freeze();
  auto b = plain ? nda::move_reinterpret_shape<N>(std::move(a)) : off ? nda::move_reinterpret_shape(std::move(a), ns, off) : nda::move_reinterpret_shape(std::move(a), ns);
  thaw();
  emit(E("mreshape")("from", 1)("t", static_v<N>())("arg", nw)("off", off)("res", vobs(b))("dyn", dynamic_)
       ("moves", S::rank() ? blk().allocs - allocs : 0)("left", std::vector<long>{(long)a.size(), a.base() == nullptr}));
  int id = ++c.n;
  probe(c, b.ref(), id);
  dump(c);
}
template <class S, class A> void moves(Ctx&, const nda::array<int, S, A>&) {}
template <class T, class S> void moves(Ctx& c, nda::array_ref<T, S>& v) {
  nda::array_ref<T, S> w = v;
  int id = made(c, view("same", 1), w);
  setshape<S>(c, w, id);
  probe(c, w, id);
}

template <class Obj> void shapes(Ctx& c, Obj& v) {
  using S = typename std::decay_t<Obj>::shape_type;
  ShapeV nw; long off = 0;
  using N = nda::shape_of_rank<S::rank()>;
  if (rand_sub<N>(c.r, shape_v(v.shape()), nw, off)) {
    N s = make_shape_of<N>(nw);
    auto w = frozen([&] { return off ? nda::reinterpret_shape(v, s, off) : nda::reinterpret_shape(v, s); });
    made(c, view("reshape", 1)("t", static_v<N>())("arg", nw)("off", off), w);
  }
}
template <class S, class A> void reint(Ctx& c, nda::array<int, S, A>& v) {
  auto u = frozen([&] { return nda::reinterpret<unsigned>(v); });
  made(c, view("same", 1), u);
  auto w = frozen([&] { return v.cref(); });
  int id = made(c, view("same", 1), w, "const");
  auto x = frozen([&] { return nda::reinterpret_const<int>(w); });
  made(c, view("same", id), x, "mutable");
  auto y = frozen([&] { return v.ref(); });
  made(c, view("same", 1), y);
  nda::array_ref<int, S> z = v;
  made(c, view("same", 1), z);
}
template <class S, class A> void reint(Ctx& c, const nda::array<int, S, A>& v) {
  auto u = frozen([&] { return nda::reinterpret<unsigned>(v); });
  made(c, view("same", 1), u);
  auto w = frozen([&] { return v.ref(); });
  made(c, view("same", 1), w);
  nda::const_array_ref<int, S> z = v;
  made(c, view("same", 1), z);
}
template <class S> void reint(Ctx& c, nda::array_ref<int, S>& v) {
  auto u = frozen([&] { return nda::reinterpret<unsigned>(v); });
  made(c, view("same", 1), u);
  nda::const_array_ref<int, S> z = v;
  made(c, view("same", 1), z, "const");
}
template <class S> void reint(Ctx& c, nda::array_ref<const int, S>& v) {
  auto u = frozen([&] { return nda::reinterpret<const unsigned>(v); });
  made(c, view("same", 1), u);
  auto x = frozen([&] { return nda::reinterpret_const<int>(v); });
  made(c, view("same", 1), x, "mutable");
}
template <class S> void typed(Rng& r) {
  with_root<S>(r, (int)r.in(0, 3), [](Ctx& c, auto& v) {
    perms(c, v, std::integral_constant<size_t, S::rank()>());
    for_list(targets<S::rank()>{}, [&](auto t) { cv(c, v, t); imp(c, v.ref(), t); });
    reint(c, v);
    shapes(c, v);
    moves(c, v);
  });
}
#endif

#if MODE > 0
template <class F> void menu_part(F&& f) {
#if PART == 0
  for_list(M1{}, f);
#if MODE == 2
  for_list(M0{}, f);
#endif
#elif PART == 1
  for_list(list<nda::shape_of_rank<2>, nda::dense_shape<2>, nda::matrix_shape<>, nda::matrix_shape<2, 3>, nda::matrix_shape<nda::dynamic, 3>>{}, f);
#elif PART == 2
  for_list(list<shape<dim<>, dim<1, 3>>, shape<strided_dim<3>, dense_dim<0, 3>>, nda::fixed_dense_shape<3, 2>, shape<dim<-2>, dim<dyn, dyn, -4>>,
                shape<dim<1, 2, -1>, dim<-1, dyn, dyn>>, shape<dense_dim<>, fixed_dim<3>>>{}, f);
#elif PART == 3
  for_list(list<nda::shape_of_rank<3>, nda::planar_image_shape, nda::chunky_image_shape<3>, nda::chunky_image_shape<>>{}, f);
#elif PART == 4
  for_list(list<nda::fixed_dense_shape<2, 3, 2>, shape<dim<>, dim<0, 2>, dim<-1, dyn, dyn>>, shape<dim<dyn, 3, dyn>, dense_dim<1, dyn>, dim<0, 2, dyn>>>{}, f);
#else
  for_list(M4{}, f);
  for_list(list<nda::shape_of_rank<5>, nda::dense_shape<5>>{}, f);
#endif
}
#endif

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r((uint64_t)a.num("seed", 1) * 7919 + 5);
  long n = a.num("n", 2);
#if MODE == 0
  if (!a.str("plan").empty())
    for (const J& p : read_plan(a.str("plan").c_str())) {
      ShapeV root; for (auto& d : p["root"].a) root.push_back(d.longs());
      switch (root.size()) {
      case 1: session<1>(r, root, &p["path"], 0); break;
      case 2: session<2>(r, root, &p["path"], 0); break;
      default: session<3>(r, root, &p["path"], 0);
      }
    }
  for (long k = 0; k < n; k++) { rand_session<1>(r); rand_session<2>(r); rand_session<3>(r); rand_session<4>(r); }
#else
  for (long k = 0; k < n; k++) menu_part([&](auto t) { typed<typename decltype(t)::type>(r); });
#endif
  finish_out();
  return 0;
}
