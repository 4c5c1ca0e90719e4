// Shapes, views, splits, iteration and copies with numbers as large as the index type allows.
// MODE 0: shapes and resolution (C01, C02). 1: views (C05, C16). 2: intervals and splits (C06).
// 3: index order (C03). 4: values (C04, C20). 5: copies and comparisons (C08, C09). 6: owning arrays (C10).
#include "menu.h"
#include "array/ein_reduce.h"
#include <sys/mman.h>
using namespace nd;
using nda::index_t;
using i128 = __int128;
#ifndef MODE
#define MODE 0
#endif
constexpr bool small_index = sizeof(index_t) == 4;
constexpr int BITS = small_index ? 29 : 59;    // offsets and sizes stay below 2^BITS
constexpr int MBITS = small_index ? 28 : 45;   // minima

static V W(long x) {
  if (x == (long)nda::unresolved) return V(std::vector<long>(8, 0));
  std::vector<long> d{x < 0 ? -1l : 1l};
  unsigned long m = x < 0 ? 0ul - (unsigned long)x : (unsigned long)x;
  for (int i = 0; i < 7; i++) { d.push_back((long)(m & 1023)); m >>= 10; }
  return V(d);
}
static V list_of(const std::vector<V>& l) {
  std::string s = "[";
  for (size_t i = 0; i < l.size(); i++) s += (i ? "," : "") + l[i].s;
  return V::raw(s + "]");
}
static V WL(const std::vector<long>& x) { std::vector<V> r; for (long y : x) r.push_back(W(y)); return list_of(r); }
static V WLL(const std::vector<std::vector<long>>& x) { std::vector<V> r; for (auto& y : x) r.push_back(WL(y)); return list_of(r); }

// Raw values: the stride of an unresolved dim is nda::unresolved.
template <class D> std::vector<long> rd(const D& d) { return {(long)d.min(), (long)d.extent(), (long)d.stride()}; }
template <class S, size_t... I> ShapeV rs_impl(const S& s, std::index_sequence<I...>) { return {rd(s.template dim<I>())...}; }
template <class S> ShapeV rs(const S& s) { return rs_impl(s, std::make_index_sequence<S::rank()>()); }
template <class S, size_t... I> S mk_impl(const ShapeV& v, std::index_sequence<I...>) {
  using T = typename S::dims_type;
  return S(T(typename std::tuple_element<I, T>::type(v[I][0], v[I][1], v[I][2])...));
}
template <class S> S mk(const ShapeV& v) { return mk_impl<S>(v, std::make_index_sequence<S::rank()>()); }

constexpr long U = (long)nda::unresolved;
static i128 ab(i128 x) { return x < 0 ? -x : x; }
static bool fits(const ShapeV& v) {
  i128 n = 1, span = 1, u = 1;
  for (auto& d : v) {
    n *= std::max(1l, d[1]);
    if (n >= ((i128)1 << BITS)) return false;
    if (d[2] != U) { if (ab(d[2]) >= ((i128)1 << BITS)) return false; span += ab(d[2]) * std::max(1l, d[1]); }
    if (d[2] == U) u *= std::max(1l, d[1]);
    if (span >= ((i128)1 << BITS) || span * u >= ((i128)1 << BITS)) return false;
    if (ab(d[0]) + d[1] >= ((i128)1 << (small_index ? 30 : 61))) return false;
  }
  return true;
}
static long mag(Rng& r, int bits) {   // a number of up to that many bits, often near a power of two
  int b = (int)r.in(0, bits);
  long p = 1l << b;
  switch (r.in(0, 3)) {
  case 0: return p;
  case 1: return std::max(1l, p - r.in(1, 3));
  case 2: return p + r.in(0, 3);
  default: return p + r.in(0, p);
  }
}
static long sgn(Rng& r) { return r.chance(50) ? -1 : 1; }

// Random dims for a static description (DYN where dynamic): huge minima, extents and strides.
static ShapeV rand_wide(Rng& r, const ShapeV& st, int ebits, bool nested, int unr_pct) {
  for (int tries = 0;; tries++) {
    ShapeV v;
    int eb = tries > 30 ? 2 : ebits;
    for (auto& d : st) {
      long mn = d[0] != DYN ? d[0] : r.chance(20) ? 0 : sgn(r) * mag(r, MBITS - 1);
      long ex = d[1] != DYN ? d[1] : r.chance(6) ? 0 : mag(r, eb);
      long sr = d[2] != DYN ? d[2] : U;
      v.push_back({mn, ex, sr});
    }
    std::vector<size_t> o;
    i128 span = 1;
    for (size_t i = 0; i < v.size(); i++) if (v[i][2] == U) o.push_back(i); else span = std::max(span, ab(v[i][2]) * std::max(1l, v[i][1]));
    for (size_t i = o.size(); i > 1; i--) std::swap(o[i - 1], o[r.in(0, (long)i - 1)]);
    bool ok = span < ((i128)1 << BITS);
    for (size_t i : o) {
      if (r.chance(unr_pct)) continue;
      i128 s;
      if (nested) {
        s = span;
        if (r.chance(60)) s += mag(r, tries > 15 ? 3 : (BITS * 3 / 5));
      } else s = r.chance(10) ? 0 : mag(r, tries > 15 ? 3 : (BITS * 3 / 5));
      if (s >= ((i128)1 << BITS)) { ok = false; break; }
      v[i][2] = (long)(r.chance(30) ? -s : s);
      span = s * std::max(1l, v[i][1]);
      if (span >= ((i128)1 << BITS)) { ok = false; break; }
    }
    if (ok && fits(v)) return v;
  }
}

// One dimension so long that it does not fit in narrower numbers, the others short with short steps: what the strides
// are compared with does not fit either.
static bool rand_skewed(Rng& r, const ShapeV& st, ShapeV& v) {
  std::vector<size_t> o;
  for (size_t i = 0; i < st.size(); i++) if (st[i][1] == DYN) o.push_back(i);
  if (o.empty()) return false;
  size_t big = o[r.in(0, (long)o.size() - 1)];
  for (int tries = 0; tries < 20; tries++) {
    v.clear();
    long span = 1;
    std::vector<size_t> order;
    for (size_t i = 0; i < st.size(); i++) {
      long mn = st[i][0] != DYN ? st[i][0] : r.chance(50) ? 0 : sgn(r) * mag(r, MBITS - 1);
      long p = 1l << (small_index ? r.in(15, 27) : r.in(29, 46));
      long ex = st[i][1] != DYN ? st[i][1] : i == big ? (r.chance(50) ? p * r.in(1, 3) + r.in(-3, 3) : p + r.in(0, p)) : r.in(1, 6);
      v.push_back({mn, ex, st[i][2] != DYN ? st[i][2] : U});
      if (i != big && v[i][2] == U) order.push_back(i);
      if (v[i][2] != U) span = std::max(span, std::abs(v[i][2]) * std::max(1l, v[i][1]));
    }
    for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.in(0, (long)i - 1)]);
    for (size_t i : order) {
      if (r.chance(25)) continue;   // resolved too
      long s = span + (r.chance(40) ? r.in(1, 3) : 0);
      v[i][2] = r.chance(30) ? -s : s;
      span = s * v[i][1];
    }
    if (v[big][2] == U && r.chance(30)) v[big][2] = sgn(r) * r.in(1, 4) * (r.chance(50) ? span : 1);
    if (fits(v)) return true;
  }
  return false;
}

template <class S> E observe(E e, const S& s) {
  constexpr size_t R = S::rank();
  std::vector<long> mins, maxs, exts, strs; std::vector<std::vector<long>> it;
  mins = idx_v(s.min()); maxs = idx_v(s.max()); exts = idx_v(s.extent()); strs = idx_v(s.stride());
  for (size_t i = 0; i < R; i++) { auto d = s.dim(i); it.push_back({(long)*d.begin(), (long)*d.end()}); }
  e("dims", WLL(rs(s)))("mins", WL(mins))("maxs", WL(maxs))("exts", WL(exts))("strs", WL(strs))
   ("size", W((long)s.size()))("empty", s.empty())("res", s.is_resolved())("iter", WLL(it));
  if (s.is_resolved()) e("fmin", W((long)s.flat_min()))("fmax", W((long)s.flat_max()))("fext", W((long)s.flat_extent()))
    ("compact", s.is_compact())("o2o", s.is_one_to_one());
  return e;
}

// A huge range of addresses, never accessed in the modes that only compute addresses.
static char* far_base() { return (char*)(1ul << 62); }
template <class T> long rel(const T* p) { return ((const char*)p - far_base()) / (long)sizeof(T); }
static long pick_in(Rng& r, const std::vector<long>& d) {
  int c = (int)r.in(0, 3);
  return c == 0 ? d[0] : c == 1 ? d[0] + d[1] - 1 : d[0] + r.in(0, d[1] - 1);
}
static bool has_zero(const ShapeV& v) { for (auto& d : v) if (d[1] == 0) return true; return false; }

template <size_t R> struct Ranges {
  template <class S, size_t... I> static bool go(const S& s, const std::vector<IdxV>& a, std::index_sequence<I...>) {
    return s.is_in_range(std::make_tuple(nda::interval<>(a[I][0], a[I][1])...));
  }
  template <class S, size_t... I> static bool god(const S& s, const std::vector<IdxV>& a, std::index_sequence<I...>) {
    return s.is_in_range(std::make_tuple(nda::dim<>(a[I][0], a[I][1], 5)...));
  }
};

template <class S> void probe(Rng& r, const S& s) {
  constexpr size_t R = S::rank();
  ShapeV v = rs(s);
  if (has_zero(v)) return;
  nda::array_ref<char, S> ref(far_base(), s);
  nda::array_ref<const char, S> cref = ref;
  emit(E("data")("data", WL({rel(ref.data()), rel(cref.data())})));
  for (int k = 0; k < 3; k++) {
    IdxV x;
    for (auto& d : v) x.push_back(pick_in(r, d));
    auto t = idx_tuple<R>(x);
    std::vector<long> o{(long)s[t], (long)spread<R>([&](auto... i) { return s(i...); }, x), rel(&ref[t]), rel(&cref[t]),
                        rel(spread<R>([&](auto... i) { return &ref(i...); }, x)), rel(spread<R>([&](auto... i) { return &cref(i...); }, x))};
    emit(E("at")("idx", WL(x))("offs", WL(o)));
  }
  for (int k = 0; k < 4; k++) {
    IdxV x;
    for (auto& d : v) {
      int c = (int)r.in(0, 9);
      x.push_back(c == 0 ? d[0] - 1 : c == 1 ? d[0] + d[1] : c == 2 ? d[0] + d[1] + (1l << (small_index ? 28 : 32)) : c == 3 ? d[0] - (1l << (small_index ? 28 : 32)) : pick_in(r, d));
    }
    std::vector<bool> in{s.is_in_range(idx_tuple<R>(x)), spread<R>([&](auto... i) { return s.is_in_range(std::make_tuple(i...)); }, x)};
    bool each = true;
    for (size_t i = 0; i < R; i++) each = each && s.dim(i).is_in_range((index_t)x[i]);
    in.push_back(each);
    emit(E("inr")("idx", WL(x))("in", in));
    std::vector<IdxV> a;
    for (auto& d : v) {
      long lo = r.chance(10) ? d[0] - 1 : pick_in(r, d);
      long left = std::max(1l, d[0] + d[1] - lo);
      long ex = r.chance(80) ? (r.chance(50) ? left : r.in(1, left)) : left + r.in(1, 3);
      a.push_back({lo, ex});
    }
    bool q = r.chance(50) ? Ranges<R>::go(s, a, std::make_index_sequence<R>()) : Ranges<R>::god(s, a, std::make_index_sequence<R>());
    emit(E("inri")("args", WLL(a))("in", q));
  }
}

template <size_t I, class S, bool B = (I < S::rank())> struct SetDim {
  static void go(S& s, size_t i, int what, long v) {
    if (i == I) {
      auto& d = s.template dim<I>();
      if (what == 0) d.set_min((index_t)v); else if (what == 1) d.set_extent((index_t)v);
      else if (what == 2) d.set_stride((index_t)v); else d.set_max((index_t)v);
    } else SetDim<I + 1, S>::go(s, i, what, v);
  }
};
template <size_t I, class S> struct SetDim<I, S, false> { static void go(S&, size_t, int, long) {} };

template <class S> void resolve_here(const S& s, S& out) {
  out = s;
  pending("resolve");
  out.resolve();
  std::vector<V> others;
  { S t = out; t.resolve(); others.push_back(WLL(rs(t))); }
  { nda::array_ref<char, S> ref(far_base(), s); others.push_back(WLL(rs(ref.shape()))); }
  others.push_back(WLL(rs(nda::make_array_ref(far_base(), s).shape())));
  { auto c = nda::make_shape_from_tuple(s.dims()); c.resolve(); others.push_back(WLL(rs(c))); }
  emit(observe(E("resolve"), out)("others", list_of(others)));
}

template <class S> void shapes(Rng& r) {
  ShapeV st = static_v<S>();
  begin_session("wide");
  constexpr size_t R = S::rank();
  int eb = R == 0 ? 1 : std::min(40, BITS * 2 / 3 / (int)std::max<size_t>(1, R));
  ShapeV v;
  if (!r.chance(40) || !rand_skewed(r, st, v)) v = rand_wide(r, st, eb, r.chance(70), r.chance(50) ? 50 : r.chance(50) ? 100 : 0);
  pending("new");
  S s = mk<S>(v);
  emit(observe(E("new")("arg", WLL(v)), s));
  for (int k = 0; k < 5 && R > 0; k++) {
    ShapeV c = rs(s);
    size_t i = (size_t)r.in(0, (long)R - 1);
    int what = (int)r.in(0, 3);
    if (st[i][what == 3 ? 1 : what] != DYN) continue;
    long val = what == 0 ? sgn(r) * mag(r, MBITS - 1) : what == 1 ? mag(r, eb) : what == 2 ? sgn(r) * mag(r, BITS / 2) : c[i][0] + mag(r, eb);
    ShapeV w = c;
    if (what < 3) w[i][what] = val; else w[i][1] = val - c[i][0] + 1;
    if (!fits(w)) continue;
    pending("set");
    SetDim<0, S>::go(s, i, what, val);
    emit(observe(E("set")("d", (long)i + 1)("what", (long)what)("v", W(val)), s));
  }
  S t = s;
  resolve_here(s, t);
  probe(r, t);
  end_session();
}

// ---------------------------------------------------------------- views
template <class R> V got(const R& ref) { return list_of({WLL(rs(ref.shape())), W(rel(ref.base()))}); }
inline V got(const char& c) { return list_of({V(), W(rel(&c))}); }
using nda::_;

// One slice argument, chosen by C at compile time: 0 index, 1 interval, 2 dim, 3 all.
template <int C> struct Arg;
template <> struct Arg<0> { static constexpr long kind = 0; static auto make(long x, long) { return (index_t)x; } };
template <> struct Arg<1> { static constexpr long kind = 1; static auto make(long m, long e) { return nda::interval<>(m, e); } };
template <> struct Arg<2> { static constexpr long kind = 1; static auto make(long m, long e) { return nda::dim<>(m, e, 77); } };
template <> struct Arg<3> { static constexpr long kind = 2; static auto make(long, long) { return _; } };

template <int... C, class S, size_t... I>
void slice_as(Rng& r, const S& s, std::index_sequence<I...>) {
  ShapeV v = rs(s);
  nda::array_ref<char, S> ref(far_base(), s);
  std::vector<IdxV> a;
  std::vector<V> args;
  int kinds[] = {C...};
  for (size_t i = 0; i < v.size(); i++) {
    long lo = r.chance(10) ? v[i][0] : v[i][0] + r.in(0, std::max(0l, v[i][1] - 1));
    long left = v[i][0] + v[i][1] - lo;
    long ex = r.chance(50) ? left : r.in(0, left);
    a.push_back({lo, ex});
    long k = kinds[i] == 0 ? 0 : kinds[i] == 3 ? 2 : 1;
    args.push_back(list_of({V(k), k == 2 ? W(0) : W(lo), k == 1 ? W(ex) : W(0)}));
  }
  pending("slice");
  auto t = std::make_tuple(Arg<C>::make(a[I][0], a[I][1])...);
  std::vector<V> g;
  g.push_back(got(ref(Arg<C>::make(a[I][0], a[I][1])...)));
  g.push_back(got(ref[t]));
  const auto& cref = ref;
  g.push_back(got(cref(Arg<C>::make(a[I][0], a[I][1])...)));
  emit(E("slice")("args", list_of(args))("got", list_of(g)));
}
template <class S> void slices(Rng& r, const S& s, std::integral_constant<size_t, 1>) {
  auto i = std::make_index_sequence<1>();
  slice_as<0>(r, s, i); slice_as<1>(r, s, i); slice_as<2>(r, s, i); slice_as<3>(r, s, i);
}
template <class S> void slices(Rng& r, const S& s, std::integral_constant<size_t, 2>) {
  auto i = std::make_index_sequence<2>();
  slice_as<0, 0>(r, s, i); slice_as<0, 1>(r, s, i); slice_as<2, 0>(r, s, i); slice_as<3, 1>(r, s, i);
  slice_as<1, 2>(r, s, i); slice_as<0, 3>(r, s, i);
}
template <class S> void slices(Rng& r, const S& s, std::integral_constant<size_t, 3>) {
  auto i = std::make_index_sequence<3>();
  slice_as<0, 0, 0>(r, s, i); slice_as<0, 1, 3>(r, s, i); slice_as<2, 0, 0>(r, s, i); slice_as<3, 1, 2>(r, s, i);
  slice_as<1, 3, 0>(r, s, i); slice_as<1, 0, 2>(r, s, i);
}
template <class S> void slices(Rng& r, const S& s, std::integral_constant<size_t, 5>) {
  auto i = std::make_index_sequence<5>();
  slice_as<0, 1, 3, 0, 2>(r, s, i); slice_as<1, 0, 0, 0, 3>(r, s, i); slice_as<3, 2, 1, 1, 0>(r, s, i); slice_as<0, 0, 0, 0, 0>(r, s, i);
}
template <size_t... P, class S> void permute(const S& s) {
  nda::array_ref<char, S> ref(far_base(), s);
  pending("permute");
  std::vector<V> g{got(nda::transpose<P...>(ref)), got(nda::reorder<P...>(ref)), list_of({WLL(rs(nda::transpose<P...>(s))), W(0)})};
  emit(E("permute")("perm", std::vector<long>{(long)(P + 1)...})("got", list_of(g)));
}
template <class S> void perms(const S& s, std::integral_constant<size_t, 1>) { permute<0>(s); }
template <class S> void perms(const S& s, std::integral_constant<size_t, 2>) { permute<1, 0>(s); permute<0, 1>(s); }
template <class S> void perms(const S& s, std::integral_constant<size_t, 3>) { permute<2, 0, 1>(s); permute<1, 2, 0>(s); permute<0, 2, 1>(s); }
template <class S> void perms(const S& s, std::integral_constant<size_t, 5>) { permute<4, 2, 0, 1, 3>(s); permute<1, 0, 3, 4, 2>(s); }

template <class S> void views(Rng& r) {
  constexpr size_t R = S::rank();
  begin_session("wideviews");
  int eb = std::min(40, BITS * 2 / 3 / (int)R);
  ShapeV v = rand_wide(r, static_v<S>(), eb, true, 0);
  S s = mk<S>(v);
  emit(observe(E("new")("arg", WLL(v)), s));
  if (!has_zero(v)) {
    slices(r, s, std::integral_constant<size_t, R>());
    perms(s, std::integral_constant<size_t, R>());
    // set_shape to a crop of the shape: within the memory of the old one.
    nda::array_ref<char, S> ref(far_base(), s);
    ShapeV w = v; long off = 0;
    for (auto& d : w) {
      long lo = pick_in(r, d);
      off += (lo - d[0]) * d[2];
      d[1] = r.in(1, d[0] + d[1] - lo);
      d[0] = lo;
    }
    bool ok = true;
    ShapeV st = static_v<S>();
    for (size_t i = 0; i < R; i++) ok = ok && (st[i][0] == DYN || st[i][0] == w[i][0]) && (st[i][1] == DYN || st[i][1] == w[i][1]);
    if (ok) {
      pending("set_shape");
      ref.set_shape(mk<S>(w), (index_t)off);
      emit(E("setshape")("arg", WLL(w))("offset", W(off))("got", got(ref)));
    }
  }
  end_session();
}

// ---------------------------------------------------------------- intervals
template <class SR> void split_ev(const SR& sr, long mn, long ex, long n, bool fixed) {
  pending("split");
  std::vector<std::vector<long>> ps, acc; std::vector<long> mx;
  long count = 0;
  for (auto p : sr) { if (++count > 60) break; ps.push_back({(long)p.min(), (long)p.extent()}); mx.push_back((long)p.max()); }
  for (long k = 0; k < count && k < 60; k++) { auto p = *(sr.begin() + k); acc.push_back({(long)p.min(), (long)p.extent()}); }
  emit(E("split")("v", WL({mn, ex}))("inner", W(n))("fixed", fixed)("pieces", WLL(ps))("access", WLL(acc))("maxs", WL(mx))("size", (long)sr.size()));
}
template <long N> void fixed_split(long mn, long ex) { if (ex >= N) split_ev(nda::split<N>(nda::interval<>(mn, ex)), mn, ex, N, true); }
// Many pieces: only some are looked at.
template <class SR> void split_far(Rng& r, const SR& sr, long mn, long ex, long n, bool fixed) {
  pending("split, far pieces");
  long count = (ex - 1) / n + 1;   // the specification checks this number
  std::vector<long> ks; std::vector<std::vector<long>> ps, acc, res; std::vector<long> dist;
  for (int t = 0; t < 5; t++) {
    long k = t == 0 ? count - 1 : t == 1 ? count - 2 : t == 2 ? count : r.in(0, count - 1);
    if (k < 0 || (k == count && ex % n)) continue;
    if (k == count) { pending("split, to the end"); ks.push_back(k); auto it = sr.begin(); it += (index_t)k; acc.push_back({(long)(it == sr.end()), (long)(it != sr.end())});
      ps.push_back({0, 0}); res.push_back({0, 0}); dist.push_back((long)(it - sr.begin())); continue; }
    ks.push_back(k);
    auto it = sr.begin(); it += (index_t)k;
    auto p = *it; auto q = *(sr.begin() + (index_t)k); auto o = sr.begin()[(index_t)k]; auto w = *sr[(index_t)k];
    ps.push_back({(long)p.min(), (long)p.extent()});
    acc.push_back({(long)q.min(), (long)q.extent()});
    bool same = o.min() == w.min() && o.extent() == w.extent();
    res.push_back(same ? std::vector<long>{(long)o.min(), (long)o.extent()} : std::vector<long>{0, 0});
    dist.push_back((long)(it - sr.begin()));
  }
  emit(E("splitfar")("v", WL({mn, ex}))("inner", W(n))("fixed", fixed)("k", WL(ks))("pieces", WLL(ps))("plus", WLL(acc))("sub", WLL(res))
       ("dist", WL(dist))("count", W(count))("size", W((long)sr.size())));
}
template <long N> void fixed_far(Rng& r, long mn, long ex) { if (ex >= N) split_far(r, nda::split<N>(nda::interval<>(mn, ex)), mn, ex, N, true); }
void far_pieces(Rng& r) {
  begin_session("widefar");
  const int top = small_index ? 27 : 60;
  for (int k = 0; k < 8; k++) {
    long mn = sgn(r) * mag(r, top), ex = mag(r, top), n = r.chance(50) ? r.in(1, 9) : mag(r, top / 2);
    if (r.chance(30)) ex = ex / n * n;
    if (ex < 1) continue;
    if (r.chance(50)) split_far(r, nda::split(nda::interval<>(mn, ex), (index_t)n), mn, ex, std::min(n, ex), false);
    else split_far(r, nda::split(nda::dim<>(mn, ex, 3), (index_t)n), mn, ex, std::min(n, ex), false);
    fixed_far<1>(r, mn, ex); fixed_far<7>(r, mn, ex); fixed_far<4>(r, mn, std::max(4l, ex / 4 * 4)); fixed_far<(1l << 13) - 1>(r, mn, ex);
  }
  end_session();
}
void intervals(Rng& r) {
  far_pieces(r);
  begin_session("wideint");
  const int top = small_index ? 27 : 60;
  for (int k = 0; k < 12; k++) {
    long mn = sgn(r) * mag(r, top), ex = mag(r, top);
    long n = std::max(1l, ex / r.in(1, 12) + r.in(-2, 2));
    if (ex / n > 40) n = ex;
    if (r.chance(50)) split_ev(nda::split(nda::interval<>(mn, ex), (index_t)n), mn, ex, n, false);
    else split_ev(nda::split(nda::dim<>(mn, ex, 3), (index_t)n), mn, ex, n, false);
    fixed_split<(1l << 26) + 5>(mn, std::min(ex, r.in(1, 12) << 25));
    fixed_split<(1l << 20)>(mn, std::min(ex, r.in(1, 12) << 19));
    if (!small_index) { fixed_split<(1l << (small_index ? 20 : 33)) - 3>(mn, std::min(ex, r.in(1, 20) << 32)); fixed_split<(1l << (small_index ? 20 : 57))>(mn, ex); }
    nda::interval<> v(mn, ex); nda::dim<> d(mn, ex); auto h = nda::range(mn, mn + ex);
    std::vector<long> pr; std::vector<std::vector<bool>> inr; std::vector<std::vector<long>> cl;
    for (long p : {mn, mn - 1, mn + ex - 1, mn + ex, mn + ex / 2, -mn, mn + ex / 3 + (1l << (small_index ? 27 : 32)), mn - (1l << (small_index ? 27 : 32))}) {
      pr.push_back(p);
      inr.push_back({v.is_in_range(p), d.is_in_range(p), h.is_in_range(p), v.is_in_range(nda::interval<>(p, 1))});
      cl.push_back({(long)nda::clamp(p, v), (long)nda::clamp(p, d), (long)nda::clamp((index_t)p, (index_t)mn, (index_t)(mn + ex - 1))});
    }
    E e("interval");
    e("v", WL({mn, ex}))("min", WL({(long)v.min(), (long)d.min(), (long)h.min()}))("ext", WL({(long)v.extent(), (long)v.size(), (long)d.extent(), (long)h.extent(), (long)d.size()}))
     ("max", WL({(long)v.max(), (long)d.max(), (long)h.max()}))("end", WL({(long)*v.end(), (long)*d.end(), (long)*h.end(), (long)*nda::end(v)}))
     ("dist", WL({(long)(v.end() - v.begin()), (long)(d.end() - d.begin())}))("probe", WL(pr));
    std::vector<V> a, b;
    for (auto& x : inr) a.push_back(V(x));
    for (auto& x : cl) b.push_back(WL(x));
    emit(e("inr", list_of(a))("clamped", list_of(b)));
  }
  end_session();
}

// ---------------------------------------------------------------- index order
struct Calls { std::vector<V> c; void add(const IdxV& x) { c.push_back(WL(x)); } };
static std::vector<long> small_of(const ShapeV& v) { std::vector<long> e; for (auto& d : v) e.push_back(d[1]); return e; }
template <size_t... P, class S> void walk_in(const S& s) {
  Calls c;
  pending("for_each_index");
  nda::for_each_index<P...>(s, [&](const nda::index_of_rank<sizeof...(P)>& x) { c.add(idx_v(x)); });
  emit(E("walk")("small", small_of(rs(s)))("perm", std::vector<long>{(long)(P + 1)...})("calls", list_of(c.c)));
}
template <class S> void walks(const S& s, std::integral_constant<size_t, 1>) { walk_in<0>(s); }
template <class S> void walks(const S& s, std::integral_constant<size_t, 2>) { walk_in<1, 0>(s); walk_in<0, 1>(s); }
template <class S> void walks(const S& s, std::integral_constant<size_t, 3>) { walk_in<2, 0, 1>(s); walk_in<1, 0, 2>(s); }
template <class S> void walks(const S& s, std::integral_constant<size_t, 5>) { walk_in<4, 2, 0, 1, 3>(s); }
template <class S> ShapeV sparse(Rng& r, int flatbits, bool maymiss = false) {
  constexpr size_t R = S::rank();
  for (;;) {
    ShapeV v = rand_wide(r, static_v<S>(), R >= 5 ? 1 : R >= 3 ? 1 : 2, true, 0);
    if (!small_index && r.chance(60)) {   // a stride that does not fit in 32 bits
      for (size_t i = 0; i < R; i++) {
        if (static_v<S>()[i][2] != DYN || v[i][1] < 2) continue;
        ShapeV u = v;
        u[i][2] = (r.chance(50) ? -1 : 1) * ((1l << r.in(31, std::max(31, flatbits - 2))) + r.in(-3, 5));
        if (vone2one(u)) { v = u; break; }
      }
    }
    i128 span = 0;
    for (auto& d : v) span += ab(d[2]) * std::max(1l, d[1]);
    if (span >= ((i128)1 << flatbits) || has_zero(v)) continue;
    return v;
  }
}
template <class S> void order(Rng& r) {
  constexpr size_t R = S::rank();
  begin_session("wideorder");
  ShapeV v = sparse<S>(r, BITS);
  S s = mk<S>(v);
  emit(observe(E("new")("arg", WLL(v)), s));
  std::vector<long> perm;
  for (size_t i = 0; i < R; i++) perm.push_back((long)i + 1);
  { Calls c; nda::for_each_index(s, [&](const nda::index_of_rank<R>& x) { c.add(idx_v(x)); });
    emit(E("walk")("small", small_of(v))("perm", perm)("calls", list_of(c.c))); }
  { Calls c; nda::for_all_indices(s, [&](auto... x) { c.add(IdxV{(long)x...}); });
    emit(E("walk")("small", small_of(v))("perm", perm)("calls", list_of(c.c))); }
  walks(s, std::integral_constant<size_t, R>());
  end_session();
}

// ---------------------------------------------------------------- sparse memory
constexpr int MEMBITS = small_index ? 31 : 38;                 // bytes of one block
constexpr int FLATBITS = small_index ? 28 : MEMBITS - 4;       // elements either side of the middle
struct Block {
  char* p;
  Block() {
    p = (char*)mmap(nullptr, 1ul << MEMBITS, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    madvise(p, 1ul << MEMBITS, MADV_NOHUGEPAGE);
  }
  int* mid() { return (int*)(p + (1ul << (MEMBITS - 1))); }
  void reset() { madvise(p, 1ul << MEMBITS, MADV_DONTNEED); }
  // The pages that were touched are only those of these elements.
  bool only(const std::vector<long>& offs) {
    std::vector<long> want;
    for (long o : offs) want.push_back(((char*)(mid() + o) - p) >> 12);
    std::sort(want.begin(), want.end());
    const size_t step = 1ul << 30;
    std::vector<unsigned char> m(step >> 12);
    for (size_t at = 0; at < (1ul << MEMBITS); at += step) {
      if (mincore(p + at, step, m.data())) return true;
      for (size_t i = 0; i < m.size(); i++) if (m[i] & 1) if (!std::binary_search(want.begin(), want.end(), (long)((at >> 12) + i))) return false;
    }
    return true;
  }
};
static Block& A() { static Block b; return b; }
static Block& B() { static Block b; return b; }
static std::vector<long> offsets(const ShapeV& v, const ShapeV& over) {
  std::vector<IdxV> xs; all_idx(over, xs);
  std::vector<long> o;
  for (auto& x : xs) o.push_back(voff(v, x));
  return o;
}

template <class S> void values(Rng& r) {
  constexpr size_t R = S::rank();
  begin_session("widevalues");
  ShapeV v = sparse<S>(r, FLATBITS);
  S s = mk<S>(v);
  emit(observe(E("new")("arg", WLL(v)), s));
  A().reset();
  nda::array_ref<int, S> ref(A().mid(), s);
  std::vector<long> t, at = offsets(v, v);
  pending("for_each_value");
  ref.for_each_value([&](int& x) { t.push_back((long)(&x - A().mid())); });
  emit(E("values")("small", small_of(v))("touched", WL(t)));
  auto stored = [&](std::vector<long> want) {
    std::vector<long> rd;
    for (long o : at) rd.push_back(A().mid()[o]);
    emit(E("stored")("small", small_of(v))("at", WL(at))("read", rd)("want", want));
  };
  pending("fill");
  nda::fill(ref, 77);
  stored(std::vector<long>(at.size(), 77));
  pending("transform_index");
  // The position of an index in the default order, which is the order of `at`.
  auto pos = [&](const IdxV& x) { long p = 0, m = 1; for (size_t i = 0; i < R; i++) { p += (x[i] - v[i][0]) * m; m *= v[i][1]; } return (int)p; };
  std::vector<long> want;
  for (size_t i = 0; i < at.size(); i++) want.push_back(100 + (long)i);
  if (r.chance(50)) nda::transform_index(ref, [&](const nda::index_of_rank<R>& x) { return 100 + pos(idx_v(x)); });
  else nda::transform_indices(ref, [&](auto... x) { return 100 + pos(IdxV{(long)x...}); });
  stored(want);
  A().reset();
  end_session();
}

template <class D, class S> void ein_copy(const D& d, const S& s, std::integral_constant<size_t, 1>) { nda::ein_reduce(nda::ein<0>(d) = nda::ein<0>(s.cref())); }
template <class D, class S> void ein_copy(const D& d, const S& s, std::integral_constant<size_t, 2>) { nda::ein_reduce(nda::ein<0, 1>(d) = nda::ein<0, 1>(s.cref())); }
template <class D, class S> void ein_copy(const D& d, const S& s, std::integral_constant<size_t, 3>) { nda::ein_reduce(nda::ein<0, 1, 2>(d) = nda::ein<0, 1, 2>(s.cref())); }
template <class D, class S> void ein_copy(const D& d, const S& s, std::integral_constant<size_t, 5>) { nda::copy(s, d); }

template <class S, class S2> void copies(Rng& r) {
  constexpr size_t R = S::rank();
  begin_session("widecopy");
  ShapeV v = sparse<S>(r, FLATBITS), w;
  ShapeV st2 = static_v<S2>();
  for (int tries = 0;; tries++) {
    w = sparse<S2>(r, FLATBITS);
    for (size_t i = 0; i < R; i++) {   // the source covers the destination
      if (st2[i][0] == DYN) { w[i][0] = v[i][0]; if (st2[i][1] == DYN) w[i][0] -= r.in(0, 1); }
      if (st2[i][1] == DYN) w[i][1] = v[i][0] + v[i][1] - w[i][0] + r.in(0, 1);
    }
    i128 span = 0; bool ok = true;
    for (size_t i = 0; i < R; i++) {
      span += ab(w[i][2]) * w[i][1];
      ok = ok && w[i][0] <= v[i][0] && w[i][0] + w[i][1] >= v[i][0] + v[i][1];
    }
    if (!ok && tries > 50) { end_session(); return; }
    if (ok && span < ((i128)1 << FLATBITS)) break;
  }
  S s = mk<S>(v); S2 q = mk<S2>(w);
  emit(observe(E("new")("arg", WLL(v)), s));
  A().reset(); B().reset();
  nda::array_ref<int, S> dst(A().mid(), s);
  nda::array_ref<int, S2> src(B().mid(), q);
  std::vector<long> dat = offsets(v, v), sat = offsets(w, v);
  std::vector<IdxV> all; all_idx(w, all);
  for (auto& x : all) B().mid()[voff(w, x)] = (int)r.in(1, 100000);
  std::vector<long> sv, dv;
  for (long o : sat) sv.push_back(B().mid()[o]);
  int api = (int)r.in(0, 3);
  pending("copy");
  if (api == 0) nda::copy(src, dst); else if (api == 1) nda::move(src, dst);
  else if (api == 2) nda::copy(src.cref(), dst); else ein_copy(dst, src, std::integral_constant<size_t, R>());
  bool pages = A().only(dat);
  for (long o : dat) dv.push_back(A().mid()[o]);
  emit(E("copied")("src", WLL(w))("small", small_of(v))("dat", WL(dat))("sat", WL(sat))("sval", sv)("dval", dv)("pages", pages));
  // Comparison with the part of the source the copy covers.
  ShapeV c = v;
  for (size_t i = 0; i < R; i++) c[i][2] = w[i][2];
  nda::array_ref<int, nda::shape_of_rank<R>> part(B().mid() + voff(w, IdxV([&] { IdxV x; for (auto& d : v) x.push_back(d[0]); return x; }())), mk<nda::shape_of_rank<R>>(c));
  std::vector<bool> eq{nda::equal(dst, part), nda::equal(part, dst), dst == dst, nda::equal(dst, dst)}, df;
  size_t k = (size_t)r.in(0, (long)dat.size() - 1);
  B().mid()[sat[k]] ^= 1;
  df.push_back(nda::equal(dst, part)); df.push_back(nda::equal(part, dst));
  B().mid()[sat[k]] ^= 1;
  ShapeV e = c; e[0][0] += 1l << (small_index ? 16 : 32);
  df.push_back(nda::equal(dst, nda::array_ref<int, nda::shape_of_rank<R>>(part.base(), mk<nda::shape_of_rank<R>>(e))));
  emit(E("compared")("equal", eq)("differ", df));
  A().reset(); B().reset();
  end_session();
}

// ---------------------------------------------------------------- owning arrays
struct Rec { char* p; size_t n, freed; };
static Rec& rec() { static Rec x{nullptr, 0, 0}; return x; }
template <class T> struct map_alloc {
  using value_type = T;
  map_alloc() {}
  template <class O> map_alloc(const map_alloc<O>&) {}
  T* allocate(size_t n) {
    if (n * sizeof(T) > (1ul << 40)) { rec() = {nullptr, n, 0}; throw std::bad_alloc(); }
    char* p = (char*)mmap(nullptr, n * sizeof(T), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(3); }
    rec() = {p, n, 0};
    return (T*)p;
  }
  void deallocate(T* p, size_t n) { munmap((void*)p, n * sizeof(T)); rec().freed = n; }
  friend bool operator==(const map_alloc&, const map_alloc&) { return true; }
  friend bool operator!=(const map_alloc&, const map_alloc&) { return false; }
};
template <class S> void own(Rng& r) {
  begin_session("wideown");
  ShapeV v = sparse<S>(r, small_index ? 28 : 35);
  if (r.chance(30)) for (size_t i = 0; i < v.size(); i++) if (static_v<S>()[i][2] == DYN && r.chance(50)) v[i][2] = U;
  S s = mk<S>(v);
  emit(observe(E("new")("arg", WLL(v)), s));
  pending("own");
  ShapeV d; long base = 0, size = 0;
  if (r.chance(50)) {
    nda::array<char, S, map_alloc<char>> a(s, 5);
    d = rs(a.shape()); base = a.base() - rec().p; size = (long)a.size();
  } else {
    nda::array<char, S, map_alloc<char>> a(s);
    nda::array<char, S, map_alloc<char>> b(std::move(a));
    d = rs(b.shape()); base = b.base() - rec().p; size = (long)b.size();
  }
  emit(E("own")("dims", WLL(d))("n", W((long)rec().n))("base", W(base))("size", W(size))("freed", W((long)rec().freed)));
  end_session();
}

// Compaction.
static V WU(long x) { return x == DYN ? list_of(std::vector<V>(8, V(0l))) : W(x); }   // WUNR if not a constant
template <class S> void compaction(Rng& r) {
  ShapeV st = static_v<S>();
  constexpr size_t R = S::rank();
  begin_session("widecompact");
  for (int k = 0; k < 4; k++) {
    ShapeV v;
    if (!r.chance(30) || !rand_skewed(r, st, v)) v = rand_wide(r, st, std::min(40, BITS * 2 / 3 / (int)std::max<size_t>(1, R)), r.chance(50), r.chance(50) ? 50 : 100);
    ShapeV w = v;
    for (size_t i = 0; i < R; i++) if (st[i][2] == DYN) w[i][2] = U;
    if (!fits(w)) continue;
    pending("make_compact");
    auto c = nda::make_compact(mk<S>(v));
    ShapeV ot = static_v<decltype(c)>();
    std::vector<V> sst, ost, sext;
    for (size_t i = 0; i < R; i++) { sst.push_back(WU(st[i][2])); sext.push_back(WU(st[i][1])); ost.push_back(WU(ot[i][2])); }
    E e("compact");
    e("arg", WLL(v))("sst", list_of(sst))("sext", list_of(sext))("ost", list_of(ost))("out", WLL(rs(c)));
    // The stride of a dimension without a second element is free, and so is
    // what becomes of a shape with constant strides other than a single one.
    bool free = false;
    int nconst = 0;
    for (size_t i = 0; i < R; i++) { free |= v[i][1] <= 1; if (st[i][2] != DYN) { nconst++; free |= st[i][2] != 1; } }
    if (free || nconst > 1) e("nocorrupt", true);
    emit(e);
  }
  end_session();
}

template <class... S> using L = list<S...>;
using R1 = nda::shape_of_rank<1>; using R2 = nda::shape_of_rank<2>; using R3 = nda::shape_of_rank<3>; using R5 = nda::shape_of_rank<5>;
constexpr long HM = small_index ? (1l << 27) : (1l << 35), HS = small_index ? (1l << 20) : (1l << 33), HE = small_index ? 70000 : (1l << 34) + 1;
using huge2 = shape<dim<HM, dyn, dyn>, nda::fixed_dim<5, HS>>;
using huge3 = shape<nda::dense_dim<HM, HE>, strided_dim<HS>, nda::broadcast_dim<-HM, 3>>;
using huge4 = shape<nda::fixed_dim<HE, 2>, nda::broadcast_dim<>>;
using huge1 = shape<dim<-HM, HE, -3>>;
using skew = shape<dim<>, dim<dyn, dyn, -HS / 8>, dense_dim<>>;

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r((uint64_t)a.num("seed", 1) * 7919 + 29);
  long n = a.num("n", 2);
  for (long k = 0; k < n; k++) {
#if MODE == 0
    for_list(L<nda::shape_of_rank<0>, R1, R2, R3, nda::shape_of_rank<4>, R5, nda::shape_of_rank<6>, nda::dense_shape<1>, nda::dense_shape<2>,
               nda::dense_shape<3>, shape<dim<>, strided_dim<3>>, nda::chunky_image_shape<3>, huge2, huge1, huge3, huge4, skew>{},
             [&](auto t) { shapes<typename decltype(t)::type>(r); });
#elif MODE == 1
    for_list(L<R1, R2, R3, R5, nda::dense_shape<2>, nda::chunky_image_shape<3>, huge2, huge1, huge3, huge4, skew>{},
             [&](auto t) { views<typename decltype(t)::type>(r); });
#elif MODE == 2
    intervals(r);
#elif MODE == 3
    for_list(L<R1, R2, R3, R5, nda::dense_shape<2>, shape<dim<-HM, 3>, dim<HM, dyn>>>{},
             [&](auto t) { order<typename decltype(t)::type>(r); });
#elif MODE == 4
    for_list(L<R1, R2, R3, R5, nda::dense_shape<2>, nda::chunky_image_shape<3>, shape<dim<HM, dyn, dyn>, dim<dyn, 3, HS / 64>>>{},
             [&](auto t) { values<typename decltype(t)::type>(r); });
#elif MODE == 5
    copies<R1, R1>(r); copies<R2, R2>(r); copies<R3, R3>(r); copies<R5, R5>(r); copies<nda::dense_shape<2>, R2>(r);
    copies<R2, nda::dense_shape<2>>(r); copies<nda::dense_shape<2>, nda::dense_shape<2>>(r); copies<nda::dense_shape<3>, R3>(r);
    copies<shape<dim<HM, dyn, dyn>, dim<dyn, 3, HS / 64>>, R2>(r);
#elif MODE == 7
    constexpr long HB = small_index ? 509 : (1l << 17) + 1;
    for_list(L<R1, R2, R3, R5, nda::dense_shape<3>, shape<nda::fixed_dim<HB>, nda::fixed_dim<HB>, dim<dyn, HB>>,
               shape<dim<-HM, HB>, dim<>, nda::fixed_dim<HB>>, shape<nda::fixed_dim<HB>, nda::dense_dim<dyn, HB>, dim<>>,
               shape<nda::fixed_dim<HB>, nda::fixed_dim<HB>, dim<>>, shape<dim<>, nda::fixed_dim<HB, -1>, nda::fixed_dim<HB>, dim<>>,
               shape<nda::fixed_dim<HB>, strided_dim<HS / 2>>, shape<nda::dense_dim<>, nda::fixed_dim<HB>, dim<>>,
               shape<nda::fixed_dim<HB>, nda::fixed_dim<3>, strided_dim<-(HB * HB)>, dim<>>, nda::fixed_dense_shape<HB, 3, HB>,
               shape<dim<0, HB>, dim<0, HB>, dim<0, 2>, dim<HM, 3>>, huge1>{},
             [&](auto t) { compaction<typename decltype(t)::type>(r); });
#else
    for_list(L<R1, R2, R3, R5, nda::dense_shape<2>, nda::chunky_image_shape<3>, shape<dim<HM, dyn, dyn>, dim<dyn, 3, HS / 64>>>{},
             [&](auto t) { own<typename decltype(t)::type>(r); });
#endif
  }
  finish_out();
  return 0;
}
