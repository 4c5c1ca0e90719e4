// C08, C09: copies, moves and comparisons between layouts.
// MODE 0: dynamic shapes (TLC plans, random). MODE 1: typed copies and moves. MODE 2: comparisons.
#include "menu.h"
#include <cmath>
using namespace nd;
#ifndef MODE
#define MODE 0
#endif
#ifndef PART
#define PART 0
#endif
using nda::index_t;

constexpr long POOL = 1400, NANV = 999999, NEGZ = 999998;

// ---------------------------------------------------------------- elements
// An element that reports every assignment.
struct Tr {
  int v;
  static bool& logging() { static bool b = false; return b; }
  Tr() : v(0) {}
  explicit Tr(int x) : v(x) {}
  Tr(const Tr& o) : v(o.v) {}
  Tr(Tr&& o) : v(o.v) { o.v = -1; }
  Tr& operator=(const Tr& o);
  Tr& operator=(Tr&& o);
};
template <class T> T* pool() {
  static T* p = (T*)aligned_alloc(64, ((POOL * sizeof(T)) / 64 + 2) * 64);
  return p;
}
template <class T> long& brk_() { static long b = 0; return b; }
template <class T> struct origin { static long value() { return 0; } };
#if MODE == 2   // ints and doubles in one memory
template <> struct origin<double> { static long value() { return POOL / 2; } };
#endif
template <class T> long rel(const T* p) {
  long d = (const char*)p - (const char*)pool<T>();
  return d % (long)sizeof(T) ? BIG : d / (long)sizeof(T) + origin<T>::value();
}
static void asg(const Tr* d, int v) {
  if (Tr::logging()) emit(E("asg")("d", rel(d))("v", v));
}
Tr& Tr::operator=(const Tr& o) { v = o.v; asg(this, v); return *this; }
Tr& Tr::operator=(Tr&& o) { v = o.v; asg(this, v); if (&o != this) o.v = -1; return *this; }

// Plain elements report nothing: what is left in memory is seen after each operation.
struct Pod { int v; };
struct Pod8 { short a; int v; };
#ifdef PLAIN
using El = PLAIN;
constexpr bool quiet = true;
#else
using El = Tr;
constexpr bool quiet = false;
#endif
template <class T> struct bits { using type = T; };   // what an element is read as
template <> struct bits<Tr> { using type = int; };
template <> struct bits<Pod> { using type = int; };
template <> struct bits<Pod8> { using type = double; };

static long val(const Tr& t) { return t.v; }
static long val(const Pod& t) { return t.v; }
static long val(const Pod8& t) { return t.a == 9 ? t.v : BIG; }
static long val(float t) { return (long)t; }
static long val(short t) { return t; }
static long val(long t) { return t; }
static void put(Pod& t, long v) { t.v = (int)v; }
static void put(Pod8& t, long v) { t.a = 9; t.v = (int)v; }
static void put(float& t, long v) { t = (float)v; }
static void put(short& t, long v) { t = (short)v; }
static void put(long& t, long v) { t = v; }
static long val(int t) { return t; }
static long val(double t) { return std::isnan(t) ? NANV : t == 0 && std::signbit(t) ? NEGZ : (long)t; }
static void put(Tr& t, long v) { t.v = (int)v; }
static void put(int& t, long v) { t = (int)v; }
static void put(double& t, long v) { t = v == NANV ? NAN : v == NEGZ ? -0.0 : (double)v; }

template <class T> struct pool_alloc {
  using value_type = T;
  pool_alloc() {}
  template <class U> pool_alloc(const pool_alloc<U>&) {}
  T* allocate(size_t n) {
    last_alloc() = {nullptr, n};
    if (brk_<T>() + (long)n + 3 > POOL) { last_alloc().p = malloc(n * sizeof(T)); return (T*)last_alloc().p; }
    T* p = pool<T>() + brk_<T>();
    brk_<T>() += (long)n + 3;
    last_alloc().p = p;
    return p;
  }
  void deallocate(T*, size_t) {}
  friend bool operator==(const pool_alloc&, const pool_alloc&) { return true; }
  friend bool operator!=(const pool_alloc&, const pool_alloc&) { return false; }
};
// A second allocator type, for results.
template <class T> struct other_alloc : pool_alloc<T> {
  using value_type = T;
  template <class U> struct rebind { using other = other_alloc<U>; };
};

// ---------------------------------------------------------------- placing layouts
static bool layout(Rng& r, ShapeV& d, bool neg, int pad, bool broadcast) {
  if (broadcast)
    for (auto& x : d) if (x[2] == UNR && r.chance(40)) x[2] = 0;
  ShapeV e = d;
  for (int t = 0; t < 6; t++) {
    d = e;
    bool ok = rand_strides(r, d, neg, pad);
    if ((ok || broadcast) && vfmax(d) - vfmin(d) < 300) return true;
  }
  return false;
}
template <class T> T* place(const ShapeV& d) {
  long lo = vsize(d) ? vfmin(d) : 0, hi = vsize(d) ? vfmax(d) : 0;
  if (brk_<T>() + hi - lo + 4 > POOL / 2) return nullptr;
  T* p = pool<T>() + brk_<T>() - lo;
  brk_<T>() += hi - lo + 1 + 3;
  return p;
}
template <class S> ShapeV grow(Rng& r, const ShapeV& inner, bool& ok) {
  ShapeV st = static_v<S>(), v;
  ok = true;
  for (size_t i = 0; i < st.size(); i++) {
    long lo = inner[i][0], hi = inner[i][0] + inner[i][1];
    bool e = inner[i][1] == 0;
    if (e && r.chance(30)) { lo = r.in(-3, 3); hi = lo; }
    long mn = st[i][0] != DYN ? st[i][0] : lo - (r.chance(50) ? 0 : r.in(0, 2));
    long ex = st[i][1] != DYN ? st[i][1] : std::max(0l, hi - mn) + (r.chance(50) ? 0 : r.in(0, 2));
    if (!e && (mn > lo || mn + ex < hi)) ok = false;
    v.push_back({mn, ex, st[i][2]});
  }
  return v;
}
template <class S, class Rf> V vobs(const Rf& v) {
  bool null = v.base() == nullptr;
  E e;
  e("null", null)("b", null ? 0 : rel(v.base()))("st", static_v<S>())("dims", shape_v(v.shape()));
  return e.obj();
}
template <class Rf> void announce(const Rf& v) {
  using S = std::decay_t<decltype(v.shape())>;
  bool null = v.base() == nullptr;
  emit(E("view")("null", null)("b", null ? 0 : rel(v.base()))("st", static_v<S>())("dims", shape_v(v.shape())));
}
template <class T> std::vector<long> cells(long n) {
  std::vector<long> m;
  for (long i = 0; i < n; i++) m.push_back(val(pool<T>()[i]));
  return m;
}
template <class T> void refill(long n) { for (long i = 0; i < n; i++) put(pool<T>()[i], 7000 + i); }

// ---------------------------------------------------------------- copies and moves
#if MODE < 2
static long cellsN = 0;
template <class F> void transfer(const char* how, F&& f) {
  pending(how);
  emit(E("begin")("how", how)("src", 1)("dst", 2));
  Tr::logging() = !quiet;
  f();
  Tr::logging() = false;
  emit(E("tend")("mem", cells<El>(cellsN)));
}
static void again() {
  refill<El>(cellsN);
  std::vector<std::vector<long>> at;
  for (long i = 0; i < cellsN; i++) at.push_back({i, 7000 + i});
  emit(E("store")("at", at));
}
template <class A> std::enable_if_t<A::rank() >= 0, std::vector<long>> values(const A& a) {
  std::vector<IdxV> xs; all_idx(shape_v(a.shape()), xs);
  std::vector<long> v;
  for (auto& x : xs) v.push_back(val(a[idx_tuple<A::rank()>(x)]));
  return v;
}
struct any { template <class T> any(const T&) {} };
template <class A> void made(const char* how, const char* kind, const A& a, const V& st = {}, const V& arg = {}, size_t allocs = 0) {
  using S = typename A::shape_type;
  (void)allocs;
  bool null = a.base() == nullptr;
  std::vector<long> block = null ? std::vector<long>{0, 0} : std::vector<long>{rel((const El*)last_alloc().p), (long)last_alloc().n};
  emit(E("made")("how", how)("kind", kind)("src", 1)("res", vobs<S>(a))("st", st)("arg", arg)("block", block)("vals", values(a))
       ("mem", cells<El>(cellsN)));
}
static bool room(const ShapeV& d) { return brk_<El>() + 4 * (vsize(d) + 8) + 8 < cellsN; }
static bool room2(const ShapeV& d) { return vsize(d) == 0 || brk_<El>() + vfmax(d) - vfmin(d) + 8 < cellsN; }

template <class Src, class Dst>
void copies(Rng& r, Src& src, Dst& dst, bool moves, const ShapeV& sd, const ShapeV& dd, bool one) {
  using S = std::decay_t<decltype(src.shape())>;
  using D = std::decay_t<decltype(dst.shape())>;
  int n = (int)r.in(2, 4);
  for (int k = 0; k < n; k++) {
    int w = (int)r.in(0, moves ? 8 : 4);
    if (w <= 1) transfer("copy", [&] { nda::copy(src, dst); });
    else if (w == 2) {
      auto cs = src.cref();
      transfer("copy", [&] { nda::copy(cs, dst); });
    } else if (w == 3) {
      // a new array, of a given shape or the same or compact
      int kind = (int)r.in(0, 2);
      if (kind == 0) {
        if (!room2(dd)) continue;
        D shp = make_shape_of<D>(dd);
        if (r.chance(50)) { auto a = nda::make_copy(src, shp, pool_alloc<El>()); made("copy", "shape", a, static_v<D>(), dd); }
        else { auto a = nda::make_copy(src.cref(), shp, other_alloc<El>()); made("copy", "shape", a, static_v<D>(), dd); }
      } else if (kind == 1) {
        if (!room2(sd) || !one) continue;
        if (r.chance(50)) { auto a = nda::make_copy(src, pool_alloc<El>()); made("copy", "same", a); }
        else { auto a = nda::make_copy(src.ref(), other_alloc<El>()); made("copy", "same", a); }
      } else {
        if (!room(sd)) continue;
        auto a = nda::make_compact_copy(src, pool_alloc<El>());
        made("copy", "compact", a);
      }
    } else if (w == 4) {
      if (std::is_same<El, Pod8>::value) continue;   // is not read as another type
      // destination of another element type, source elements read as int
      if (vsize(dd) && vfmax(dd) - vfmin(dd) > 300) continue;
      long lo = vsize(dd) ? vfmin(dd) : 0, hi = vsize(dd) ? vfmax(dd) : 0;
      std::vector<double> buf(hi - lo + 5);
      std::vector<long> before, after;
      for (size_t i = 0; i < buf.size(); i++) { buf[i] = 100 + (double)i; before.push_back(100 + (long)i); }
      nda::array_ref<double, D> dr(buf.data() + 2 - lo, make_shape_of<D>(dd));
      auto si = nda::reinterpret<typename bits<El>::type>(src);
      if (r.chance(50)) nda::copy(si, dr); else if (moves) nda::move(si, dr); else nda::copy(si, dr);
      for (double x : buf) after.push_back((long)x);
      E d; d("null", false)("b", 2 - lo)("st", static_v<D>())("dims", dd);
      emit(E("conv")("src", 1)("d", d.obj())("before", before)("after", after)("mem", cells<El>(cellsN)));
    } else if (w <= 6) {
      again();
      transfer("move", [&] { nda::move(src, dst); });
      again();
    } else {
      again();
      int kind = (int)r.in(0, 1);
      if (kind == 0) {
        if (!room2(dd)) continue;
        D shp = make_shape_of<D>(dd);
        auto a = nda::make_move(src, shp, pool_alloc<El>());
        made("move", "shape", a, static_v<D>(), dd);
      } else {
        if (!room(sd)) continue;
        auto a = nda::make_compact_move(src, pool_alloc<El>());
        made("move", "compact", a);
      }
      again();
    }
  }
}

static void start(const char* kind, long n) {
  begin_session(kind);
  cellsN = n;
  refill<El>(n);
  emit(E("start")("n", n)("fill", 0)("quiet", quiet));
}

template <class S, class D> void session(Rng& r, const ShapeV& sd, const ShapeV& dd, long room, int how, bool one) {
  brk_<El>() = 2;
  auto sref = [&](auto&& next) {
    if (how & 1) {
      nda::array<El, S, pool_alloc<El>> a(make_shape_of<S>(sd));
      next(a);
    } else {
      El* p = vsize(sd) == 0 && r.chance(30) ? nullptr : place<El>(sd);
      if (!p && vsize(sd)) return;
      nda::array_ref<El, S> a(p, make_shape_of<S>(sd));
      next(a);
    }
  };
  auto dref = [&](auto&& next) {
    if (how & 2) {
      nda::array<El, D, pool_alloc<El>> a(make_shape_of<D>(dd));
      next(a);
    } else {
      El* p = vsize(dd) == 0 && r.chance(30) ? nullptr : place<El>(dd);
      if (!p && vsize(dd)) return;
      nda::array_ref<El, D> a(p, make_shape_of<D>(dd));
      next(a);
    }
  };
  sref([&](auto& s) {
    dref([&](auto& d) {
      if (brk_<El>() + room > POOL) return;
      start("transfer", brk_<El>() + room);
      announce(s); announce(d);
      copies(r, s, d, one, shape_v(s.shape()), shape_v(d.shape()), one);
      end_session();
    });
  });
}
// The same order of dimensions on both sides, with gaps between some of them:
// where one side is contiguous, the other may not be.
static bool alike(Rng& r, ShapeV& s, ShapeV& d) {
  ShapeV s0 = s, d0 = d;
  std::vector<size_t> order;
  for (size_t i = 0; i < d.size(); i++) order.push_back(i);
  if (r.chance(50)) for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.in(0, (long)i - 1)]);
  int sp = (int)r.in(0, 60), dp = (int)r.in(0, 60);
  bool down = r.chance(15);
  long a = 1, b = 1;
  for (size_t i : order) {
    if (r.chance(sp)) a += r.in(1, 3);
    if (r.chance(dp)) b += r.in(1, 3);
    if (s[i][2] == UNR) s[i][2] = down ? -a : a;
    if (d[i][2] == UNR) d[i][2] = down ? -b : b;
    a = std::abs(s[i][2]) * std::max(1l, s[i][1]);
    b = std::abs(d[i][2]) * std::max(1l, d[i][1]);
  }
  if (vone2one(s) && vone2one(d) && vfmax(s) - vfmin(s) < 300 && vfmax(d) - vfmin(d) < 300) return true;
  s = s0; d = d0;
  return false;
}
template <class S, class D> void random_pair(Rng& r) {
  for (int t = 0; t < 60; t++) {
    ShapeV dd = rand_bounds(r, static_v<D>(), rand_maxext(r, D::rank()), 6);
    bool ok;
    ShapeV sd = grow<S>(r, dd, ok);
    if (!ok) continue;
    bool neg = r.chance(60), bc = r.chance(15);
    int pad = r.chance(40) ? 0 : 40;
    bool al = r.chance(40) && alike(r, sd, dd);
    if (!al && !layout(r, dd, neg, pad, false)) continue;
    // Sometimes the same layout on both sides.
    ShapeV same = static_v<S>();
    bool like = r.chance(35);
    for (size_t i = 0; i < same.size() && like; i++)
      for (int q = 0; q < 3; q++) like = like && (same[i][q] == DYN || same[i][q] == dd[i][q]);
    if (al) {}
    else if (like) sd = dd;
    else if (!layout(r, sd, neg, pad, bc)) continue;
    bool one = vone2one(sd);
    int how = (int)r.in(0, 3);
    if (!one) how &= 2;   // an array with a broadcast layout has no values of its own
    session<S, D>(r, sd, dd, 400, how, one);
    return;
  }
}
// Every mix of dimensions which continue the previous one in memory or do not,
// and are copied in full or in part.
template <size_t R> void partly(Rng& r) {
  for (int t = 0; t < 20; t++) {
    ShapeV sd, dd;
    for (size_t i = 0; i < R; i++) {
      long mn = r.in(-2, 2), ex = r.chance(85) ? r.in(2, R > 4 ? 2 : 3) : 1, lo = r.chance(60) ? 0 : r.in(0, 1), hi = lo || r.chance(60) ? 0 : 1;
      dd.push_back({mn, ex, UNR}); sd.push_back({mn - lo, ex + lo + hi, UNR});
    }
    if (!alike(r, sd, dd)) continue;
    session<nda::shape_of_rank<R>, nda::shape_of_rank<R>>(r, sd, dd, 30, (int)r.in(0, 3), true);
    return;
  }
}
// Source and destination interleaved in one buffer: two disjoint slices of one layout.
template <size_t R> void interleaved(Rng& r) {
  using P = nda::shape_of_rank<R + 1>;
  ShapeV pd = rand_bounds(r, static_v<P>(), 3, 0);
  pd[0][1] = 2 + r.in(0, 1);
  if (!layout(r, pd, true, 30, false)) return;
  brk_<El>() = 2;
  El* p = place<El>(pd);
  if (!p) return;
  long c1 = pd[0][0], c2 = pd[0][0] + 1 + r.in(0, pd[0][1] - 2);
  if (r.chance(50)) std::swap(c1, c2);
  ShapeV q(pd.begin() + 1, pd.end());
  using S = nda::shape_of_rank<R>;
  nda::array_ref<El, S> s(p + (c1 - pd[0][0]) * pd[0][2], make_shape_of<S>(q));
  nda::array_ref<El, S> d(p + (c2 - pd[0][0]) * pd[0][2], make_shape_of<S>(q));
  start("interleaved", brk_<El>() + 60);
  announce(s); announce(d);
  transfer("copy", [&] { nda::copy(s, d); });
  again();
  transfer("move", [&] { nda::move(s, d); });
  end_session();
}
#endif

// ---------------------------------------------------------------- comparisons
#if MODE == 2
static long na() { return POOL / 2; }
// The memory of a session: cells of ints, then cells of doubles.
static std::vector<long> both() {
  std::vector<long> m = cells<int>(brk_<int>());
  m.resize(na(), 0);
  for (long x : cells<double>(brk_<double>())) m.push_back(x);
  return m;
}
static void put_at(long o, long v) {
  if (o >= na()) put(pool<double>()[o - na()], v); else put(pool<int>()[o], v);
}
static long get_at(long o) { return o >= na() ? val(pool<double>()[o - na()]) : val(pool<int>()[o]); }
static void store1(long o, long v) {
  put_at(o, v);
  emit(E("store")("at", std::vector<std::vector<long>>{{o, v}}));
}
template <class A, class B> std::enable_if_t<std::is_same<std::decay_t<A>, std::decay_t<B>>::value>
same_eq(E& e, const A& a, const B& b) { e("same", true)("eq", a == b)("ne", a != b); }
template <class A, class B> std::enable_if_t<!std::is_same<std::decay_t<A>, std::decay_t<B>>::value>
same_eq(E& e, const A&, const B&) { e("same", false); }
static int flip = 0;
// A view against itself: the same memory on both sides.
template <class A> void self_compare(const A& a, long id, int how) {
  auto r1 = a.cref(); auto r2 = a.cref();
  E e("eq");
  e("a", id)("b", id)("equal", how % 3 == 0 ? nda::equal(a, a) : how % 3 == 1 ? nda::equal(r1, r2) : nda::equal(r1, a));
  if (how % 2) same_eq(e, r1, r2); else same_eq(e, a, a);
  emit(e);
}
template <class A, class B> void self_compare(const A& a, const B& b) {
  pending("equal, same memory");
  for (int h = 0; h < 2; h++) { self_compare(a, 1, flip + h); self_compare(b, 2, flip + h); }
}
// Two views of the same memory with the same bounds but other strides, or a moved base.
template <class A> void overlap_compare(Rng& r, const A& a, const ShapeV& ad, long base, long limit, long first, long& views) {
  constexpr size_t R = A::rank();
  if (vsize(ad) == 0 || R == 0) return;
  using DS = nda::shape_of_rank<R>;
  using T = std::remove_const_t<typename A::value_type>;
  T* p = const_cast<T*>(a.base());
  pending("equal, overlapping memory");
  std::vector<IdxV> xs; all_idx(ad, xs);
  long keep = xs.empty() ? 0 : get_at(base + voff(ad, xs[0]));
  for (int t = 0; t < 3; t++) {
    ShapeV cd = ad;
    long off = 0;
    size_t i = (size_t)r.in(0, (long)R - 1), j = (size_t)r.in(0, (long)R - 1);
    switch (r.in(0, 4)) {
    case 0: std::swap(cd[i][2], cd[j][2]); break;
    case 1: cd[i][2] = 0; break;
    case 2: off = (cd[i][1] - 1) * cd[i][2]; cd[i][2] = -cd[i][2]; break;
    case 3: off = r.in(-1, 1); break;
    default: cd[i][2] += r.in(0, 1) ? 1 : -1; break;
    }
    if (base + off + vfmin(cd) < first || base + off + vfmax(cd) >= limit) continue;
    nda::array_ref<T, DS> c(p + off, make_shape_of<DS>(cd)), d(p, make_shape_of<DS>(ad));
    announce(c); announce(d);
    long ci = ++views, di = ++views;
    for (int round = 0; round < 3; round++) {
      if (round) {   // all elements equal, then one of them not
        std::vector<std::vector<long>> at;
        if (round == 1) for (auto& x : xs) at.push_back({base + voff(ad, x), keep});
        else at.push_back({base + voff(ad, xs[r.in(0, (long)xs.size() - 1)]), keep + 1});
        for (auto& q : at) put_at(q[0], q[1]);
        emit(E("store")("at", at));
      }
      E e("eq"), f("eq");
      e("a", di)("b", ci)("equal", nda::equal(d, c));
      same_eq(e, d, c);
      emit(e);
      f("a", ci)("b", 1)("equal", nda::equal(c, a));
      f("same", false);
      emit(f);
    }
  }
}
template <class A, class B> void compare(const A& a, const B& b) {
  pending("equal");
  {
    E e("eq");
    e("a", 1)("b", 2)("equal", nda::equal(a, b));
    same_eq(e, a, b);
    emit(e);
  }
  if (flip++ % 3 == 0) {
    E e("eq");
    e("a", 2)("b", 1)("equal", nda::equal(b.cref(), a.cref()));
    same_eq(e, b.cref(), a.cref());
    emit(e);
  }
}
template <class A, class B> void eq_session(Rng& r, A& a, B& b, const ShapeV& ad, const ShapeV& bd) {
  using TA = std::remove_const_t<typename A::value_type>; using TB = std::remove_const_t<typename B::value_type>;
  begin_session("equal");
  for (long i = 0; i < brk_<int>(); i++) put(pool<int>()[i], 7000 + i);
  for (long i = 0; i < brk_<double>(); i++) put(pool<double>()[i], 7000 + na() + i);
  emit(E("start")("n", na() + brk_<double>())("fill", 0)("quiet", true));
  // The cells past the used ints are not looked at; make them what `start` says.
  for (long i = brk_<int>(); i < na(); i++) put(pool<int>()[i], 7000 + i);
  announce(a); announce(b);
  auto dump = [&] {
    std::vector<long> m = cells<int>(na());
    for (long x : cells<double>(brk_<double>())) m.push_back(x);
    emit(E("mem")("mem", m));
  };
  auto oa = [&](const IdxV& x) { return rel((const TA*)a.base()) + voff(ad, x); };
  auto ob = [&](const IdxV& x) { return rel((const TB*)b.base()) + voff(bd, x); };
  std::vector<IdxV> xs, ys; all_idx(ad, xs); all_idx(bd, ys);
  compare(a, b);
  // make the corresponding elements equal (position by position when the bounds differ)
  std::vector<std::vector<long>> at;
  long base = r.in(1, 50);
  for (size_t k = 0; k < xs.size() && k < ys.size(); k++) {
    long v = base + (long)k;
    at.push_back({oa(xs[k]), v}); at.push_back({ob(ys[k]), v});
    put_at(oa(xs[k]), v); put_at(ob(ys[k]), v);
  }
  for (auto& c : at) c[1] = get_at(c[0]);
  emit(E("store")("at", at));
  compare(a, b);
  if (!ys.empty() && !xs.empty()) {
    for (int t = 0; t < 4; t++) {
      bool first = r.chance(50);
      size_t pick = t == 0 ? 0 : t == 1 ? (first ? xs : ys).size() - 1 : (size_t)r.in(0, (long)(first ? xs : ys).size() - 1);
      long o = first ? oa(xs[pick]) : ob(ys[pick]);
      long old = get_at(o);
      store1(o, r.chance(50) ? old + 1 : old - 1000);
      compare(a, b);
      store1(o, old);
    }
    compare(a, b);
    for (int t = 0; t < 2; t++) {
      // not an element: any other cell
      std::vector<long> pads;
      for (long o = 0; o < brk_<int>(); o++) pads.push_back(o);
      for (long o = 0; o < brk_<double>(); o++) pads.push_back(na() + o);
      std::vector<long> used;
      for (auto& x : xs) used.push_back(oa(x));
      for (auto& x : ys) used.push_back(ob(x));
      std::sort(used.begin(), used.end());
      std::vector<long> free_;
      for (long o : pads) if (!std::binary_search(used.begin(), used.end(), o)) free_.push_back(o);
      if (free_.empty()) break;
      store1(free_[r.in(0, (long)free_.size() - 1)], 4242 + t);
      compare(a, b);
    }
    if (std::is_same<TA, double>::value || std::is_same<TB, double>::value) {
      size_t k = (size_t)r.in(0, (long)std::min(xs.size(), ys.size()) - 1);
      long o1 = oa(xs[k]), o2 = ob(ys[k]), old = get_at(o1), old2 = get_at(o2);
      if (o1 >= na()) store1(o1, NANV); else store1(o1, 5);
      if (o2 >= na()) store1(o2, NANV); else store1(o2, 5);
      compare(a, b);
      flip++;
      self_compare(a, b);
      store1(o1, 0); store1(o2, o2 >= na() ? NEGZ : 0);
      compare(a, b);
      store1(o1, old); store1(o2, old2);
      compare(a, b);
    }
  }
  self_compare(a, b);
  if (r.chance(50)) {
    long views = 2;
    if (std::is_same<TA, double>::value) overlap_compare(r, a, ad, rel((const TA*)a.base()), na() + brk_<double>(), na(), views);
    else overlap_compare(r, a, ad, rel((const TA*)a.base()), brk_<int>(), 0, views);
  }
  dump();
  end_session();
}
template <class T, class S, class F> void operand(Rng& r, const ShapeV& d, int how, F&& f) {
  if (how == 0) {
    nda::array<T, S, pool_alloc<T>> a(make_shape_of<S>(d));
    f(a);
  } else {
    T* p = vsize(d) == 0 && r.chance(40) ? nullptr : place<T>(d);
    if (!p && vsize(d)) return;
    if (how == 1) { nda::array_ref<T, S> a(p, make_shape_of<S>(d)); f(a); }
    else { nda::array_ref<const T, S> a(p, make_shape_of<S>(d)); f(a); }
  }
}
template <class S, class D, class TA, class TB> void eq_pair(Rng& r) {
  for (int t = 0; t < 60; t++) {
    ShapeV ad = rand_bounds(r, static_v<S>(), rand_maxext(r, S::rank()), 6), bd = static_v<D>();
    int kind = (int)r.in(0, 5);    // mostly equal bounds
    bool ok = true;
    for (size_t i = 0; i < bd.size(); i++) {
      if (bd[i][0] == DYN) bd[i][0] = ad[i][0]; else if (bd[i][0] != ad[i][0] && kind > 1) ok = false;
      if (bd[i][1] == DYN) bd[i][1] = ad[i][1]; else if (bd[i][1] != ad[i][1] && kind > 1) ok = false;
      if (bd[i][2] == DYN) bd[i][2] = UNR;
    }
    if (!ok && t < 40) continue;
    ShapeV st = static_v<D>();
    if (kind == 0 && !bd.empty()) {          // other mins
      size_t i = (size_t)r.in(0, (long)bd.size() - 1);
      if (st[i][0] == DYN) bd[i][0] += r.in(0, 1) ? 1 : -1;
    } else if (kind == 1 && !bd.empty()) {   // other extents, perhaps of the same product
      if (bd.size() > 1 && r.chance(60)) {
        size_t i = (size_t)r.in(0, (long)bd.size() - 2);
        if (st[i][1] == DYN && st[i + 1][1] == DYN) std::swap(bd[i][1], bd[i + 1][1]);
      } else {
        size_t i = (size_t)r.in(0, (long)bd.size() - 1);
        if (st[i][1] == DYN) bd[i][1] += 1;
      }
    }
    bool neg = r.chance(60);
    if (!layout(r, ad, neg, 40, false)) continue;
    if (r.chance(30) && st == static_v<S>() && kind > 1) bd = ad;   // equal strides too
    else if (!layout(r, bd, neg, 40, false)) continue;
    brk_<int>() = 2; brk_<double>() = 2;
    bool arr = r.chance(30);
    bool refs = r.chance(60);
    if (arr) operand<TA, S>(r, ad, 0, [&](auto& a) { operand<TB, D>(r, bd, 0, [&](auto& b) {
      if (brk_<int>() > na() || brk_<double>() > na()) return; eq_session(r, a, b, ad, bd); }); });
    else if (refs) operand<TA, S>(r, ad, 1, [&](auto& a) { operand<TB, D>(r, bd, 1, [&](auto& b) { eq_session(r, a, b, ad, bd); }); });
    else operand<TA, S>(r, ad, r.chance(50) ? 0 : 1, [&](auto& a) { operand<TB, D>(r, bd, r.chance(50) ? 0 : 2, [&](auto& b) {
      if (brk_<int>() > na() || brk_<double>() > na()) return; eq_session(r, a, b, ad, bd); }); });
    return;
  }
}
#endif

// ---------------------------------------------------------------- pairs
template <class A, class B> struct pr { using s = A; using d = B; };
template <size_t R> using dy = nda::shape_of_rank<R>;
template <size_t R> using ds = nda::dense_shape<R>;
#if PART == 0
using pairs = list<pr<shape<>, shape<>>, pr<dy<1>, dy<1>>, pr<ds<1>, dy<1>>, pr<dy<1>, ds<1>>, pr<shape<strided_dim<2>>, nda::vector_shape<5>>,
  pr<shape<dim<-3, 9, -2>>, shape<dim<-1, dyn, dyn>>>, pr<shape<dim<dyn, 4>>, nda::fixed_dense_shape<4>>, pr<nda::fixed_dense_shape<4>, shape<dim<2, 2, 3>>>>;
#elif PART == 1
using pairs = list<pr<dy<2>, dy<2>>, pr<ds<2>, ds<2>>, pr<ds<2>, nda::matrix_shape<>>, pr<nda::matrix_shape<>, dy<2>>, pr<nda::matrix_shape<3, 3>, nda::matrix_shape<2, 3>>,
  pr<nda::matrix_shape<nda::dynamic, 3>, nda::matrix_shape<nda::dynamic, 3>>>;
#elif PART == 2
using pairs = list<pr<dy<2>, shape<dim<>, dim<1, 3>>>, pr<shape<strided_dim<3>, dense_dim<0, 3>>, nda::fixed_dense_shape<3, 2>>,
  pr<nda::fixed_dense_shape<3, 3>, shape<dim<0, 2, 3>, dim<0, 3, 1>>>, pr<shape<dim<-2>, dim<dyn, dyn, -4>>, dy<2>>,
  pr<shape<dense_dim<>, fixed_dim<3>>, ds<2>>, pr<nda::matrix_shape<>, shape<dim<1, 2, -1>, dim<-1, dyn, dyn>>>>;
#elif PART == 3
using pairs = list<pr<dy<3>, dy<3>>, pr<nda::planar_image_shape, nda::chunky_image_shape<3>>, pr<nda::chunky_image_shape<3>, nda::planar_image_shape>,
  pr<nda::chunky_image_shape<>, nda::chunky_image_shape<>>, pr<ds<3>, ds<3>>>;
#elif PART == 4
using pairs = list<pr<nda::chunky_image_shape<3, 4>, nda::chunky_image_shape<nda::dynamic, 4>>, pr<nda::fixed_dense_shape<2, 3, 2>, dy<3>>,
  pr<dy<3>, shape<dim<>, dim<0, 2>, dim<-1, dyn, dyn>>>, pr<shape<dim<dyn, 3, dyn>, dense_dim<1, dyn>, dim<0, 2, dyn>>, ds<3>>, pr<ds<3>, nda::fixed_dense_shape<2, 3, 2>>>;
#else
using pairs = list<pr<dy<4>, dy<4>>, pr<ds<4>, nda::fixed_dense_shape<2, 2, 1, 2>>, pr<shape<dim<>, dense_dim<0, 2>, dim<dyn, 3>, dim<-1>>, dy<4>>, pr<ds<4>, ds<4>>,
  pr<dy<5>, ds<5>>, pr<ds<6>, ds<6>>>;
#endif

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r((uint64_t)a.num("seed", 1) * 6151 + 11);
  long n = a.num("n", 4);
  (void)pool<int>(); (void)n;
#if MODE == 0
  if (!a.str("plan").empty())
    for (const J& p : read_plan(a.str("plan").c_str())) {
      ShapeV s, d;
      for (auto& x : p["src"].a) s.push_back(x.longs());
      for (auto& x : p["dst"].a) d.push_back(x.longs());
      bool one = vone2one(s);
      int how = one ? (int)r.in(0, 3) : (int)r.in(0, 1) * 2;
      if (s.size() == 2) session<dy<2>, dy<2>>(r, s, d, 40, how, one);
      else session<dy<3>, dy<3>>(r, s, d, 60, how, one);
    }
  for (long k = 0; k < n; k++) {
    random_pair<dy<1>, dy<1>>(r); random_pair<dy<2>, dy<2>>(r); random_pair<dy<3>, dy<3>>(r); random_pair<dy<4>, dy<4>>(r);
    if (k % 2 == 0) random_pair<dy<5>, dy<5>>(r); else if (k % 4 == 1) random_pair<dy<6>, dy<6>>(r);
    interleaved<1>(r); interleaved<2>(r); interleaved<3>(r);
    for (int t = 0; t < 6; t++) { partly<3>(r); partly<4>(r); }
    partly<2>(r); partly<5>(r);
  }
#elif MODE == 1
  for (long k = 0; k < n; k++)
    for_list(pairs{}, [&](auto t) { using P = typename decltype(t)::type; random_pair<typename P::s, typename P::d>(r); });
#else
  for (long k = 0; k < n; k++)
    for_list(pairs{}, [&](auto t) {
      using P = typename decltype(t)::type;
      eq_pair<typename P::s, typename P::s, int, int>(r);
      eq_pair<typename P::s, typename P::d, int, double>(r);
      eq_pair<typename P::d, typename P::d, double, double>(r);
    });
#endif
  finish_out();
  return 0;
}
