// C15: Einstein reductions. Operands live in one arena; with elements of type Num every assignment
// is reported, together with the calls of callable operands made before it.
#include "menu.h"
#include "array/ein_reduce.h"
#include <memory>
using namespace nd;
using nda::index_t;
#ifndef PART
#define PART 0
#endif

constexpr long ARENA = 150;

namespace el {
struct Num {
  int v;
  Num() : v(0) {}
  Num(int x) : v(x) {}
  Num(const Num& o) : v(o.v) {}
  inline Num& operator=(const Num& o);
  inline Num& operator+=(const Num& o);
  inline Num& operator-=(const Num& o);
  inline Num& operator*=(const Num& o);
  // Numbers are worth what they are worth as Num: a detour over another type loses the value.
  template <class A, class = std::enable_if_t<std::is_arithmetic<A>::value>>
  explicit operator A() const { return (A)(2 * v + 77); }
};
struct Num8 {
  int v;
  explicit Num8(const Num& n) : v((int8_t)n.v) {}
  operator Num() const { return Num(v); }
};
inline Num operator+(const Num& a, const Num& b) { return Num(a.v + b.v); }
inline Num operator-(const Num& a, const Num& b) { return Num(a.v - b.v); }
inline Num operator*(const Num& a, const Num& b) { return Num(a.v * b.v); }
inline Num operator/(const Num& a, const Num& b) { return Num(b.v ? a.v / b.v : 424242); }
inline Num operator-(const Num& a) { return Num(-a.v); }
inline bool operator<(const Num& a, const Num& b) { return a.v < b.v; }
inline bool operator>(const Num& a, const Num& b) { return a.v > b.v; }
}
using el::Num; using el::Num8;

template <class T> struct is_ref : std::false_type {};
template <class T, class S> struct is_ref<nda::array_ref<T, S>> : std::true_type {};
template <class T> T* arena() { static T* p = (T*)calloc(ARENA + 8, sizeof(T)); return p; }
template <class T> long rel(const T* p) {
  long d = (const char*)p - (const char*)arena<T>();
  return d % (long)sizeof(T) ? BIG : d / (long)sizeof(T);
}
static long val(const Num& n) { return n.v; }
static long val(int n) { return n; }
static long val(double n) { return (long)n; }
static void put(Num& n, long v) { n.v = (int)v; }
static void put(int& n, long v) { n = (int)v; }
static void put(double& n, long v) { n = (double)v; }

// What the code does while a statement runs.
struct Log {
  bool on = false;
  std::vector<std::vector<long>> calls;   // since the last assignment: {id, args...}
  std::vector<E> evs;
};
static Log& lg() { static Log l; return l; }
static V take_calls() {
  std::string s = "[";
  for (auto& c : lg().calls) {
    if (s.size() > 1) s += ",";
    s += "[" + std::to_string(c[0]) + "," + V(std::vector<long>(c.begin() + 1, c.end())).s + "]";
  }
  lg().calls.clear();
  return V::raw(s + "]");
}
static void stored(const Num* n) {
  if (!lg().on) return;
  long d = rel(n);
  if (d < 0 || d >= ARENA) return;   // a temporary
  lg().evs.push_back(E("asg")("d", d)("v", (long)n->v)("calls", take_calls()));
}
Num& Num::operator=(const Num& o) { v = o.v; stored(this); return *this; }
Num& Num::operator+=(const Num& o) { v += o.v; stored(this); return *this; }
Num& Num::operator-=(const Num& o) { v -= o.v; stored(this); return *this; }
Num& Num::operator*=(const Num& o) { v *= o.v; stored(this); return *this; }

static long& brk_() { static long b = 0; return b; }
static AllocRec& last() { static AllocRec r; return r; }
template <class T> struct arena_alloc {
  using value_type = T;
  arena_alloc() {}
  template <class U> arena_alloc(const arena_alloc<U>&) {}
  T* allocate(size_t n) {
    if (brk_() + (long)n + 1 > ARENA) { T* p = (T*)calloc(n, sizeof(T)); last() = {p, n}; return p; }
    T* p = arena<T>() + brk_(); brk_() += (long)n + 1; last() = {p, n};
    return p;
  }
  void deallocate(T*, size_t) {}
  friend bool operator==(const arena_alloc&, const arena_alloc&) { return true; }
  friend bool operator!=(const arena_alloc&, const arena_alloc&) { return false; }
};

// ---------------------------------------------------------------- expressions with their description
template <class Ex> struct W { Ex e; std::string j; };
template <class Ex> W<Ex> mk(Ex e, const std::string& j) { return {e, j}; }
static std::string jbin(const char* f, const std::string& a, const std::string& b) {
  return std::string("{\"k\":\"bin\",\"f\":\"") + f + "\",\"a\":" + a + ",\"b\":" + b + "}";
}
static std::string jun(const char* f, const std::string& a) {
  return std::string("{\"k\":\"un\",\"f\":\"") + f + "\",\"a\":" + a + "}";
}
template <class A, class B> auto operator+(const W<A>& a, const W<B>& b) { return mk(a.e + b.e, jbin("add", a.j, b.j)); }
template <class A, class B> auto operator-(const W<A>& a, const W<B>& b) { return mk(a.e - b.e, jbin("sub", a.j, b.j)); }
template <class A, class B> auto operator*(const W<A>& a, const W<B>& b) { return mk(a.e * b.e, jbin("mul", a.j, b.j)); }
template <class A, class B> auto operator/(const W<A>& a, const W<B>& b) { return mk(a.e / b.e, jbin("div", a.j, b.j)); }
template <class A> auto operator-(const W<A>& a) { return mk(-a.e, jun("neg", a.j)); }
template <class A, class B> auto wmin(const W<A>& a, const W<B>& b) { return mk(min(a.e, b.e), jbin("min", a.j, b.j)); }
template <class A, class B> auto wmax(const W<A>& a, const W<B>& b) { return mk(nda::max(a.e, b.e), jbin("max", a.j, b.j)); }
template <class T> struct small { using type = int8_t; };
template <> struct small<Num> { using type = Num8; };
template <class T, class A> auto wcast(const W<A>& a) { return mk(nda::cast<typename small<T>::type>(a.e), jun("cast", a.j)); }

struct Fn {     // a callable operand
  long id, c0; std::array<long, 4> c;
  template <class T> struct of;
};
template <class T> struct FnT {
  long id, c0; std::array<long, 4> c;
  template <class... I> T operator()(I... i) const {
    std::vector<long> a{(long)i...};
    long v = c0;
    for (size_t k = 0; k < a.size(); k++) v += c[k] * a[k];
    if (lg().on) { a.insert(a.begin(), id); lg().calls.push_back(a); }
    return T((int)v);
  }
};
template <class T> struct RefT {   // a callable giving a reference
  long id, c0; std::array<long, 4> c;
  template <class... I> T& operator()(I... i) const {
    std::vector<long> a{(long)i...};
    long v = c0;
    for (size_t k = 0; k < a.size(); k++) v += c[k] * a[k];
    if (lg().on) { a.insert(a.begin(), id); lg().calls.push_back(a); }
    return arena<T>()[v];
  }
};

// ---------------------------------------------------------------- a case: bounds, operands, a statement
template <class T> struct Case {
  Rng& r;
  std::vector<std::array<long, 2>> bnd;   // of each loop index: min, extent
  int lay;                                // -1: random layouts
  bool ok = true;
  std::vector<bool> res;                  // indices the result uses
  int fill = 0;                           // which values the cells get
  long nid = 1;
  std::vector<std::array<long, 2>> used;
  std::vector<std::shared_ptr<void>> keep;

  Case(Rng& r, const J* plan) : r(r), bnd(8), lay(plan ? (int)(long)(*plan)["lay"] : -1), res(8, false) {
    for (size_t i = 0; i < bnd.size(); i++) {
      if (plan && i < 3) bnd[i] = {(*plan)["b"][i][0].n, (*plan)["b"][i][1].n};
      else bnd[i] = {r.chance(40) ? 0 : r.in(-3, 4), r.chance(10) ? 0 : r.in(1, 4)};
    }
    brk_() = 1;
  }
  void fix(size_t i, long mn, long ex) {
    if (mn != DYN) bnd[i][0] = mn;
    if (ex != DYN) bnd[i][1] = ex;
  }
  void cap(long m) { for (auto& b : bnd) b[1] = std::min(b[1], m); }

  template <class Shape, size_t... Is> ShapeV dims(bool result) {
    std::vector<size_t> is{Is...};
    ShapeV st = static_v<Shape>(), d;
    for (size_t j = 0; j < is.size(); j++) {
      long mn = bnd[is[j]][0], ex = bnd[is[j]][1];
      bool repeat = std::find(is.begin(), is.begin() + j, is[j]) != is.begin() + j;
      bool wider = result ? repeat : (res[is[j]] && r.chance(30));
      if (wider && ex > 0) {
        long lo = r.in(0, 1), hi = r.in(0, 2);
        if (st[j][0] == DYN && st[j][1] == DYN) { mn -= lo; ex += lo; }
        if (st[j][1] == DYN) ex += hi;
      }
      if ((st[j][0] != DYN && st[j][0] != mn) || (st[j][1] != DYN && st[j][1] < ex)) ok = false;
      if (st[j][1] != DYN && st[j][1] != ex) {
        if (!res[is[j]] || (result && !repeat)) ok = false;
        ex = st[j][1];
      }
      d.push_back({mn, ex, st[j][2] == DYN ? UNR : st[j][2]});
    }
    if (!ok) {   // this case is abandoned; the shape must still be valid
      for (size_t j = 0; j < is.size(); j++) d[j] = {st[j][0] != DYN ? st[j][0] : 0, st[j][1] != DYN ? st[j][1] : 0, st[j][2] != DYN ? st[j][2] : 1};
      return d;
    }
    strides(d, result);
    return d;
  }
  void strides(ShapeV& d, bool result) {
    if (lay >= 0 || result || r.chance(60)) {
      ShapeV e = d;
      int y = lay >= 0 ? lay : 9;
      if (y == 3 && result) y = 1;
      for (int t = 0; t < 8; t++) {
        d = e;
        if (y == 9) { if (rand_strides(r, d, true, 30)) return; continue; }
        long s = 1;
        size_t n = d.size();
        for (size_t q = 0; q < n; q++) {
          size_t j = y == 1 ? n - 1 - q : q;
          if (d[j][2] == UNR) d[j][2] = y == 3 ? 0 : y == 2 ? (q == 0 ? -s : 2 * s) : s;
          s *= std::max(1l, d[j][1]);
        }
        if (!result || vone2one(d)) return;
        y = 9;
      }
      if (result) ok = false;
    } else {
      // overlapping windows, broadcasts, anything
      for (auto& x : d) if (x[2] == UNR) x[2] = r.in(-3, 4);
    }
    for (auto& x : d) if (x[2] == UNR) x[2] = 1;
  }
  T* place(const ShapeV& d) {
    long lo = vsize(d) ? vfmin(d) : 0, hi = vsize(d) ? vfmax(d) : 0;
    if (!ok || brk_() + hi - lo + 2 > ARENA) { ok = false; return arena<T>(); }
    T* p = arena<T>() + brk_() - lo;
    used.push_back({brk_(), brk_() + hi - lo});
    brk_() += hi - lo + 1 + r.in(0, 2);
    return p;
  }
  template <class Rf> std::string jarr(const Rf& v, std::initializer_list<long> is) {
    using S = std::decay_t<decltype(v.shape())>;
    E e;
    e("k", "arr")("b", v.base() ? rel((const T*)v.base()) : 0)("st", static_v<S>())("dims", shape_v(v.shape()))("is", std::vector<long>(is));
    return e.obj().s;
  }
  // the result, and operands
  template <class Shape, size_t... Is> auto out() { return leaf<Shape, Is...>(true); }
  template <class Shape, size_t... Is> auto in() { return leaf<Shape, Is...>(false); }
  template <class Shape, size_t... Is> auto leaf(bool result) {
    std::vector<size_t> is{Is...};
    if (result) for (size_t i : is) res[i] = true;
    ShapeV d = dims<Shape, Is...>(result);
    if (ok && r.chance(35) && (lay < 0 || vone2one(d)) && vone2one(d)) {
      using Arr = nda::array<T, Shape, arena_alloc<T>>;
      long before = brk_();
      auto a = std::make_shared<Arr>(make_shape_of<Shape>(d));
      keep.push_back(a);
      if (brk_() >= ARENA || vfmax(d) - vfmin(d) > ARENA) ok = false;
      used.push_back({before, brk_() - 1});
      return mk(nda::ein<Is...>(*a), jarr(*a, {(long)Is...}));
    }
    nda::array_ref<T, Shape> v(place(d), make_shape_of<Shape>(d));
    return mk(nda::ein<Is...>(std::decay_t<decltype(v)>(v)), jarr(v, {(long)Is...}));
  }
  template <class Shape, size_t... Is> auto cin_() {
    ShapeV d = dims<Shape, Is...>(false);
    if (ok && r.chance(50) && vone2one(d)) {
      using Arr = nda::array<T, Shape, arena_alloc<T>>;
      long before = brk_();
      auto a = std::make_shared<const Arr>(make_shape_of<Shape>(d));
      keep.push_back(std::const_pointer_cast<Arr>(a));
      if (brk_() >= ARENA || vfmax(d) - vfmin(d) > ARENA) ok = false;
      used.push_back({before, brk_() - 1});
      return mk(nda::ein<Is...>(*a), jarr(*a, {(long)Is...}));
    }
    nda::array_ref<const T, Shape> v(place(d), make_shape_of<Shape>(d));
    return mk(nda::ein<Is...>(std::decay_t<decltype(v)>(v)), jarr(v, {(long)Is...}));
  }
  auto scalar() {
    ShapeV d;
    T* p = place(d);
    E e; e("k", "arr")("b", rel(p))("st", d)("dims", d)("is", std::vector<long>());
    return mk(nda::ein(*p), e.obj().s);
  }
  template <size_t I> auto ptr() {      // a pointer and a size
    bnd[I][0] = 0;
    ShapeV d{{0, bnd[I][1], 1}};
    T* p = place(d);
    E e; e("k", "arr")("b", rel(p))("st", ShapeV{{0, DYN, 1}})("dims", d)("is", std::vector<long>{(long)I});
    return mk(nda::ein<I>(p, (size_t)bnd[I][1]), e.obj().s);
  }
  template <size_t I, size_t N> auto carr() {   // a C array: the caller fixes the bounds of I first
    ShapeV d{{0, (long)N, 1}};
    if (bnd[I][0] != 0 || bnd[I][1] != (long)N) ok = false;
    T* p = place(d);
    using CA = T[N];
    E e; e("k", "arr")("b", rel(p))("st", d)("dims", d)("is", std::vector<long>{(long)I});
    return mk(nda::ein<I>(*reinterpret_cast<CA*>(p)), e.obj().s);
  }
  template <size_t... Is> auto fn() {
    FnT<T> f{nid++, r.in(1, 3), {r.in(-1, 2), r.in(-1, 1), r.in(0, 1), 1}};
    E e; e("k", "fn")("id", f.id)("c0", f.c0)("c", std::vector<long>(f.c.begin(), f.c.begin() + sizeof...(Is)))("is", std::vector<long>{(long)Is...});
    return mk(nda::ein<Is...>(f), e.obj().s);
  }
  template <size_t... Is> auto ref() {
    RefT<T> f{nid++, 0, {r.in(-2, 3), r.in(-2, 3), r.in(-1, 1), 1}};
    std::vector<size_t> is{Is...};
    long lo = 0, hi = 0, mins = 0;
    for (size_t j = 0; j < is.size(); j++) {
      mins += f.c[j] * bnd[is[j]][0];
      long w = f.c[j] * (std::max(1l, bnd[is[j]][1]) - 1);
      lo += std::min(0l, w); hi += std::max(0l, w);
    }
    if (brk_() + hi - lo + 2 > ARENA) ok = false;
    f.c0 = brk_() - lo - mins;
    used.push_back({brk_(), brk_() + hi - lo});
    brk_() += hi - lo + 1;
    E e; e("k", "ref")("id", f.id)("c0", f.c0)("c", std::vector<long>(f.c.begin(), f.c.begin() + sizeof...(Is)))("is", std::vector<long>{(long)Is...});
    return mk(nda::ein<Is...>(f), e.obj().s);
  }

  // ---- running
  std::vector<long> cells() { std::vector<long> m; for (long i = 0; i < ARENA; i++) m.push_back(val(arena<T>()[i])); return m; }
  void refill() {
    for (long i = 0; i < ARENA; i++) {
      long v = fill == 1 ? r.pick({1, -1, 2}) : fill == 2 ? r.pick({1, 2, 3, -1, -2, -3}) : fill == 3 ? r.in(-200, 200) : r.in(-4, 4);
      put(arena<T>()[i], v);
    }
  }
  static constexpr bool logged = std::is_same<T, Num>::value;
  template <class Rs> std::enable_if_t<is_ref<Rs>::value> result(E& e, const Rs& a) {
    e("rb", a.base() ? rel((const T*)a.base()) : 0)("rdims", shape_v(a.shape()));
  }
  template <class Rs> std::enable_if_t<!is_ref<Rs>::value> result(E& e, const Rs&) { e("rb", 0)("rdims", ShapeV()); }

  template <class L, class R, class X> void run(const char* f, const W<L>& lhs, const W<R>& rhs, const X& expr) {
    if (!ok) return;
    refill();
    begin_session("ein");
    emit(E("start")("mem", cells()));
    pending(std::string(f) + " " + lhs.j + " " + rhs.j);
    emit(E("begin")("f", f)("lhs", V::raw(lhs.j))("rhs", V::raw(rhs.j)));
    lg().calls.clear(); lg().evs.clear();
    lg().on = true;
    auto back = nda::ein_reduce(expr);
    lg().on = false;
    flush_log();
    E e("end");
    e("mem", cells())("calls", take_calls());
    result(e, back);
    emit(e);
    end_session();
  }
  void flush_log() {
    if (logged) for (auto& e : lg().evs) emit(e);
    else emit(E("run")("calls", take_calls()));
    lg().evs.clear();
  }
  template <class L, class R> void set(const W<L>& a, const W<R>& b) { run("set", a, b, a.e = b.e); }
  template <class L, class R> void add(const W<L>& a, const W<R>& b) { run("add", a, b, a.e += b.e); }
  template <class L, class R> void sub(const W<L>& a, const W<R>& b) { run("sub", a, b, a.e -= b.e); }
  template <class L, class R> void mul(const W<L>& a, const W<R>& b) { run("mul", a, b, a.e *= b.e); }

  // make_ein_sum<T, Is...>(rhs, init)
  template <size_t... Is, class R> void sum(const W<R>& rhs) {
    if (!ok) return;
    refill();
    std::vector<long> before = cells();
    begin_session("sum");
    emit(E("start")("mem", before));
    pending("sum " + rhs.j);
    lg().calls.clear(); lg().evs.clear();
    long init = r.in(-3, 3);
    bool def = r.chance(30);
    if (def) init = 0;
    last() = {nullptr, 0};
    std::vector<std::vector<long>> us;
    for (auto& u : used) us.push_back({u[0], std::min(u[1], ARENA - 1)});
    lg().on = true;
    auto a = def ? nda::make_ein_sum<T, Is...>(rhs.e, T(), arena_alloc<T>()) : nda::make_ein_sum<T, Is...>(rhs.e, T((int)init), arena_alloc<T>());
    lg().on = false;
    using S = typename decltype(a)::shape_type;
    bool null = a.base() == nullptr;
    E d; d("null", null)("b", null ? 0 : rel(a.base()))("st", static_v<S>())("dims", shape_v(a.shape()));
    std::vector<long> block{0, 0};
    if (last().p) block = {rel((const T*)last().p), (long)last().n};
    emit(E("sum")("rhs", V::raw(rhs.j))("is", std::vector<long>{(long)Is...})("size", vsize(shape_v(a.shape())))("init", init)("res", d.obj())("block", block)("used", us)("mem", cells()));
    flush_log();
    emit(E("endsum")("mem", cells())("calls", take_calls()));
    end_session();
  }
};

template <size_t R> using dy = nda::shape_of_rank<R>;
template <size_t R> using ds = nda::dense_shape<R>;

template <class T, class F> void one(Rng& r, const J* plan, F&& f, long cap = 0, int fill = 0) {
  for (int t = 0; t < 4; t++) {
    Case<T> c(r, plan);
    if (cap) c.cap(cap);
    c.fill = fill;
    f(c);
    if (c.ok) return;
  }
}
#define ONE(...) one<T>(r, p, [&](auto& c) { __VA_ARGS__ })
#define ONEV(cap, fill, ...) one<T>(r, p, [&](auto& c) { __VA_ARGS__ }, cap, fill)
#define IN(...) c.template in<__VA_ARGS__>()
#define CIN(...) c.template cin_<__VA_ARGS__>()
#define OUT(...) auto o = c.template out<__VA_ARGS__>()

// Matrix and vector statements with loop indices I, J, K.
template <class T, size_t I, size_t J, size_t K> void matrices(Rng& r, const nd::J* p) {
  ONE(OUT(dy<2>, I, J); auto a = IN(dy<2>, I, K); auto b = CIN(dy<2>, K, J); c.add(o, a * b););
  ONE(OUT(nda::matrix_shape<>, I, J); auto a = CIN(nda::matrix_shape<>, I, K); auto b = IN(nda::matrix_shape<>, K, J); c.add(o, a * b););
  ONE(OUT(dy<1>, I); auto a = IN(ds<2>, I, J); auto b = IN(dy<1>, J); c.add(o, a * b););
  ONE(OUT(dy<2>, I, J); auto a = IN(dy<1>, I); auto b = CIN(dy<1>, J); c.sub(o, a * b););
  ONE(OUT(dy<2>, J, I); auto a = IN(dy<2>, I, J); c.set(o, a););
  ONE(OUT(dy<1>, J); auto a = IN(dy<3>, I, J, K); c.add(o, a););
  ONE(OUT(dy<1>, J); auto a = CIN(dy<3>, K, J, I); c.set(o, a););
  ONE(OUT(dy<2>, K, I); auto a = IN(dy<3>, I, J, K); auto b = IN(dy<1>, J); c.add(o, a * b););
  ONEV(3, 1, OUT(dy<1>, I); auto a = IN(dy<2>, I, K); c.mul(o, a););
}
// One or two indices: traces, diagonals, scalars, reductions.
template <class T, size_t I, size_t J> void small_ones(Rng& r, const nd::J* p) {
  ONE(OUT(dy<0>); auto a = IN(dy<2>, I, I); c.add(o, a););
  ONE(auto o = c.scalar(); auto a = CIN(dy<2>, I, I); c.sub(o, a););
  ONE(OUT(dy<1>, I); auto a = IN(dy<2>, I, I); c.set(o, a););
  ONE(OUT(dy<2>, I, I); auto a = IN(dy<1>, I); c.set(o, a););
  ONE(OUT(dy<1>, J); auto a = IN(dy<3>, I, J, I); c.add(o, a););
  ONE(auto o = c.scalar(); auto x = IN(dy<1>, I); auto y = IN(dy<1>, I); auto z = CIN(dy<1>, I); c.add(o, (x + y) * z););
  ONE(auto o = c.scalar(); auto x = IN(dy<1>, I); c.set(o, wmax(o, x)););
  ONE(OUT(dy<1>, J); auto a = IN(dy<2>, I, J); c.set(o, wmin(o, a)););
  ONE(OUT(dy<1>, I); auto a = IN(dy<2>, I, J); auto b = CIN(dy<1>, J); c.set(o, -(a - b) + o););
  ONEV(0, 2, OUT(dy<2>, I, J); auto a = IN(dy<2>, J, I); auto b = IN(dy<1>, J); c.set(o, (a * b * b) / b - o););
  ONEV(0, 2, OUT(dy<1>, J); auto a = IN(dy<1>, I); auto b = IN(dy<2>, I, J); c.add(o, (a * a * a) / b););
  ONEV(0, 3, OUT(dy<1>, I); auto a = IN(dy<1>, I); auto b = CIN(dy<1>, I); c.set(o, wcast<T>(a * b) + wcast<T>(a - b) * b););
  ONEV(0, 3, auto o = c.scalar(); auto a = IN(dy<2>, J, I); auto b = IN(dy<1>, I); c.add(o, wmax(a, b) - wmin(a, b) - (a - b)););
  ONE(OUT(dy<1>, I); auto s = c.scalar(); c.add(o, s););
  ONE(auto o = c.scalar(); auto s = c.scalar(); auto t = c.scalar(); c.set(o, s * t - o););
  ONEV(4, 1, auto o = c.scalar(); auto x = IN(dy<1>, I); c.mul(o, x););
  ONEV(4, 1, OUT(dy<1>, I); auto x = IN(dy<1>, I); auto s = c.scalar(); c.mul(o, x - s););
}
// Callables, C arrays, pointers.
template <class T, size_t I, size_t J> void callables(Rng& r, const nd::J* p) {
  ONE(OUT(dy<2>, I, J); auto f = c.template fn<I, J>(); c.set(o, f););
  ONE(OUT(dy<1>, I); auto f = c.template fn<J, I>(); auto a = IN(dy<1>, J); c.add(o, f * a););
  ONE(auto o = c.scalar(); auto f = c.template fn<I>(); auto g = c.template fn<I>(); auto a = CIN(dy<2>, I, J); c.add(o, f * a - g););
  ONE(auto o = c.template ref<I>(); auto a = IN(dy<2>, J, I); c.add(o, a););
  ONE(auto o = c.template ref<I, J>(); auto a = IN(dy<2>, I, J); auto f = c.template fn<J>(); c.set(o, a + f););
  ONE(auto a = c.template ref<J>(); OUT(dy<2>, J, I); c.sub(o, a););
  ONEV(3, 1, auto o = c.template ref<I>(); auto a = IN(dy<2>, J, I); c.mul(o, a););
  ONEV(3, 1, auto o = c.template ref<J, I>(); auto a = IN(dy<2>, I, J); auto f = c.template fn<J>(); c.mul(o, a - f););
  ONE(auto o = c.template ref<I, J>(); auto a = IN(dy<2>, J, I); auto f = c.template fn<J>(); c.sub(o, f * a););
  ONE(auto x = c.template ptr<I>(); OUT(dy<1>, I); c.add(o, x););
  ONE(c.res[J] = true; auto o = c.template ptr<J>(); auto a = IN(dy<2>, I, J); c.add(o, a););
  ONE(c.fix(I, 0, 4); auto o = c.scalar(); auto x = c.template carr<I, 4>(); auto y = IN(dy<1>, I); c.add(o, x * y););
  ONE(c.fix(I, 0, 3); auto o = c.template carr<I, 3>(); c.res[I] = true; auto y = IN(dy<2>, I, J); c.set(o, y););
  ONE(c.fix(I, 0, 3); c.fix(J, 0, 2); OUT(nda::matrix_shape<3, 2>, I, J); auto x = c.template carr<I, 3>(); auto y = c.template carr<J, 2>(); c.add(o, x * y););
}
// Compile-time bounds and strides; broadcasting strides.
template <class T, size_t I, size_t J, size_t K> void statics(Rng& r, const nd::J* p) {
  ONE(c.fix(I, 0, 2); c.fix(J, 0, 3); OUT(nda::matrix_shape<2, 3>, I, J); auto a = IN(dy<2>, I, K); auto b = IN(dy<2>, K, J); c.add(o, a * b););
  ONE(c.fix(I, 0, 2); c.fix(J, 0, 3); c.fix(K, 0, 4); OUT(nda::matrix_shape<2, 3>, I, J); auto a = IN(nda::matrix_shape<2, 4>, I, K);
      auto b = CIN(nda::matrix_shape<4, 3>, K, J); c.add(o, a * b););
  ONE(c.fix(K, 0, 4); OUT(dy<2>, I, J); auto a = IN(nda::matrix_shape<dyn, 4>, I, K); auto b = IN(dy<2>, K, J); c.sub(o, a * b););
  ONE(c.fix(I, 1, 2); OUT(shape<dim<1, 2>>, I); auto a = IN(shape<dim<>, dim<1>>, J, I); c.add(o, a););
  ONE(c.fix(I, -1, 3); c.fix(J, 2, DYN); auto a = IN(shape<dim<2, dyn, 2>, dim<-1, 3>>, J, I); auto o = c.scalar(); c.add(o, a););
  ONE(OUT(dy<2>, I, J); auto a = IN(shape<strided_dim<0>>, J); auto b = IN(shape<strided_dim<2>, strided_dim<1>>, I, J); c.set(o, a + b););
  ONE(OUT(shape<strided_dim<-1>>, K); auto a = IN(ds<3>, I, J, K); c.add(o, a););
  ONE(OUT(nda::planar_image_shape, I, J, K); auto a = IN(nda::chunky_image_shape<>, I, J, K); auto b = IN(dy<1>, K); c.set(o, a * b););
  ONE(c.fix(K, 0, 3); OUT(nda::chunky_image_shape<3>, I, J, K); auto a = IN(dy<3>, J, K, I); c.add(o, a););
  ONE(c.fix(I, 0, 2); c.fix(J, 0, 2); c.fix(K, 0, 2); OUT(nda::fixed_dense_shape<2, 2>, I, J); auto a = IN(nda::fixed_dense_shape<2, 2, 2>, J, K, I); c.add(o, a););
  // a result the loops only sum into: stride 0
  ONE(OUT(shape<strided_dim<0>>, I); c.res[I] = false; auto a = IN(dy<2>, I, J); c.add(o, a););
}
template <class T, size_t I, size_t J, size_t K> void sums(Rng& r, const nd::J* p) {
  using std::fill;
  ONE(auto a = IN(dy<2>, I, K); auto b = CIN(dy<2>, K, J); c.template sum<I, J>(a * b););
  ONE(auto a = IN(dy<2>, I, J); c.template sum<J, I>(a););
  ONE(auto a = IN(dy<2>, I, I); c.template sum<>(a););
  ONE(auto a = IN(dy<2>, I, I); c.template sum<I>(a););
  ONE(auto x = IN(dy<1>, I); auto y = IN(dy<1>, I); c.template sum<>((x + y) * x););
  ONE(auto x = IN(ds<2>, I, J); auto y = IN(dy<1>, J); c.template sum<I>(x * y););
  ONE(auto x = IN(dy<1>, I); auto y = CIN(dy<1>, J); auto z = c.template fn<I, J>(); c.template sum<J, I>(x * y - z););
  ONE(auto x = IN(dy<3>, J, I, K); c.template sum<K, I>(x););
  ONE(auto x = IN(dy<3>, J, I, K); c.template sum<J, K, I>(-x););
  ONE(auto x = IN(dy<1>, J); c.template sum<J, I>(x););          // I is not used by any operand
  ONE(c.res[I] = true; auto x = [&] { auto keep = c.res; c.res.assign(8, false); auto v = IN(dy<1>, I); c.res = keep; return v; }();
      auto y = IN(dy<2>, I, J); c.template sum<I>(wmax(x, y)););  // a later operand may be larger
  ONE(c.fix(I, 0, 2); c.fix(K, 0, 3); auto a = IN(nda::matrix_shape<2, 3>, I, K); auto b = IN(nda::matrix_shape<3, dyn>, K, J); c.fix(J, 0, DYN); c.template sum<I, J>(a * b););
  ONE(c.fix(J, -1, 3); auto a = IN(shape<strided_dim<2>, dim<-1, 3>>, I, J); c.template sum<J>(a););
  ONE(c.fix(J, -1, 3); auto a = CIN(shape<dim<-1, 3, 2>, dim<>>, J, I); c.template sum<I, J>(a););
  ONE(c.fix(I, 0, 3); auto x = c.template carr<I, 3>(); auto y = IN(dy<2>, I, J); c.template sum<J>(x * y););
  ONE(auto s = c.scalar(); auto y = IN(dy<2>, I, J); c.template sum<I>(s * y););
  ONEV(0, 3, auto y = IN(dy<2>, I, J); c.template sum<I>(wcast<T>(y)););
}

template <class T> void all(Rng& r, const nd::J* p) {
#if PART == 0
  matrices<T, 0, 1, 2>(r, p); matrices<T, 2, 0, 1>(r, p); matrices<T, 1, 2, 0>(r, p);
#elif PART == 1
  matrices<T, 2, 1, 0>(r, p); matrices<T, 0, 2, 1>(r, p); matrices<T, 1, 0, 2>(r, p); matrices<T, 1, 3, 0>(r, p);
#elif PART == 2
  small_ones<T, 0, 1>(r, p); small_ones<T, 1, 0>(r, p); small_ones<T, 2, 0>(r, p);
#elif PART == 3
  callables<T, 0, 1>(r, p); callables<T, 1, 0>(r, p); callables<T, 0, 2>(r, p); callables<T, 3, 1>(r, p);
#elif PART == 4
  statics<T, 0, 1, 2>(r, p); statics<T, 2, 1, 0>(r, p); statics<T, 1, 0, 2>(r, p);
#elif PART == 5
  sums<T, 0, 1, 2>(r, p); sums<T, 2, 0, 1>(r, p); sums<T, 1, 2, 0>(r, p);
#endif
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r((uint64_t)a.num("seed", 1) * 9973 + 7);
  long n = a.num("n", 3);
#ifndef ELEM
#define ELEM Num
#endif
  if (!a.str("plan").empty())
    for (const J& p : read_plan(a.str("plan").c_str()))
      if (r.chance((int)a.num("pct", 100))) all<ELEM>(r, &p);
  for (long k = 0; k < n; k++) all<ELEM>(r, nullptr);
  finish_out();
  return 0;
}
