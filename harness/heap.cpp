// C10-C13: histories of operations on arrays of tracked elements with tracked allocators.
// PART chooses the shape type, POLS the allocator policies. AUTO=n uses the fixed-capacity allocator
// with room for n elements (C14); UNINIT uses ints and an allocator that does not initialise (C14).
#include "menu.h"
#include <memory>
using namespace nd;
#ifndef PART
#define PART 0
#endif
#ifndef POLS
#define POLS 0, 7, 10
#endif
using nda::index_t;

constexpr long DEFAULT_ALLOC = 10, NONE = -1, MOVED = -50, TRASH = -77777;
static bool micro = true;   // report what happens to blocks and elements
static bool quiet = true;   // not inside an operation under observation

// ---------------------------------------------------------------- blocks
struct Obj;
constexpr int SLOTS = 3;
static char* rooms[SLOTS + 1];      // where the array object of each slot lives
static size_t room_size = 0;
struct Block { char* p; size_t bytes; long n; bool freed; };
static std::vector<Block> blocks;   // block id = position + 1; never reused within a session
static bool where(const void* q, long& b, long& o, size_t esize) {
  for (size_t i = 0; i < blocks.size(); i++) {
    long d = (const char*)q - blocks[i].p;
    if (d >= 0 && d < (long)blocks[i].bytes) { b = (long)i + 1; o = d % (long)esize ? 1000 + d : d / (long)esize; return true; }
  }
#ifdef AUTO
  for (int s = 1; s <= SLOTS; s++) {
    long d = (const char*)q - rooms[s];
    if (rooms[s] && d >= 0 && d < (long)room_size) { b = 9000 + s; o = d % (long)esize ? 1000 + d : d / (long)esize; return true; }
  }
#endif
  b = 0; o = 0;
  return false;
}

// ---------------------------------------------------------------- elements
struct Obj {
  int v;
  Obj() : v(0) { note("ctor", "default", nullptr); }
  Obj(int x) : v(x) { note("ctor", "value", nullptr); }
  Obj(const Obj& o) : v(o.v) { note("ctor", "copy", &o); }
  Obj(Obj&& o) : v(o.v) { if (&o != this) o.v = MOVED; note("ctor", "move", &o); }
  Obj& operator=(const Obj& o) { v = o.v; note("asg", "copy", &o); return *this; }
  Obj& operator=(Obj&& o) { v = o.v; if (&o != this) o.v = MOVED; note("asg", "move", &o); return *this; }
  ~Obj() { note("dtor", "", nullptr); v = TRASH; }
  bool operator==(const Obj& o) const { return v == o.v; }
  bool operator!=(const Obj& o) const { return v != o.v; }
  void note(const char* op, const char* how, const Obj* from) {
    if (quiet || !micro) return;
    long b, o, fb = 0, fo = 0;
    bool in = where(this, b, o, sizeof(Obj));
    if (from) where(from, fb, fo, sizeof(Obj));
    if (!in) return;   // not an element of an array
    if (!strcmp(op, "dtor")) emit(E(op)("b", b)("o", o));
    else emit(E(op)("b", b)("o", o)("how", how)("fb", fb)("fo", fo));
  }
};

// ---------------------------------------------------------------- allocators
struct talloc_base {};
template <class T, bool CA, bool MA, bool SW, bool Same> struct talloc : talloc_base {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, CA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, MA>;
  using propagate_on_container_swap = std::integral_constant<bool, SW>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = talloc<U, CA, MA, SW, Same>; };
  long id;
  talloc() : id(DEFAULT_ALLOC) {}
  explicit talloc(long i) : id(i) {}
  template <class U> talloc(const talloc<U, CA, MA, SW, Same>& o) : id(o.id) {}
  talloc select_on_container_copy_construction() const { return Same ? *this : talloc(); }
  T* allocate(size_t n) {
    if (n > 5000) die("allocation of an absurd size", 0);
    char* p = (char*)malloc(n * sizeof(T) + 1);
    memset(p, 0x5b, n * sizeof(T));
    blocks.push_back({p, n * sizeof(T), (long)n, false});
    if (!quiet && micro) emit(E("alloc")("b", blocks.size())("n", n)("al", id));
    return (T*)p;
  }
  void deallocate(T* p, size_t n) {
    long b, o;
    where(p, b, o, sizeof(T));
    if (!quiet && micro) emit(E("dealloc")("b", o == 0 ? b : -b)("n", n)("al", id));
    // Memory is kept until the session ends, so that late accesses are seen and harmless.
  }
  friend bool operator==(const talloc& a, const talloc& b) { return a.id == b.id; }
  friend bool operator!=(const talloc& a, const talloc& b) { return a.id != b.id; }
};
#ifdef UNINIT
using Elem = int;
constexpr int PATTERN = 0x5b5b5b5b;   // what memory holds before anything is stored
// A zero in the reports stands for what a default-constructed element holds.
static long val_of(const Elem& e) { int v = *(const volatile int*)&e; return v == PATTERN ? 0 : v == 0 ? TRASH : v; }
#if UNINIT >= 2
void* operator new(size_t n) { void* p = malloc(n + 1); memset(p, 0x5b, n); return p; }
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
#endif
#elif defined(PLAIN)
// Plain elements, which report nothing: what becomes of values is seen in the arrays.
struct Pod { short a = 7; int v = 0; Pod() = default; explicit Pod(int x) : v(x) {} };
using Elem = PLAIN;
static long val_of(const Pod& e) { return e.a == 7 ? e.v : TRASH; }
template <class T> std::enable_if_t<std::is_arithmetic<T>::value, long> val_of(T e) { return e >= -5000 && e <= 5000 ? (long)e : TRASH; }
#else
using Elem = Obj;
static long val_of(const Elem& e) { return e.v; }
#endif
template <bool CA, bool MA, bool SW, bool Same> talloc<Elem, CA, MA, SW, Same> make_al(talloc<Elem, CA, MA, SW, Same>*, long id) {
  return talloc<Elem, CA, MA, SW, Same>(id);
}
template <bool CA, bool MA, bool SW, bool Same> long al_id(const talloc<Elem, CA, MA, SW, Same>& a) { return a.id; }
template <class A> A make_al(A*, long) { return A(); }
template <class A> auto al_id(const A&) -> std::enable_if_t<!std::is_base_of<talloc<Elem, 0, 0, 0, 1>, A>::value, long> { return DEFAULT_ALLOC; }

static void free_blocks() { for (Block& b : blocks) free(b.p); blocks.clear(); }

// ---------------------------------------------------------------- the operations
struct Call { std::string f; long dst, src; ShapeV dims; long al, k, v; };

template <class Arr> struct Drop {
  void operator()(Arr* a) const { a->~Arr(); }
};
template <class S, class A> struct Machine {
  using Arr = nda::array<Elem, S, A>;
  struct Room { alignas(64) char raw[sizeof(Arr)]; };
  Room room[SLOTS + 1];
  std::unique_ptr<Arr, Drop<Arr>> slot[SLOTS + 1];
  Machine() {
    room_size = sizeof(Arr);
    for (int s = 0; s <= SLOTS; s++) rooms[s] = room[s].raw;
  }
  ~Machine() { for (int s = 0; s <= SLOTS; s++) rooms[s] = nullptr; }
  static constexpr size_t R = S::rank();

  static bool valueless(const Arr& a) { return a.base() == nullptr && a.shape().size() > 0; }
  bool has(long s) const { return (bool)slot[s]; }
  bool ok(long s) const { return has(s) && !valueless(*slot[s]); }
  ShapeV dims(long s) const { return shape_v(slot[s]->shape()); }

  void observe(const char* op) {
    std::vector<V> as;
    bool odd = false;
    for (long s = 1; s <= SLOTS; s++) {
      if (!has(s)) continue;
      Arr& a = *slot[s];
      ShapeV d = shape_v(a.shape());
      long n = vsize(d);
      if (n > 400) die("an array of absurd size", 0);
      bool none = valueless(a);
      odd = odd || none || n == 0;
      std::vector<std::vector<long>> at;
      std::vector<long> vals;
      if (!none) {
        std::vector<IdxV> xs; all_idx(d, xs);
        for (auto& x : xs) {
          const Elem* p = &a[idx_tuple<R>(x)];
          long b, o;
#ifdef UNINIT
          b = 1; o = (long)((uintptr_t)p / sizeof(Elem) % 1000003);
          bool in = true;
#else
          bool in = where(p, b, o, sizeof(Elem));
#endif
          at.push_back({b, o});
          vals.push_back(in ? val_of(*p) : TRASH);
        }
      }
      E e;
      e("s", s)("ok", !none)("al", al_id(a.get_allocator()))("dims", d)("at", at)("vals", vals);
      as.push_back(e.obj());
    }
    std::string t = "[";
    for (size_t i = 0; i < as.size(); i++) t += (i ? "," : "") + as[i].s;
    E e(op);
    e("arrs", V::raw(t + "]"));
    if (odd) e("nocorrupt", true);
    emit(e);
  }

  void run(const Call& c) {
    E e("call");
    e("f", c.f)("dst", c.dst)("src", c.src)("dims", c.dims)("al", c.al)("k", c.k)("v", c.v);
    emit(e);
    pending(e.s);
    exec(c);
    quiet = true;
    observe(c.f == "reshape" ? "reshaped" : "ret");
  }

  void exec(const Call& c) {
    auto& d = slot[c.dst];
    auto mk = [&] { return make_shape_of<S>(c.dims); };
    Elem val((int)c.v);
    A al = make_al((A*)nullptr, c.al);
    bool given = c.al != NONE;
    if (c.dst && !d) memset(room[c.dst].raw, 0x5b, sizeof(Arr));
    char* raw = room[c.dst].raw;
    quiet = false;
    if (c.f == "new") { if (given) d.reset(::new (raw) Arr(mk(), al)); else d.reset(::new (raw) Arr(mk())); }
    else if (c.f == "newv") { if (given) d.reset(::new (raw) Arr(mk(), val, al)); else d.reset(::new (raw) Arr(mk(), val)); }
    else if (c.f == "def") { if (given) d.reset(::new (raw) Arr(al)); else d.reset(::new (raw) Arr()); }
    else if (c.f == "copyc") { if (given) d.reset(::new (raw) Arr(*slot[c.src], al)); else d.reset(::new (raw) Arr(*slot[c.src])); }
    else if (c.f == "movec") { if (given) d.reset(::new (raw) Arr(std::move(*slot[c.src]), al)); else d.reset(::new (raw) Arr(std::move(*slot[c.src]))); }
    else if (c.f == "copya") *d = *slot[c.src];
    else if (c.f == "movea") *d = std::move(*slot[c.src]);
    else if (c.f == "mvfree") nda::move(std::move(*slot[c.src]), *d);
    else if (c.f == "assc") d->assign(*slot[c.src]);
    else if (c.f == "assm") d->assign(std::move(*slot[c.src]));
    else if (c.f == "assv") d->assign(mk(), val);
    else if (c.f == "clear") d->clear();
    else if (c.f == "reshape") d->reshape(mk());
    else if (c.f == "swap") { if (c.k % 2) nda::swap(*d, *slot[c.src]); else d->swap(*slot[c.src]); }
    else if (c.f == "set") {
      std::vector<IdxV> xs; all_idx(dims(c.dst), xs);
      (*d)[idx_tuple<R>(xs.at(c.k - 1))] = val;
    }
    else if (c.f == "fill") nda::fill(*d, val);
    else if (c.f == "destroy") d.reset();
    else if (c.f == "mkcopy") {
      if (given) d.reset(::new (raw) Arr(nda::make_copy(*slot[c.src], mk(), al)));
      else d.reset(::new (raw) Arr(nda::make_copy(*slot[c.src], mk(), A())));
    }
    else if (c.f == "mkmove") {
      if (given) d.reset(::new (raw) Arr(nda::make_move(*slot[c.src], mk(), al)));
      else d.reset(::new (raw) Arr(nda::make_move(*slot[c.src], mk(), A())));
    }
    else if (c.f == "mkmover") {
      if (given) d.reset(::new (raw) Arr(nda::make_move(std::move(*slot[c.src]), mk(), al)));
      else d.reset(::new (raw) Arr(nda::make_move(std::move(*slot[c.src]), mk())));
    }
    else if (c.f == "setsh" || c.f == "mvre") reshow(c, mk(), std::integral_constant<bool, std::is_trivial<Elem>::value && std::is_base_of<talloc_base, A>::value>());
    else { fprintf(stderr, "unknown operation %s\n", c.f.c_str()); exit(3); }
    quiet = true;
  }

  void reshow(const Call& c, const S& s, std::true_type) {
    auto& d = slot[c.dst];
    if (c.f == "setsh") { if (c.k) d->set_shape(s, c.k); else d->set_shape(s); return; }
    Arr& from = *slot[c.src];
    char* raw = room[c.dst].raw;
    if (c.k == 0 && c.v % 2 && from.shape() == s) d.reset(::new (raw) Arr(nda::move_reinterpret_shape<S>(std::move(from))));
    else if (c.k) d.reset(::new (raw) Arr(nda::move_reinterpret_shape(std::move(from), s, c.k)));
    else d.reset(::new (raw) Arr(nda::move_reinterpret_shape(std::move(from), s)));
  }
  void reshow(const Call&, const S&, std::false_type) { fprintf(stderr, "operation not for these elements\n"); exit(3); }

  void finish() {
    for (long s = 1; s <= SLOTS; s++) if (has(s)) run({"destroy", s, 0, {}, NONE, 0, 0});
    emit(E("quit"));
  }
};

// Which sources an operation accepts; only used to choose inputs.
template <class M> bool sensible(M& m, const Call& c) {
  const std::string& f = c.f;
  bool making = f == "new" || f == "newv" || f == "def" || f == "copyc" || f == "movec" || f == "mkcopy" || f == "mkmove" || f == "mkmover";
  bool two = f == "copyc" || f == "movec" || f == "copya" || f == "movea" || f == "mvfree" || f == "assc" || f == "assm" || f == "swap" ||
             f == "mkcopy" || f == "mkmove" || f == "mkmover";
  if (f == "setsh") return m.ok(c.dst) && vsize(m.dims(c.dst)) > 0;
  if (f == "mvre") return !m.has(c.dst) && m.ok(c.src) && vsize(m.dims(c.src)) > 0;
  if (making == m.has(c.dst)) return false;
  if (two && !m.ok(c.src)) return false;
  if ((f == "swap" || f == "reshape" || f == "fill" || f == "set") && !m.ok(c.dst)) return false;
  if (f == "set" && (c.k < 1 || c.k > vsize(m.dims(c.dst)))) return false;
  if (f.substr(0, 2) == "mk") {
    ShapeV s = m.dims(c.src);
    bool e = vsize(c.dims) == 0;
    for (size_t i = 0; i < s.size() && !e; i++)
      if (c.dims[i][0] < s[i][0] || c.dims[i][0] + c.dims[i][1] > s[i][0] + s[i][1]) return false;
  }
  return true;
}

template <class S> ShapeV some_dims(Rng& r, const ShapeV* near = nullptr) {
  ShapeV st = static_v<S>(), v;
  for (int tries = 0; tries < 20; tries++) {
    v = rand_bounds(r, st, S::rank() > 2 ? 3 : S::rank() == 1 && r.chance(12) ? 40 : S::rank() == 2 && r.chance(5) ? 7 : 4, 12);
    if (near && r.chance(70)) {
      for (size_t i = 0; i < v.size(); i++) {
        if (st[i][0] == DYN) v[i][0] = (*near)[i][0] + (r.chance(50) ? 0 : r.in(-2, 2));
        if (st[i][1] == DYN) v[i][1] = std::max(0l, (*near)[i][1] + (r.chance(50) ? 0 : r.in(-2, 2)));
        if (st[i][2] == DYN && r.chance(60)) v[i][2] = (*near)[i][2];
      }
    }
    ShapeV w = v;
    bool any = r.chance(60);
    if (any) { if (!rand_strides(r, w, true, 40)) continue; v = w; }
    // With fixed or reused strides the layout must still be one-to-one.
    ShapeV q = v;
    bool res = true;
    for (auto& d : q) if (d[2] == UNR) res = false;
    if (res && !vone2one(q)) continue;
    if (!res) {
      S s = make_shape_of<S>(v);
      s.resolve();
      if (!vone2one(shape_v(s))) continue;
      q = shape_v(s);
    }
    if (vsize(q) > 60 || vfmax(q) - vfmin(q) > 400) continue;
    return v;
  }
  for (size_t i = 0; i < v.size(); i++) v[i] = {st[i][0] == DYN ? 0 : st[i][0], st[i][1] == DYN ? 0 : st[i][1], st[i][2] == DYN ? UNR : st[i][2]};
  return v;
}
// A layout related to another: the same memory size or bounds, but other signs, order or position.
template <class S> ShapeV twin_dims(Rng& r, const ShapeV& of) {
  ShapeV st = static_v<S>();
  for (int tries = 0; tries < 10; tries++) {
    ShapeV v = of;
    for (int k = (int)r.in(1, 2); k > 0 && !v.empty(); k--) {
      size_t i = (size_t)r.in(0, (long)v.size() - 1), j = (size_t)r.in(0, (long)v.size() - 1);
      switch (r.in(0, 6)) {
      case 5: {   // the same bounds, spread out or packed
        ShapeV w = v;
        for (size_t q = 0; q < v.size(); q++) if (st[q][2] == DYN) w[q][2] = UNR;
        if (rand_strides(r, w, true, 60) && vfmax(w) - vfmin(w) < 200) v = w;
        break;
      }
      case 6: if (st[i][2] == DYN) { v[i][2] *= 2; if (vfmax(v) - vfmin(v) > 200) v[i][2] /= 2; } break;
      case 0: case 1: if (st[i][2] == DYN) v[i][2] = -v[i][2]; break;
      case 2: if (st[i][0] == DYN) v[i][0] += r.in(-2, 2); break;
      case 3: if (st[i][1] == DYN && st[j][1] == DYN && st[i][2] == DYN && st[j][2] == DYN) { std::swap(v[i][1], v[j][1]); std::swap(v[i][2], v[j][2]); } break;
      default: if (st[i][2] == DYN && st[j][2] == DYN && v[i][1] == v[j][1]) std::swap(v[i][2], v[j][2]); break;
      }
    }
    if (vone2one(v)) return v;
  }
  return of;
}
// Another shape for the same memory: part of each dimension, the other way round, dimensions exchanged.
template <class S> ShapeV other_dims(Rng& r, ShapeV s, long& off) {
  ShapeV st = static_v<S>();
  off = 0;
  int crop = (int)r.in(0, 60);
  for (size_t i = 0; i < s.size(); i++) {
    if (st[i][1] == DYN && s[i][1] > 1 && r.chance(crop)) {
      long lo = r.in(0, s[i][1] - 1), hi = r.in(0, s[i][1] - 1 - lo);
      off += lo * s[i][2]; s[i][1] -= lo + hi;
    }
    if (st[i][0] == DYN) s[i][0] += r.chance(50) ? 0 : r.in(-2, 2);
    if (st[i][2] == DYN && r.chance(25)) { off += (s[i][1] - 1) * s[i][2]; s[i][2] = -s[i][2]; }
    size_t j = (size_t)r.in(0, (long)s.size() - 1);
    if (st[i] == std::vector<long>{DYN, DYN, DYN} && st[j] == st[i] && r.chance(25)) std::swap(s[i], s[j]);
  }
  return s;
}
template <class S> ShapeV inside_dims(Rng& r, const ShapeV& s) {
  ShapeV st = static_v<S>(), v;
  for (size_t i = 0; i < s.size(); i++) {
    long lo = r.chance(50) ? 0 : r.in(0, s[i][1]), hi = r.chance(50) ? 0 : r.in(0, s[i][1] - lo);
    v.push_back({st[i][0] == DYN ? s[i][0] + lo : st[i][0], st[i][1] == DYN ? s[i][1] - lo - hi : st[i][1], st[i][2]});
    if (v[i][2] == DYN) v[i][2] = r.chance(40) ? s[i][2] : UNR;
  }
  return v;
}

static const char* OPS[] = {
#ifdef MAKING
  "mkcopy", "mkmove", "mkmover", "mkmover", "mkmover", "mkmover", "mkmover", "set", "set",
#endif
#ifdef RESHOW
  "setsh", "setsh", "setsh", "mvre", "mvre", "mvre",
#endif
                            "new", "new", "newv", "def", "copyc", "copyc", "movec", "movec", "copya", "copya", "copya", "movea", "movea", "movea",
                            "mvfree", "assc", "assm", "swap", "swap", "assv", "assv", "clear", "reshape", "reshape", "reshape", "set",
                            "fill", "destroy", "mkcopy", "mkmove", "mkmover", "mkmover"};

template <class S, class A> void random_history(Rng& r, int len, V pol, int emphasis) {
  const bool ma = std::allocator_traits<A>::propagate_on_container_move_assignment::value;
  Machine<S, A> m;
  begin_session("history");
  emit(E("start")("st", static_v<S>())("pol", pol));
#if defined(AUTO) || defined(UNINIT)
  std::vector<long> als = {NONE, NONE, 10};
#else
  std::vector<long> als = {NONE, NONE, NONE, 10, 25, 25, 41};
#endif
  for (int i = 0, tries = 0; i < len && tries < 40 * len; tries++) {
    Call c;
    c.f = emphasis == 1 && r.chance(50) ? "reshape" : OPS[r.in(0, (long)(sizeof OPS / sizeof *OPS) - 1)];
    c.dst = r.in(1, SLOTS);
    c.src = r.in(1, SLOTS);
    c.al = NONE; c.k = 0; c.v = r.in(100, 999);
    bool binary = true;
    if (c.f == "new" || c.f == "newv" || c.f == "assv") {
      ShapeV near; bool h = m.has(c.dst);
      if (h) near = m.dims(c.dst);
      c.dims = some_dims<S>(r, h ? &near : nullptr);
      if (h && r.chance(30)) c.dims = near;
      long o = r.in(1, SLOTS);
      if (m.ok(o) && r.chance(45)) c.dims = twin_dims<S>(r, m.dims(o));
      if (c.f != "assv") c.al = r.pick(als);
      binary = false;
    }
    if (c.f == "def") { c.al = r.pick(als); binary = false; }
    if (c.f == "copyc" || c.f == "movec") c.al = r.pick(als);
    if (c.f == "reshape") {
      if (!m.ok(c.dst)) continue;
      ShapeV near = m.dims(c.dst);
      c.dims = some_dims<S>(r, &near);
      if (r.chance(15)) c.dims = near;
      else if (r.chance(20)) c.dims = twin_dims<S>(r, near);
      binary = false;
    }
    if (c.f.substr(0, 2) == "mk") {
      if (!m.ok(c.src)) continue;
      c.al = r.pick(als);
      c.dims = r.chance(40) ? m.dims(c.src) : inside_dims<S>(r, m.dims(c.src));
      S s = make_shape_of<S>(c.dims);
      s.resolve();
      if (!vone2one(shape_v(s))) continue;
      if (vfmax(shape_v(s)) - vfmin(shape_v(s)) > 400) continue;
    }
    if (c.f == "set") {
      if (!m.ok(c.dst) || vsize(m.dims(c.dst)) == 0) continue;
      c.k = r.in(1, vsize(m.dims(c.dst)));
      binary = false;
    }
    if (c.f == "setsh" || c.f == "mvre") {
      long s = c.f == "mvre" ? c.src : c.dst;
      if (!m.ok(s) || vsize(m.dims(s)) == 0) continue;
      if (c.f == "mvre" && !ma && al_id(m.slot[s]->get_allocator()) != DEFAULT_ALLOC) continue;
      if (r.chance(20)) c.dims = m.dims(s); else c.dims = other_dims<S>(r, m.dims(s), c.k);
      binary = c.f == "mvre";
    }
    if (c.f == "swap") c.k = r.in(0, 1);
    if (c.f == "clear" || c.f == "fill" || c.f == "destroy") binary = false;
    if (!binary) c.src = 0;
    if (!sensible(m, c)) continue;
    m.run(c);
    i++;
  }
  m.finish();
  end_session();
  free_blocks();
}
template <class S, class A> void planned_history(const J& p, V pol) {
  Machine<S, A> m;
  begin_session("history");
  emit(E("start")("st", static_v<S>())("pol", pol));
  for (const J& q : p["ev"].a) {
    Call c{q["f"].str, q["dst"], q["src"], {}, q["al"], q["k"], q["v"]};
    for (const J& d : q["dims"].a) c.dims.push_back(d.longs());
#if defined(AUTO) || defined(UNINIT)
    if (c.al != NONE) c.al = 10;
#endif
    if (!sensible(m, c)) break;   // the model may have chosen another of several allowed outcomes
    m.run(c);
  }
  m.finish();
  end_session();
  free_blocks();
}

// What a moved-from array of fixed extents is worth (a known finding).
template <class S, class A> void probe(V pol) {
  {
    Machine<S, A> m;
    begin_session("probe");
    emit(E("start")("st", static_v<S>())("pol", pol));
    ShapeV d = shape_v(S());
    m.run({"newv", 1, 0, d, NONE, 0, 5});
    m.run({"movec", 2, 1, {}, NONE, 0, 0});
    bool ab = aborts([&] { typename Machine<S, A>::Arr b(*m.slot[1]); if (b.base() == nullptr && b.size() > 0) abort(); });
    emit(E("reuse")("usable", !ab));
    m.finish();
    end_session();
    free_blocks();
  }
}

#if PART == 0
using Shp = nda::shape_of_rank<1>;
#elif PART == 1
using Shp = shape<dim<0, 2, 1>>;
#elif PART == 2
using Shp = shape<dim<dyn, 2, dyn>, dim<0, dyn, 1>>;
#elif PART == 3
using Shp = shape<>;
#elif PART == 4
using Shp = nda::shape_of_rank<2>;
#elif PART == 5
using Shp = nda::dense_shape<2>;
#elif PART == 6
using Shp = nda::chunky_image_shape<2>;
#elif PART == 7
using Shp = nda::fixed_dense_shape<2, 3>;
#elif PART == 8
using Shp = nda::shape_of_rank<3>;
#elif PART == 9
using Shp = shape<dim<dyn, dyn, -1>, dim<-1>>;
#endif

template <int P> struct pol_of {
  static constexpr bool ca = P & 1, ma = (P >> 1) & 1, sw = (P >> 2) & 1, same = ((P >> 3) & 1) == 0;
#if defined(AUTO)
  using alloc = nda::auto_allocator<Elem, AUTO, alignof(Elem), talloc<Elem, ca, ma, sw, same>>;
#elif defined(UNINIT) && UNINIT == 1
  using alloc = nda::uninitialized_allocator<talloc<Elem, ca, ma, sw, same>>;
#elif defined(UNINIT) && UNINIT == 2
  using alloc = nda::uninitialized_std_allocator<Elem>;
#elif defined(UNINIT)
  using alloc = nda::uninitialized_auto_allocator<Elem, UNINIT>;
#else
  using alloc = talloc<Elem, ca, ma, sw, same>;
#endif
  static V v() {
    E e;
    e("cca", ca)("cma", ma)("cs", sw)("sel", same ? "same" : "default");
#ifdef UNINIT
    e("triv", true)("fresh", UNINIT <= 2 ? "pattern" : "any");
#elif defined(PLAIN)
    e("triv", true);
#endif
    return e.obj();
  }
};
template <int P> void all(const Args& a, const std::vector<J>& plan) {
  using A = typename pol_of<P>::alloc;
  Rng r(a.num("seed", 1) * 131 + P * 7 + PART);
  for (const J& p : plan) {
    const J& q = p["pol"];
    if ((bool)(long)q["cca"] == pol_of<P>::ca && (bool)(long)q["cma"] == pol_of<P>::ma && (bool)(long)q["cs"] == pol_of<P>::sw &&
        (q["sel"].str == "same") == pol_of<P>::same)
      planned_history<Shp, A>(p, pol_of<P>::v());
  }
  long n = a.num("n", 10), len = a.num("len", 10), emph = a.num("emph", 0);
  for (long i = 0; i < n; i++) random_history<Shp, A>(r, (int)r.in(3, len), pol_of<P>::v(), (int)emph);
  if (a.num("probe", 0)) probe<Shp, A>(pol_of<P>::v());
}
template <int... P> void each(const Args& a, const std::vector<J>& plan) {
  int u[] = {0, (all<P>(a, plan), 0)...};
  (void)u;
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out", "/dev/stdout").c_str());
  arm((unsigned)a.num("timeout", 120));
  micro = a.num("micro", 1) != 0;
  std::vector<J> plan;
  if (!a.str("plan").empty()) plan = read_plan(a.str("plan").c_str());
  each<POLS>(a, plan);
  finish_out();
}
