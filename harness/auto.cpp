// C14: histories of fixed-capacity allocator objects over tracked base allocators.
// PART chooses the element type, capacity and alignment.
#include "nd.h"
#include <memory>
using namespace nd;
#ifndef PART
#define PART 0
#endif

constexpr long DEFAULT_BASE = 10;
static long next_base = DEFAULT_BASE;   // the identity a default-constructed base allocator gets

struct Block { char* p; size_t bytes; long n; unsigned char pat; bool live; };
static std::vector<Block> blocks;          // block id = position + 1
static std::vector<V> base_calls;          // what the base allocators were asked during one operation
static std::vector<char*> base_memory;
static long base_asked = 0;                // the base allocator asked for memory most recently

static long block_at(const void* p) {
  for (size_t i = 0; i < blocks.size(); i++) if (blocks[i].live && blocks[i].p == p) return (long)i + 1;
  return 0;
}

template <class T> struct tbase {
  using value_type = T;
  long id;
  tbase() : id(next_base) {}
  template <class U> tbase(const tbase<U>& o) : id(o.id) {}
  T* allocate(size_t n) {
    if (n > 100000) die("allocation of an absurd size", 0);
    char* p = (char*)malloc(n * sizeof(T) + 1);
    base_memory.push_back(p);
    base_asked = id;
    E e; e("f", "alloc")("id", id)("n", n)("b", 0);
    base_calls.push_back(e.obj());
    return (T*)p;
  }
  void deallocate(T* p, size_t n) {
    E e; e("f", "dealloc")("id", id)("n", n)("b", block_at(p));
    base_calls.push_back(e.obj());
    // Kept until the session ends.
  }
  friend bool operator==(const tbase& a, const tbase& b) { return a.id == b.id; }
  friend bool operator!=(const tbase& a, const tbase& b) { return a.id != b.id; }
};

struct Wide { char c[12]; };
#if PART == 0
using T = int; constexpr size_t CAP = 2, ALIGN = sizeof(T);
#elif PART == 1
using T = char; constexpr size_t CAP = 5, ALIGN = 1;
#elif PART == 2
using T = Wide; constexpr size_t CAP = 3, ALIGN = 4;
#elif PART == 3
using T = double; constexpr size_t CAP = 1, ALIGN = 32;
#elif PART == 4
using T = short; constexpr size_t CAP = 64, ALIGN = 16;
#endif

using Al = nda::auto_allocator<T, CAP, ALIGN, tbase<T>>;
using Other = nda::auto_allocator<long, 4, 8, tbase<long>>;
using Tr = std::allocator_traits<Al>;
constexpr int OBJS = 4;
struct alignas(64) Room { char raw[(sizeof(Al) + 63) / 64 * 64]; };

struct Machine {
  Room room[OBJS + 1];
  bool has[OBJS + 1] = {};
  Al& at(long a) { return *reinterpret_cast<Al*>(room[a].raw); }

  // Where does a block lie?
  void locate(const Block& b, std::string& where, long& id, bool& fits) {
    for (long a = 1; a <= OBJS; a++) {
      long d = b.p - room[a].raw;
      if (d >= 0 && d < (long)sizeof(Al)) { where = "in"; id = a; fits = d + (long)b.bytes <= (long)sizeof(Al); return; }
    }
    where = "base"; id = 0; fits = true;
  }
  void paint(Block& b) { memset(b.p, b.pat, b.bytes); }
  bool intact() {
    for (Block& b : blocks) {
      if (!b.live) continue;
      for (size_t i = 0; i < b.bytes; i++) if ((unsigned char)b.p[i] != b.pat) return false;
    }
    return true;
  }
  void step(const std::string& f, long a, long s, long n, long b, long x) {
    E e("step");
    e("f", f)("a", a)("s", s)("n", n)("b", b)("x", x);
    pending(e.s);
    base_calls.clear();
    std::string where = "none"; long id = 0; bool fits = true, aligned = true;
    if (f == "make") { next_base = x; new (room[a].raw) Al(); next_base = DEFAULT_BASE; has[a] = true; }
    else if (f == "makedef") { new (room[a].raw) Al(); has[a] = true; }
    else if (f == "copyc") { new (room[a].raw) Al((const Al&)at(s)); has[a] = true; }
    else if (f == "movec") { new (room[a].raw) Al(std::move(at(s))); has[a] = true; }
    else if (f == "select") {
      if (x % 2) new (room[a].raw) Al(Tr::select_on_container_copy_construction(at(s)));
      else new (room[a].raw) Al(Al::select_on_container_copy_construction(at(s)));
      has[a] = true;
    }
    else if (f == "convert") {
      Other o;
      long* p = x % 2 ? o.allocate(3) : nullptr;
      new (room[a].raw) Al((const Other&)o);
      if (p) o.deallocate(p, 3);
      has[a] = true;
    }
    else if (f == "copya") at(a) = (const Al&)at(s);
    else if (f == "movea") at(a) = std::move(at(s));
    else if (f == "drop") { at(a).~Al(); memset(room[a].raw, 0xee, sizeof(Al)); has[a] = false; }
    else if (f == "alloc") {
      T* p = x % 2 ? Tr::allocate(at(a), (size_t)n) : at(a).allocate((size_t)n);
      Block k{(char*)p, (size_t)n * sizeof(T), n, (unsigned char)(17 + 13 * b), true};
      locate(k, where, id, fits);
      aligned = (uintptr_t)p % alignof(T) == 0 && (where != "in" || (uintptr_t)p % ALIGN == 0);
      if (fits) { blocks.push_back(k); paint(blocks.back()); }
      else { k.bytes = 0; blocks.push_back(k); }
    }
    else if (f == "dealloc") {
      Block& k = blocks[b - 1];
      T* p = (T*)k.p;
      if (x % 2) Tr::deallocate(at(a), p, (size_t)k.n); else at(a).deallocate(p, (size_t)k.n);
      k.live = false;
    }
    if (f == "select") {
      // Either a copy or a new allocator: the base it has shows in what a copy of it asks.
      std::vector<V> before; before.swap(base_calls);
      Al* t = new (room[0].raw) Al((const Al&)at(a));
      T* p = t->allocate(CAP + 1);
      t->deallocate(p, CAP + 1);
      t->~Al();
      e("base", base_asked);
      base_calls.swap(before);
    } else e("base", 0);
    e("where", where)("id", id)("fits", fits)("aligned", aligned)("calls", V::raw("[]"));
    e.s.erase(e.s.size() - std::string(",\"calls\":[]").size());
    std::string t = "[";
    for (size_t i = 0; i < base_calls.size(); i++) t += (i ? "," : "") + base_calls[i].s;
    e("calls", V::raw(t + "]"));
    e("intact", intact());
    t = "[";
    for (long p = 1; p <= OBJS; p++) for (long q = 1; q <= OBJS; q++) {
      if (!has[p] || !has[q]) continue;
      E w; w("a", p)("b", q)("eq", at(p) == at(q))("ne", at(p) != at(q));
      t += (t.size() > 1 ? "," : "") + w.obj().s;
    }
    e("eqs", V::raw(t + "]"));
    emit(e);
  }
  void start() {
    memset(room, 0xee, sizeof room);
    begin_session("alloc");
    emit(E("start")("cap", CAP)("esize", sizeof(T)));
  }
  void done() {
    end_session();
    for (char* p : base_memory) free(p);
    base_memory.clear(); blocks.clear();
  }
};

// Inputs that make sense, from what the driver itself knows.
struct Shadow {
  long base[OBJS + 1] = {}; bool busy[OBJS + 1] = {};
  struct K { bool in; long id; bool live; };
  std::vector<K> k;
};

static void random_history(Rng& r, int len) {
  Machine m; Shadow w;
  m.start();
  for (int i = 0, t = 0; i < len && t < len * 30; t++) {
    long a = r.in(1, OBJS), s = r.in(1, OBJS), x = r.in(0, 1), n = 0, b = 0;
    static const char* FS[] = {"make", "makedef", "copyc", "movec", "select", "convert", "copya", "movea", "drop", "alloc", "alloc", "alloc", "alloc",
                               "alloc", "alloc", "dealloc", "dealloc", "dealloc", "dealloc", "dealloc"};
    std::string f = FS[r.in(0, sizeof FS / sizeof *FS - 1)];
    bool making = f == "make" || f == "makedef" || f == "copyc" || f == "movec" || f == "select" || f == "convert";
    if (making == m.has[a] && f != "dealloc") continue;
    if ((f == "copyc" || f == "movec" || f == "select" || f == "copya" || f == "movea") && !m.has[s]) continue;
    if (f == "convert") s = 0;
    if (f == "make" || f == "makedef" || f == "convert") n = CAP;
    if (f == "make") x = 10 * r.in(1, 3);
    if (f == "drop" && w.busy[a]) continue;
    if (f == "alloc") {
      int live = 0; for (auto& k : w.k) live += k.live;
      if (live >= 6) continue;
      n = r.chance(60) ? r.in(0, CAP) : r.in(CAP, 2 * CAP + 2);
      b = (long)w.k.size() + 1;
    }
    if (f == "dealloc") {
      std::vector<long> bs;
      for (size_t j = 0; j < w.k.size(); j++) if (w.k[j].live) bs.push_back((long)j + 1);
      if (bs.empty()) continue;
      b = r.pick(bs);
      if (w.k[b - 1].in) a = w.k[b - 1].id;
      else {
        std::vector<long> as;
        for (long o = 1; o <= OBJS; o++) if (m.has[o] && w.base[o] == w.k[b - 1].id) as.push_back(o);
        if (as.empty()) continue;
        a = r.pick(as);
      }
    }
    m.step(f, a, s, n, b, x);
    i++;
    if (f == "make") w.base[a] = x;
    if (f == "makedef" || f == "convert") w.base[a] = DEFAULT_BASE;
    if (f == "copyc" || f == "movec" || f == "copya" || f == "movea") w.base[a] = w.base[s];
    if (f == "select") w.base[a] = base_asked;
    if (making) w.busy[a] = false;
    if (f == "alloc") {
      Block& k = blocks.back(); std::string wh; long id; bool fits;
      m.locate(k, wh, id, fits);
      if (wh == "in") { w.k.push_back({true, id, true}); if (id == a) w.busy[a] = true; }
      else w.k.push_back({false, w.base[a], true});
    }
    if (f == "dealloc") { w.k[b - 1].live = false; if (w.k[b - 1].in) w.busy[a] = false; }
  }
  m.done();
}
static void planned(const J& p) {
  Machine m;
  m.start();
  for (const J& q : p["ev"].a) {
    long n = q["n"];
    const std::string& f = q["f"].str;
    if (f == "make" || f == "makedef") n = CAP;
    if (f == "eq") continue;
    long x = f == "make" ? (long)q["x"] : n;
    if (f == "alloc") n = n == 3 ? (long)CAP + 1 : n == 2 ? (long)CAP : 0;
    m.step(f, q["a"], q["s"], n, q["b"], x);
  }
  m.done();
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out", "/dev/stdout").c_str());
  arm((unsigned)a.num("timeout", 120));
  if (!a.str("plan").empty()) for (const J& p : read_plan(a.str("plan").c_str())) planned(p);
  Rng r(a.num("seed", 1) * 977 + PART);
  long n = a.num("n", 10), len = a.num("len", 25);
  for (long i = 0; i < n; i++) random_history(r, (int)r.in(5, len));
  finish_out();
}
