// Shared conformance-driver runtime.
//
// A driver executes operations of dsharlet/array (taken from a plan that TLC generated from the
// specification, or from a seeded random generator) and records what the real code did as a file
// of sessions, one JSON object per line: {"s":<n>,"k":<kind>,"ev":[event,...]}. It decides nothing:
// the TLA+ trace specifications do. A crash, an assertion failure or a hang is recorded as the last
// event of the session ({"op":"died",...}), which no specification action explains.
#ifndef VERIF_ND_H
#define VERIF_ND_H

#include <algorithm>
#include <array>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include <fcntl.h>
#include <sys/wait.h>
#include <unistd.h>

#include "array/array.h"

namespace nd {

constexpr long DYN = 1000001;  // compile-time unknown
constexpr long UNR = 1000002;  // run-time unresolved
constexpr long BIG = 2000000;  // anything outside the range TLC handles is clamped to this

// ---------------------------------------------------------------- output
inline long clampl(long v) { return v > BIG ? BIG : v < -BIG ? -BIG : v; }

struct Out {
  FILE* f = nullptr;
  std::string cur;      // current session, text so far
  bool open = false;    // a session is open
  bool first = true;
  long sessions = 0, events = 0;
  std::string pending;  // description of the operation being executed
};
inline Out& out() { static Out o; return o; }

// JSON value builder.
struct V {
  std::string s;
  V() : s("[]") {}
  V(bool b) : s(b ? "true" : "false") {}
  V(const char* c) : s(std::string("\"") + c + "\"") {}
  V(const std::string& c) : s("\"" + c + "\"") {}
  template <class T, class = std::enable_if_t<std::is_integral<T>::value && !std::is_same<T, bool>::value>>
  V(T v) : s(std::to_string(clampl(static_cast<long>(v)))) {}
  template <class T>
  V(const std::vector<T>& v) : s("[") {
    bool f = true;
    for (const T& x : v) { if (!f) s += ","; f = false; s += V(x).s; }
    s += "]";
  }
  V(const std::vector<bool>& v) : s("[") {
    bool f = true;
    for (bool x : v) { if (!f) s += ","; f = false; s += V(x).s; }
    s += "]";
  }
  template <class T, size_t N>
  V(const std::array<T, N>& v) : V(std::vector<T>(v.begin(), v.end())) {}
  static V raw(const std::string& r) { V v; v.s = r; return v; }
};

struct E {
  std::string s;
  explicit E(const char* op) : s(std::string("{\"op\":\"") + op + "\"") {}
  E() : s("{") {}
  E& operator()(const char* k, const V& v) {
    if (s.size() > 1) s += ",";
    s += "\""; s += k; s += "\":"; s += v.s;
    return *this;
  }
  V obj() const { return V::raw(s + "}"); }
};

inline void begin_session(const std::string& kind) {
  Out& o = out();
  o.cur = "{\"s\":" + std::to_string(o.sessions) + ",\"k\":\"" + kind + "\",\"ev\":[";
  o.first = true;
  o.open = true;
}
inline void emit(const E& e) {
  Out& o = out();
  if (!o.open) begin_session("x");
  if (!o.first) o.cur += ",";
  o.first = false;
  o.cur += e.s;
  o.cur += "}";
  o.events++;
}
inline void end_session() {
  Out& o = out();
  if (!o.open) return;
  o.cur += "]}\n";
  fwrite(o.cur.data(), 1, o.cur.size(), o.f);
  o.sessions++;
  o.open = false;
}
// What is about to be executed; only used to describe a crash.
inline void pending(const std::string& p) { out().pending = p; }

inline int& quiet_assert_fd() { static int fd = -1; return fd; }

inline void die(const char* why, int sig) {
  Out& o = out();
  static bool once = false;
  if (once) _exit(99);
  once = true;
  // A forked child probing for an abort reports through its exit status only.
  if (quiet_assert_fd() >= 0) _exit(77);
  if (!o.open) begin_session("x");
  std::string p = o.pending;
  for (char& c : p) if (c == '"' || c == '\\') c = '\'';
  E e("died");
  e("why", why)("sig", sig)("in", p);
  emit(e);
  end_session();
  fflush(o.f);
  _exit(98);
}
inline void on_signal(int sig) {
  die(sig == SIGALRM ? "hang" : sig == SIGABRT ? "abort" : "crash", sig);
}
inline void arm(unsigned seconds) { alarm(seconds); }

inline void init_out(const char* path) {
  out().f = fopen(path, "w");
  if (!out().f) { perror(path); exit(3); }
  static char altstack[1 << 16];
  stack_t ss; memset(&ss, 0, sizeof ss);
  ss.ss_sp = altstack; ss.ss_size = sizeof altstack;
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM}) {
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
    sigaction(s, &sa, nullptr);
  }
}
inline void finish_out() {
  end_session();
  fclose(out().f);
  printf("DRIVER sessions=%ld events=%ld\n", out().sessions, out().events);
}

// Runs f in a child process; returns true if the child aborted (assertion, signal), false if it ran
// to completion.
template <class F>
bool aborts(F&& f) {
  fflush(out().f);
  pid_t pid = fork();
  if (pid == 0) {
    quiet_assert_fd() = 1;
    int dn = open("/dev/null", O_WRONLY);
    if (dn >= 0) { dup2(dn, 2); dup2(dn, 1); }
    alarm(10);
    f();
    _exit(0);
  }
  int st = 0;
  waitpid(pid, &st, 0);
  return !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
}

// ---------------------------------------------------------------- random numbers
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  long in(long lo, long hi) { return lo + static_cast<long>(next() % static_cast<uint64_t>(hi - lo + 1)); }
  bool chance(int pct) { return in(1, 100) <= pct; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[in(0, (long)v.size() - 1)]; }
  long pick(std::initializer_list<long> v) { return *(v.begin() + in(0, (long)v.size() - 1)); }
};

// ---------------------------------------------------------------- input JSON (plans)
struct J {
  enum K { Num, Str, Arr, Obj, Bool } k = Num;
  long n = 0;
  std::string str;
  std::vector<J> a;
  std::map<std::string, J> o;
  const J& operator[](size_t i) const { return a.at(i); }
  const J& operator[](int i) const { return a.at(i); }
  const J& operator[](const char* key) const {
    auto it = o.find(key);
    if (it == o.end()) { fprintf(stderr, "plan: no key %s\n", key); exit(3); }
    return it->second;
  }
  bool has(const char* key) const { return o.count(key) != 0; }
  size_t size() const { return a.size(); }
  operator long() const { return n; }
  std::vector<long> longs() const {
    std::vector<long> r;
    for (const J& x : a) r.push_back(x.n);
    return r;
  }
};
struct JParser {
  const char* p;
  void ws() { while (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }
  J parse() {
    ws();
    J j;
    if (*p == '[') {
      j.k = J::Arr; ++p; ws();
      if (*p == ']') { ++p; return j; }
      for (;;) { j.a.push_back(parse()); ws(); if (*p == ',') { ++p; continue; } ++p; break; }
    } else if (*p == '{') {
      j.k = J::Obj; ++p; ws();
      if (*p == '}') { ++p; return j; }
      for (;;) {
        J key = parse(); ws(); ++p;  // ':'
        j.o[key.str] = parse(); ws();
        if (*p == ',') { ++p; continue; }
        ++p; break;
      }
    } else if (*p == '"') {
      j.k = J::Str; ++p;
      while (*p && *p != '"') j.str += *p++;
      ++p;
    } else if (!strncmp(p, "true", 4)) { j.k = J::Bool; j.n = 1; p += 4; }
    else if (!strncmp(p, "false", 5)) { j.k = J::Bool; j.n = 0; p += 5; }
    else { char* e; j.n = strtol(p, &e, 10); if (e == p) { fprintf(stderr, "plan: bad json at %.20s\n", p); exit(3); } p = e; }
    return j;
  }
};
inline std::vector<J> read_plan(const char* path) {
  std::vector<J> r;
  FILE* f = fopen(path, "r");
  if (!f) { perror(path); exit(3); }
  std::string line; int c;
  while ((c = fgetc(f)) != EOF) {
    if (c == '\n') { if (!line.empty()) { JParser jp{line.c_str()}; r.push_back(jp.parse()); } line.clear(); }
    else line += (char)c;
  }
  if (!line.empty()) { JParser jp{line.c_str()}; r.push_back(jp.parse()); }
  fclose(f);
  return r;
}

// ---------------------------------------------------------------- arguments
struct Args {
  std::map<std::string, std::string> m;
  Args(int argc, char** argv) {
    for (int i = 1; i < argc; i++) {
      std::string s = argv[i]; size_t e = s.find('=');
      if (e != std::string::npos) m[s.substr(0, e)] = s.substr(e + 1);
    }
  }
  long num(const char* k, long d) const { auto i = m.find(k); return i == m.end() ? d : atol(i->second.c_str()); }
  std::string str(const char* k, const char* d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
};

// ---------------------------------------------------------------- shapes as values
using DimV = std::vector<long>;      // {min, extent, stride}
using ShapeV = std::vector<DimV>;
using IdxV = std::vector<long>;

inline long enc_static(nda::index_t v) { return v == nda::dynamic ? DYN : (long)v; }
inline long enc_stride(nda::index_t v) { return v == nda::unresolved ? UNR : (long)v; }
inline nda::index_t dec_stride(long v) { return v == UNR ? nda::unresolved : (nda::index_t)v; }

template <class D> DimV dim_v(const D& d) {
  return {(long)d.min(), (long)d.extent(), enc_stride(d.stride())};
}
template <class Shape, size_t... Is>
ShapeV shape_v_impl(const Shape& s, std::index_sequence<Is...>) {
  return ShapeV{dim_v(s.template dim<Is>())...};
}
template <class Shape> ShapeV shape_v(const Shape& s) {
  return shape_v_impl(s, std::make_index_sequence<Shape::rank()>());
}
template <class D> DimV static_dim_v() {
  return {enc_static(D::Min), enc_static(D::Extent), enc_static(D::Stride)};
}
template <class Shape, size_t... Is>
ShapeV static_v_impl(std::index_sequence<Is...>) {
  return ShapeV{static_dim_v<typename std::tuple_element<Is, typename Shape::dims_type>::type>()...};
}
template <class Shape> ShapeV static_v() {
  return static_v_impl<Shape>(std::make_index_sequence<Shape::rank()>());
}

template <class D> D make_dim(const DimV& v) {
  nda::index_t st = dec_stride(v[2]);
  if (D::Stride != nda::dynamic) st = D::Stride;
  return D((nda::index_t)v[0], (nda::index_t)v[1], st);
}
template <class Shape, size_t... Is>
Shape make_shape_impl(const ShapeV& v, std::index_sequence<Is...>) {
  using T = typename Shape::dims_type;
  (void)v;
  return Shape(T(make_dim<typename std::tuple_element<Is, T>::type>(v[Is])...));
}
template <class Shape> Shape make_shape_of(const ShapeV& v) {
  return make_shape_impl<Shape>(v, std::make_index_sequence<Shape::rank()>());
}

template <size_t... Is>
auto idx_tuple_impl(const IdxV& v, std::index_sequence<Is...>) {
  (void)v;
  return std::make_tuple((nda::index_t)v[Is]...);
}
template <size_t R> nda::index_of_rank<R> idx_tuple(const IdxV& v) {
  return idx_tuple_impl(v, std::make_index_sequence<R>());
}
template <class Tuple, size_t... Is>
IdxV idx_v_impl(const Tuple& t, std::index_sequence<Is...>) {
  (void)t;
  return IdxV{(long)std::get<Is>(t)...};
}
template <class Tuple> IdxV idx_v(const Tuple& t) {
  return idx_v_impl(t, std::make_index_sequence<std::tuple_size<Tuple>::value>());
}
// f(i0, i1, ...) with the indices as separate arguments.
template <class F, size_t... Is>
decltype(auto) spread_impl(F&& f, const IdxV& v, std::index_sequence<Is...>) {
  (void)v;
  return f((nda::index_t)v[Is]...);
}
template <size_t R, class F> decltype(auto) spread(F&& f, const IdxV& v) {
  return spread_impl(f, v, std::make_index_sequence<R>());
}

// -- helpers used only to choose inputs (never to judge) --
inline long vsize(const ShapeV& s) { long n = 1; for (auto& d : s) n *= std::max(0l, d[1]); return n; }
inline void all_idx(const ShapeV& s, std::vector<IdxV>& r) {
  long n = vsize(s);
  for (long k = 0; k < n; k++) {
    IdxV x; long q = k;
    for (auto& d : s) { x.push_back(d[0] + q % d[1]); q /= d[1]; }
    r.push_back(x);
  }
}
inline long voff(const ShapeV& s, const IdxV& x) {
  long o = 0; for (size_t i = 0; i < s.size(); i++) o += (x[i] - s[i][0]) * s[i][2]; return o;
}
inline long vfmin(const ShapeV& s) { long o = 0; for (auto& d : s) if (d[1] > 0) o += (d[1] - 1) * std::min(0l, d[2]); return o; }
inline long vfmax(const ShapeV& s) { long o = 0; for (auto& d : s) if (d[1] > 0) o += (d[1] - 1) * std::max(0l, d[2]); return o; }
inline bool vone2one(const ShapeV& s) {
  std::vector<IdxV> xs; all_idx(s, xs);
  std::vector<long> o; for (auto& x : xs) o.push_back(voff(s, x));
  std::sort(o.begin(), o.end());
  return std::adjacent_find(o.begin(), o.end()) == o.end();
}

// Mostly small extents; sometimes long ones.
inline long rand_maxext(Rng& r, size_t rank) {
  if (rank == 1 && r.chance(25)) return 70;
  if (rank == 2 && r.chance(10)) return 12;
  return rank <= 2 ? 4 : rank == 3 ? 3 : 2;
}
// Random bounds for static description `st`.
inline ShapeV rand_bounds(Rng& r, const ShapeV& st, long maxext, int zero_pct) {
  ShapeV v;
  if (st.size() >= 5) { maxext = std::min(maxext, r.chance(10) && st.size() < 7 ? 3l : 2l); zero_pct /= 3; }
  for (auto& d : st) {
    long mn = d[0] != DYN ? d[0] : r.chance(40) ? 0 : r.in(-4, 5);
    long ex = d[1] != DYN ? d[1] : r.chance(zero_pct) ? 0 : r.in(1, maxext);
    long sr = d[2] != DYN ? d[2] : UNR;
    v.push_back({mn, ex, sr});
  }
  return v;
}
// Fill the unresolved strides with a random one-to-one layout: random order, padding, sign.
inline bool rand_strides(Rng& r, ShapeV& v, bool allow_neg, int pad_pct) {
  std::vector<size_t> dyn;
  long span = 1;
  for (size_t i = 0; i < v.size(); i++) {
    if (v[i][2] == UNR) dyn.push_back(i);
    else span = std::max(span, std::abs(v[i][2]) * std::max(1l, v[i][1]));
  }
  for (size_t i = dyn.size(); i > 1; i--) std::swap(dyn[i - 1], dyn[r.in(0, (long)i - 1)]);
  for (size_t i : dyn) {
    long s = span;
    if (r.chance(pad_pct)) s += r.in(1, 3);
    v[i][2] = (allow_neg && r.chance(30)) ? -s : s;
    span = s * std::max(1l, v[i][1]);
  }
  return vone2one(v);
}

} // namespace nd
#endif
