// C07: z-order traversal.
#include "nd.h"
#include "array/z_order.h"
#include <deque>
using namespace nd;
using nda::interval; using nda::dim;

// What is observed of an element of a range.
// Elements are told relative to a number as large as it may be.
static long& off() { static long o = 0; return o; }
inline long obs(long x) { return x - off(); }
template <nda::index_t A, nda::index_t B> long obs(const interval<A, B>& i) { return (i.min() - off()) * 100 + i.extent(); }
template <class R> std::vector<long> elems(const R& r) {
  std::vector<long> v;
  long n = (long)(std::end(r) - std::begin(r));
  for (long k = 0; k < n; k++) v.push_back(obs(*(std::begin(r) + k)));
  return v;
}
template <class T, size_t... Is> IdxV obs_elems(const T& t, std::index_sequence<Is...>) { return {obs(std::get<Is>(t))...}; }
template <class T> IdxV obs_tuple(const T& t) { return obs_elems(t, std::make_index_sequence<std::tuple_size<T>::value>()); }

template <class... Rs> void run(Rng& r, const Rs&... rs) {
  std::vector<std::vector<long>> ranges{elems(rs)...};
  auto t = std::make_tuple(rs...);
  int api = (int)r.in(0, 2);
  emit(E("begin")("ranges", ranges)("api", api));
  pending("z_order");
  bool usable = true;
  if (api == 0) nda::for_each_in_z_order(t, [](const auto& x) { emit(E("call")("x", obs_tuple(x))); });
  else if (api == 1) nda::for_all_in_z_order(t, [](const auto&... x) { emit(E("call")("x", IdxV{obs(x)...})); });
  else {
    using elem = std::tuple<std::decay_t<decltype(*std::begin(rs))>...>;
    std::function<void(const elem&)> f = [](const elem& x) { emit(E("call")("x", obs_tuple(x))); };
    nda::for_each_in_z_order(t, f);
    usable = (bool)f;
  }
  emit(E("end")("usable", usable));
}
interval<> iv(Rng& r, long n) { return interval<>(off() + r.in(-20, 20), n); }
std::vector<int> vec(Rng& r, long n) { std::vector<int> v; for (long i = 0; i < n; i++) v.push_back((int)(r.in(0, 5) * 100 + i)); return v; }

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r((uint64_t)a.num("seed", 1) * 4241 + 5);
  long n = a.num("n", 2);
  auto S = [](auto f) { begin_session("z"); f(); end_session(); };
  for (long k = 0; k <= a.num("m1", 33); k++) S([&] { run(r, iv(r, k)); run(r, vec(r, k)); });
  long m2 = a.num("m2", 6), m3 = a.num("m3", 3), m4 = a.num("m4", 2);
  for (long x = 0; x <= m2; x++) for (long y = 0; y <= m2; y++) S([&] { run(r, iv(r, x), iv(r, y)); });
  for (long x = 0; x <= m3; x++) for (long y = 0; y <= m3; y++) for (long z = 0; z <= m3; z++)
    S([&] { run(r, iv(r, x), iv(r, y), iv(r, z)); });
  for (long x = 0; x <= m4; x++) for (long y = 0; y <= m4; y++) for (long z = 0; z <= m4; z++) for (long w = 0; w <= m4; w++)
    S([&] { run(r, iv(r, x), iv(r, y), iv(r, z), iv(r, w)); });
  for (long k = 0; k < n; k++) {
    S([&] { run(r, iv(r, r.in(1, 20)), iv(r, r.in(1, 20))); });
    S([&] { run(r, vec(r, r.in(0, 12)), dim<>(r.in(-5, 5), r.in(1, 12), 7)); });
    S([&] { run(r, nda::split<3>(interval<>(r.in(-5, 5), r.in(3, 25))), nda::split(interval<>(r.in(-5, 5), r.in(0, 30)), r.in(1, 6))); });
    S([&] { run(r, iv(r, r.in(1, 9)), nda::split(interval<>(0, r.in(1, 20)), r.in(1, 6)), vec(r, r.in(1, 5))); });
    S([&] { run(r, iv(r, r.in(1, 3)), iv(r, r.in(1, 33))); run(r, iv(r, r.in(1, 33)), iv(r, r.in(1, 3))); });
    S([&] { run(r, interval<2, 5>(), nda::fixed_dim<3>(r.in(-3, 3), 3), nda::range<4>(r.in(-4, 4))); });
    S([&] { run(r, iv(r, r.in(1, 4)), iv(r, r.in(1, 4)), iv(r, r.in(1, 4)), iv(r, r.in(1, 3))); });
    S([&] { run(r, iv(r, r.in(1, 3)), iv(r, r.in(1, 2)), iv(r, r.in(1, 3)), iv(r, r.in(1, 2)), iv(r, r.in(1, 3))); });
  }
  // Long and thin boxes; elements far from zero.
  for (long k = 0; k < n / 4 + 1; k++) {
    S([&] { run(r, iv(r, k == 0 ? 257 : r.in(200, 1100))); });
    S([&] { long t = r.in(1, 3), l = r.in(100, 700); if (r.chance(50)) run(r, iv(r, t), iv(r, l)); else run(r, iv(r, l), iv(r, t)); });
    S([&] { long q[3] = {r.in(1, 2), r.in(1, 2), r.in(1, 2)}; q[r.in(0, 2)] = r.in(60, 400); run(r, iv(r, q[0]), iv(r, q[1]), iv(r, q[2])); });
    S([&] { long q[4] = {1, 1, 1, 1}; q[r.in(0, 3)] = r.in(20, 100); q[r.in(0, 3)] = 2; run(r, iv(r, q[0]), iv(r, q[1]), iv(r, q[2]), iv(r, q[3])); });
    for (long o : {(long)std::numeric_limits<nda::index_t>::max() - 2000, (long)std::numeric_limits<nda::index_t>::min() + 2000}) {
      off() = o;
      S([&] { run(r, iv(r, r.in(1, 40)), iv(r, r.in(1, 12))); });
      S([&] { run(r, iv(r, r.in(1, 5)), nda::split<4>(interval<>(o, r.in(4, 30))), iv(r, r.in(1, 3))); });
      S([&] { run(r, nda::split(dim<>(o - 20, r.in(1, 30)), r.in(1, 7)), nda::fixed_dim<5>(o, 5)); });
      off() = 0;
    }
  }
  finish_out();
  return 0;
}
