// C06: intervals, ranges, clamping, splits.
#include "nd.h"
using namespace nd;
using nda::interval; using nda::dim;

template <class I> std::vector<long> iv(const I& i) { return {(long)i.min(), (long)i.extent()}; }

template <class SR> void walk(Rng& r, const char* src, long mn, long ex, long inner, bool fixed, const SR& sr) {
  emit(E("split")("src", src)("v", std::vector<long>{mn, ex})("inner", inner)("fixed", fixed));
  pending("split");
  long n1 = 0, n2 = 0, n3 = 0;
  auto b = sr.begin();
  auto en = sr.end();
  auto pre = b;
  for (auto p : sr) {
    if (n1 > 400) { n1 = BIG; break; }
    std::vector<long> el;
    for (nda::index_t x : p) { el.push_back(x); if (el.size() > 300) break; }
    emit(E("piece")("p", iv(p))("max", p.max())("elems", el)
         ("diffs", std::vector<long>{(long)(pre - b), (long)((b + n1) - b)}));
    ++pre; n1++;
  }
  for (auto i = std::begin(sr); i != std::end(sr); ++i) if (++n2 > 400) break;
  for (auto i = sr.begin(); !(i == sr.end()); i++) if (++n3 > 400) break;
  std::vector<long> fromend;
  auto q = b;
  for (long k = 0; k < n1 && k < 400; k++) { fromend.push_back((long)(en - q)); ++q; }
  fromend.push_back((long)(en - q));
  emit(E("over")("size", sr.size())("walks", std::vector<long>{n1, n2, n3})("fromend", fromend));
  for (long t = 0; t < std::min(n1, 4l); t++) {
    long k = r.in(0, n1 - 1), j = r.in(0, k);
    auto ij = b + j;
    auto ik = ij; ik += k - j;
    auto it = b; for (long x = 0; x < k; x++) it++;
    std::vector<std::vector<long>> ps{iv(b[k]), iv(*sr[k]), iv(*(b + k)), iv(ij[k - j]), iv(*(ij + (k - j))), iv(*ik),
                                      iv(*it), {(long)sr[k]->min(), (long)sr[k]->extent()}};
    // The values of the increments themselves.
    auto post = b + k;
    ps.push_back(iv(*post++));
    if (k > 0) {
      auto pre = b + (k - 1);
      ps.push_back(iv(*++pre));
      auto pp = b + (k - 1);
      pp++;
      ps.push_back({(long)pp->min(), (long)pp->extent()});
      auto add = b + j;
      ps.push_back(iv(*(add += k - j)));
    }
    emit(E("access")("k", k)("j", j)("ps", ps)("ds", std::vector<long>{(long)(ik - ij), (long)(it - ij), (long)(sr[k] - sr[j])})
         ("eqs", it == ij));
  }
}

template <nda::index_t N> void fixed_split(Rng& r, long mn, long ex) {
  if (ex < N) return;
  switch (r.in(0, 2)) {
  case 0: walk(r, "interval", mn, ex, N, true, nda::split<N>(interval<>(mn, ex))); break;
  case 1: walk(r, "dim", mn, ex, N, true, nda::split<N>(dim<>(mn, ex, r.in(-3, 3)))); break;
  default: {
    nda::array_of_rank<char, 1> a({dim<>(mn, ex)});
    walk(r, "array dim", mn, ex, N, true, nda::split<N>(a.x()));
  }
  }
}
void dyn_split(Rng& r, long mn, long ex, long n) {
  switch (r.in(0, 3)) {
  case 0: walk(r, "interval", mn, ex, n, false, nda::split(interval<>(mn, ex), n)); break;
  case 1: walk(r, "dim", mn, ex, n, false, nda::split(dim<>(mn, ex, r.in(-3, 3)), n)); break;
  case 2: walk(r, "dim0", mn, ex, n, false, nda::split(nda::dense_dim<>(mn, ex), n)); break;
  default: if (ex == 7) walk(r, "static", mn, ex, n, false, nda::split(interval<nda::dynamic, 7>(mn, 7), n));
           else walk(r, "range", mn, ex, n, false, nda::split(nda::range(mn, mn + ex), n));
  }
}
void static_splits(Rng& r) {
  walk(r, "s", 2, 7, 3, true, nda::split<3>(interval<2, 7>()));
  walk(r, "s", -4, 9, 4, true, nda::split<4>(dim<-4, 9, 2>()));
  walk(r, "s", 5, 6, 6, true, nda::split<6>(interval<nda::dynamic, 6>(5)));
  walk(r, "s", 0, 11, 4, false, nda::split(interval<0, 11>(), 4));
  walk(r, "s", 3, 10, 11, false, nda::split(nda::fixed_dim<10>(3, 10), 11));
}

// ---------------------------------------------------------------- intervals
template <class I, class D> E& report(Rng& r, E& e, const I& v, const D& d) {
  std::vector<long> it, it2, back, nth, probe, cl, cl2;
  std::vector<bool> inr, dinr;
  for (nda::index_t x : v) { it.push_back(x); if (it.size() > 200) break; }
  for (auto i = nda::begin(v); i != nda::end(v); i++) { it2.push_back(*i); if (it2.size() > 200) break; }
  { auto i = v.end(); for (long k = 0; k < std::min<long>(v.extent(), 200); k++) { if (k % 2) i--; else --i; back.push_back(*i); } }
  static long turn = 0; turn += 3;   // every way, with small intervals too
  for (long k = 0; k < std::min<long>(v.extent(), 200); k++) {
    auto i = v.begin();
    long x = 0;
    switch ((k + turn) % 10) {
    case 4: i += k; x = *i++; break;
    case 5: if (k > 0) { i += k - 1; x = *++i; } else x = *i; break;
    case 6: i += k; x = *i--; break;
    case 7: i += k + 1; x = *--i; break;
    case 8: x = *((i += k + 2) -= 2); break;
    case 0: x = *(i + k); break;
    case 1: x = i[k]; break;
    case 2: i += k; x = *i; break;
    case 9: { auto j = v.end(); auto q = j - (nda::index_t)(v.extent() - k); x = *q; break; }
    default: { auto j = v.end(); j -= v.extent() - k; x = *j; break; }
    }
    nth.push_back(x);
  }
  for (long k = 0; k < 8; k++) probe.push_back(v.min() + r.in(-3, v.extent() + 2));
  probe.push_back(v.min()); probe.push_back(v.max()); probe.push_back(v.min() - 1); probe.push_back(v.max() + 1);
  for (long p : probe) {
    inr.push_back(v.is_in_range(p)); dinr.push_back(d.is_in_range(p));
    cl.push_back(nda::clamp(p, v)); cl2.push_back(r.chance(50) ? nda::clamp(p, d) : nda::clamp(p, v.min(), v.max()));
  }
  auto e0 = v.end();
  e("min", v.min())("ext", v.extent())("size", v.size())("max", v.max())("iter", it)("iter2", it2)("back", back)
   ("dist", e0 - v.begin())("nth", nth)("probe", probe)("inr", inr)("dinr", dinr)("clamped", cl)("clamped2", cl2);
  return e;
}

template <class I> void compare(Rng& r, const I& v) {
  long m = v.min() + r.in(-2, 3), x = r.in(1, std::max<long>(2, v.extent() + 2));
  if (r.chance(40)) { m = v.min(); x = std::max<long>(0, v.extent() + r.in(-1, 0)); }
  interval<> o(m, x);
  dim<> od(m, x, 3);
  dim<> vd(v.min(), v.extent(), 2);
  emit(E("compare")("other", std::vector<long>{m, x})("eq", v == o)("ne", v != o)
       ("within", std::vector<bool>{v.is_in_range(o), v.is_in_range(od), vd.is_in_range(o), vd.is_in_range(od)}));
}

template <class I, class D> void statics(Rng& r, long mn, long ex) {
  I v(mn, ex);
  E e("interval");
  e("arg", std::vector<long>{mn, ex});
  emit(report(r, e, v, D(mn, ex)));
  compare(r, v);
  interval<> c(v);
  E e2("interval");
  e2("arg", std::vector<long>{mn, ex});
  emit(report(r, e2, c, dim<>(mn, ex)));
  I w(c);
  E e3("interval");
  e3("arg", std::vector<long>{mn, ex});
  emit(report(r, e3, w, D(c.min(), c.extent())));
}

void interval_history(Rng& r) {
  begin_session("interval");
  long mn = r.in(-20, 20), ex = r.in(0, 12);
  interval<> v(mn, ex);
  { E e("interval"); e("arg", std::vector<long>{mn, ex}); emit(report(r, e, v, dim<>(mn, ex))); }
  for (int k = 0; k < 8; k++) {
    int what = (int)r.in(0, 4);
    if (what <= 2) {
      long x = what == 0 ? r.in(-15, 15) : what == 1 ? r.in(0, 10) : v.min() + r.in(-1, 9);
      if (what == 0) v.set_min(x); else if (what == 1) v.set_extent(x); else v.set_max(x);
      dim<> d(v.min(), v.extent(), r.in(-2, 2));
      E e("set"); e("what", what)("v", x); emit(report(r, e, v, d));
    } else if (what == 3) {
      long b = r.in(-10, 10), en = b + r.in(0, 9);
      v = r.chance(50) ? nda::range(b, en) : nda::r(b, en);
      E e("range"); e("begin", b)("end", en); emit(report(r, e, v, dim<>(v, 1)));
    } else compare(r, v);
  }
  { auto q = nda::range<4>(mn); E e("range"); e("begin", mn)("end", mn + 4); emit(report(r, e, q, nda::fixed_dim<4>(mn, 4))); compare(r, q); }
  { auto q = nda::r<1>(mn); E e("range"); e("begin", mn)("end", mn + 1); emit(report(r, e, q, nda::fixed_dim<1>(mn, 1))); }
  { interval<> q(mn); E e("interval"); e("arg", std::vector<long>{mn, 1}); emit(report(r, e, q, dim<>(q))); }
  { interval<> q; E e("interval"); e("arg", std::vector<long>{0, 1}); emit(report(r, e, q, dim<>(1))); }
  { dim<> q; E e("interval"); e("arg", std::vector<long>{0, 0}); emit(report(r, e, interval<>(q.min(), q.extent()), q)); }
  { interval<3> q; E e("interval"); e("arg", std::vector<long>{3, 1}); emit(report(r, e, q, dim<3>(1))); }
  { interval<3, 5> q; E e("interval"); e("arg", std::vector<long>{3, 5}); emit(report(r, e, q, dim<3, 5>())); }
  { interval<nda::dynamic, 5> q; E e("interval"); e("arg", std::vector<long>{0, 5}); emit(report(r, e, q, dim<nda::dynamic, 5>())); }
  statics<interval<>, dim<>>(r, mn, ex);
  statics<interval<-2>, dim<-2>>(r, -2, ex);
  statics<interval<nda::dynamic, 6>, dim<nda::dynamic, 6>>(r, mn, 6);
  statics<interval<4, 3>, dim<4, 3, 2>>(r, 4, 3);
  end_session();
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r((uint64_t)a.num("seed", 1) * 6151 + 11);
  long n = a.num("n", 2), maxext = a.num("maxext", 20);
  // Exhaustive over small extents and piece sizes, random minimum.
  for (long ex = 0; ex <= maxext; ex++) {
    begin_session("split");
    for (long inner = 1; inner <= ex + 2; inner++) dyn_split(r, r.in(-9, 9), ex, inner);
    dyn_split(r, r.in(-9, 9), ex, 1000);
    long mn = r.in(-9, 9);
    fixed_split<1>(r, mn, ex); fixed_split<2>(r, mn, ex); fixed_split<3>(r, mn, ex); fixed_split<4>(r, mn, ex);
    fixed_split<5>(r, mn, ex); fixed_split<6>(r, mn, ex); fixed_split<7>(r, mn, ex); fixed_split<8>(r, mn, ex);
    fixed_split<11>(r, mn, ex); fixed_split<16>(r, mn, ex);
    end_session();
  }
  begin_session("static");
  static_splits(r);
  end_session();
  for (long k = 0; k < n; k++) {
    begin_session("split large");
    for (int q = 0; q < 3; q++) {
      long ex = r.in(20, 90);
      dyn_split(r, r.in(-900, 900), ex, r.in(1, 100));
      fixed_split<13>(r, r.in(-900, 900), ex);
      fixed_split<9>(r, r.in(-900, 900), ex);
    }
    end_session();
    interval_history(r);
  }
  finish_out();
  return 0;
}
