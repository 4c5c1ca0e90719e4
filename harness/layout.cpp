// C01/C02/C18: shape objects under mutation, address mapping, stride resolution, compaction.
#include "menu.h"
#include "array/ein_reduce.h"
using namespace nd;

template <class S> std::vector<DimV> names(S& s);
template <class S> E observe(E e, const S& s) {
  S m(s);
  e("names", names(s))("mnames", names(m));
  constexpr size_t R = S::rank();
  ShapeV v = shape_v(s);
  e("dims", v)("rank", (long)S::rank())("mins", idx_v(s.min()))("maxs", idx_v(s.max()))
   ("exts", idx_v(s.extent()))("size", (long)s.size())("empty", s.empty())("res", s.is_resolved());
  IdxV st = idx_v(s.stride());
  for (size_t i = 0; i < st.size(); i++) if (st[i] == (long)nda::unresolved) st[i] = UNR;
  e("strs", st);
  // The run-time indexed dims, and the iteration bounds of each dim.
  ShapeV rd; std::vector<IdxV> it;
  for (size_t i = 0; i < R; i++) {
    rd.push_back(dim_v(s.dim(i)));
    auto d = s.dim(i);
    it.push_back({(long)*d.begin(), (long)*d.end(), (long)d.size()});
  }
  e("rdims", rd)("iter", it)("scalar", S::is_scalar());
  if (s.is_resolved()) {
    e("fmin", (long)s.flat_min())("fmax", (long)s.flat_max())("fext", (long)s.flat_extent())
     ("compact", s.is_compact())("o2o", s.is_one_to_one());
  }
  return e;
}

template <class S, size_t... Is>
void alias_obs(E&, const S&, std::integral_constant<size_t, 0>) {}
template <class S> void names_impl(std::vector<DimV>&, S&, std::integral_constant<size_t, 0>) {}
template <class S> void names_impl(std::vector<DimV>& r, S& s, std::integral_constant<size_t, 1>) {
  r.push_back(dim_v(s.i())); r.push_back(dim_v(s.x()));
}
template <class S> void names_impl(std::vector<DimV>& r, S& s, std::integral_constant<size_t, 2>) {
  names_impl(r, s, std::integral_constant<size_t, 1>());
  r.push_back(dim_v(s.j())); r.push_back(dim_v(s.y()));
  r.push_back({(long)s.rows(), (long)s.columns(), 0});
  r.push_back({(long)s.width(), (long)s.height(), 0});
}
template <class S> void names_impl(std::vector<DimV>& r, S& s, std::integral_constant<size_t, 3>) {
  names_impl(r, s, std::integral_constant<size_t, 2>());
  r.push_back(dim_v(s.k())); r.push_back(dim_v(s.z())); r.push_back(dim_v(s.c()));
  r.push_back({(long)s.channels(), 0, 0});
}
template <class S> void names_impl(std::vector<DimV>& r, S& s, std::integral_constant<size_t, 4>) {
  names_impl(r, s, std::integral_constant<size_t, 3>());
  r.push_back(dim_v(s.w()));
}
template <class S, size_t R> std::enable_if_t<(R > 4)> names_impl(std::vector<DimV>& r, S& s, std::integral_constant<size_t, R>) {
  names_impl(r, s, std::integral_constant<size_t, 4>());
}
template <class S> std::vector<DimV> names(S& s) {
  std::vector<DimV> r; names_impl(r, s, std::integral_constant<size_t, S::rank()>()); return r;
}
// An array or reference (constant or not) repeats what its shape reports.
template <class Obj, size_t... I> std::vector<DimV> tdims(Obj& o, std::index_sequence<I...>) {
  return {dim_v(o.template dim<I>())...};
}
template <class Obj> void facade(Obj& o) {
  constexpr size_t R = Obj::rank();
  std::vector<DimV> rd;
  for (size_t i = 0; i < R; i++) rd.push_back(dim_v(o.dim(i)));
  auto b = o.bounds();
  E e("facade");
  e("names", names(o))("tdims", tdims(o, std::make_index_sequence<R>()))("rdims", rd)("dims", shape_v(o.shape()))
   ("size", (long)o.size())("empty", o.empty())("null", o.base() == nullptr)("rank", (long)R)("scalar", Obj::is_scalar())
   ("compact", o.is_compact())("bst", static_v<decltype(b)>())("bdims", shape_v(b));
  emit(e);
}

static std::vector<int> arena(1 << 20);
static int* mid() { return arena.data() + arena.size() / 2; }

struct RangeCall {
  template <class S> static bool go(const S& s, const std::vector<IdxV>& a, std::integral_constant<size_t, 0>) { (void)a; return s.is_in_range(std::make_tuple()); }
  template <class S> static bool go(const S& s, const std::vector<IdxV>& a, std::integral_constant<size_t, 1>) {
    return s.is_in_range(nda::interval<>(a[0][0], a[0][1]));
  }
  template <class S> static bool go(const S& s, const std::vector<IdxV>& a, std::integral_constant<size_t, 2>) {
    return s.is_in_range(nda::interval<>(a[0][0], a[0][1]), nda::dim<>(a[1][0], a[1][1], 7));
  }
  template <class S> static bool go(const S& s, const std::vector<IdxV>& a, std::integral_constant<size_t, 3>) {
    return s.is_in_range(nda::interval<>(a[0][0], a[0][1]), nda::dim<>(a[1][0], a[1][1]), nda::interval<>(a[2][0], a[2][1]));
  }
  template <class S> static bool go(const S& s, const std::vector<IdxV>& a, std::integral_constant<size_t, 4>) {
    return s.is_in_range(std::make_tuple(nda::dim<>(a[0][0], a[0][1]), nda::dim<>(a[1][0], a[1][1]), nda::interval<>(a[2][0], a[2][1]), nda::interval<>(a[3][0], a[3][1])));
  }
  template <class S, size_t... Is> static bool all(const S& s, const std::vector<IdxV>& a, std::index_sequence<Is...>) {
    return s.is_in_range(nda::interval<>(a[Is][0], a[Is][1])...);
  }
  template <class S, size_t R> static std::enable_if_t<(R > 4), bool> go(const S& s, const std::vector<IdxV>& a, std::integral_constant<size_t, R>) {
    return all(s, a, std::make_index_sequence<R>());
  }
};

// Probe the address mapping through every accessor.
template <class S> void probe(Rng& r, const S& s, int nprobe) {
  constexpr size_t R = S::rank();
  ShapeV v = shape_v(s);
  if (vsize(v) == 0) return;
  nda::array_ref<int, S> ref(mid(), s);
  nda::array_ref<const int, S> cref = ref;
  emit(E("data")("data", (long)(ref.data() - mid()))("cdata", (long)(cref.data() - mid()))
       ("base", (long)(ref.base() - mid())));
  const auto kref = ref;
  facade(ref); facade(kref); facade(cref);
  for (int k = 0; k < nprobe; k++) {
    IdxV x;
    for (auto& d : v) {
      // in bounds mostly at the ends, where mistakes show
      int c = (int)r.in(0, 3);
      x.push_back(c == 0 ? d[0] : c == 1 ? d[0] + d[1] - 1 : r.in(d[0], d[0] + d[1] - 1));
    }
    std::vector<long> offs;
    auto t = idx_tuple<R>(x);
    offs.push_back((long)s[t]);
    offs.push_back((long)spread<R>([&](auto... i) { return s(i...); }, x));
    offs.push_back((long)(&ref[t] - mid()));
    offs.push_back((long)(spread<R>([&](auto... i) { return &ref(i...); }, x) - mid()));
    offs.push_back((long)(&cref[t] - mid()));
    offs.push_back((long)(spread<R>([&](auto... i) { return &cref(i...); }, x) - mid()));
    emit(E("at")("idx", x)("offs", offs));
  }
  for (int k = 0; k < nprobe; k++) {
    IdxV x;
    for (auto& d : v) x.push_back(r.chance(50) ? r.in(d[0], d[0] + d[1] - 1) : r.in(d[0] - 2, d[0] + d[1] + 1));
    std::vector<bool> in;
    in.push_back(s.is_in_range(idx_tuple<R>(x)));
    in.push_back(spread<R>([&](auto... i) { return s.is_in_range(std::make_tuple(i...)); }, x));
    bool each = true;
    for (size_t i = 0; i < R; i++) each = each && s.dim(i).is_in_range((nda::index_t)x[i]);
    in.push_back(each);
    emit(E("inr")("idx", x)("in", in));
  }
  for (int k = 0; k < 2; k++) {
    std::vector<IdxV> a;
    for (auto& d : v) {
      long lo = r.in(d[0] - 1, d[0] + d[1] - 1);
      long ex = r.chance(70) && lo >= d[0] ? r.in(1, std::max(1l, d[0] + d[1] - lo)) : r.in(1, d[1] + 1);
      a.push_back({lo, ex});
    }
    emit(E("inri")("args", a)("in", RangeCall::go(s, a, std::integral_constant<size_t, R>())));
  }
}

// An owning array: where its elements lie in the allocation.
template <class S> void own(const S& s) {
  constexpr size_t R = S::rank();
  pending("own");
  last_alloc() = {nullptr, 0};
  nda::array<int, S, rec_alloc<int>> a(s);
  AllocRec rec = last_alloc();
  ShapeV v = shape_v(a.shape());
  const auto& ca = a;
  E e("own");
  e("dims", v)("n", (long)rec.n)("has", rec.p != nullptr)("null", a.base() == nullptr)("empty", a.empty())("size", (long)a.size());
  if (rec.p) {
    std::vector<IdxV> xs; all_idx(v, xs);
    std::vector<long> o0, o1, o2, o3, seq;
    int* p = (int*)rec.p;
    for (auto& x : xs) {
      o0.push_back((long)(spread<R>([&](auto... i) { return &a(i...); }, x) - p));
      o1.push_back((long)(&a[idx_tuple<R>(x)] - p));
      o2.push_back((long)(spread<R>([&](auto... i) { return &ca(i...); }, x) - p));
      o3.push_back((long)(&ca[idx_tuple<R>(x)] - p));
    }
    e("base", (long)(a.base() - p))("data", (long)(a.data() - p))("cdata", (long)(ca.data() - p))
     ("cbase", (long)(ca.base() - p))
     ("offs", std::vector<std::vector<long>>{o0, o1, o2, o3})
     ("rbase", (long)(a.ref().base() - p))("rdims", shape_v(a.ref().shape()))("crdims", shape_v(ca.cref().shape()));
  }
  emit(e);
  facade(a); facade(ca);
}

// The dimension itself, by its number or one of its names.
template <size_t I, class S> auto& some_name(S& s, int, std::integral_constant<size_t, I>) { return s.template dim<I>(); }
template <class S> auto& some_name(S& s, int how, std::integral_constant<size_t, 0>) { return how == 0 ? s.template dim<0>() : how == 1 ? s.i() : s.x(); }
template <class S> auto& some_name(S& s, int how, std::integral_constant<size_t, 1>) { return how == 0 ? s.template dim<1>() : how == 1 ? s.j() : s.y(); }
template <class S> auto& some_name(S& s, int how, std::integral_constant<size_t, 2>) {
  return how == 0 ? s.template dim<2>() : how == 1 ? s.k() : how == 2 ? s.z() : s.c();
}
template <class S> auto& some_name(S& s, int how, std::integral_constant<size_t, 3>) { return how == 0 ? s.template dim<3>() : s.w(); }
static int how_named = 0;
template <size_t I, class S, bool B = (I < S::rank())> struct SetDim {
  static void go(S& s, size_t i, int what, long v) {
    if (i == I) {
      auto& d = some_name(s, how_named++ % 4, std::integral_constant<size_t, I>());
      if (what == 0) d.set_min((nda::index_t)v);
      else if (what == 1) d.set_extent((nda::index_t)v);
      else if (what == 2) d.set_stride(dec_stride(v));
      else d.set_max((nda::index_t)v);
    } else SetDim<I + 1, S>::go(s, i, what, v);
  }
};
template <size_t I, class S> struct SetDim<I, S, false> { static void go(S&, size_t, int, long) {} };

// One session: a shape object under a random history of mutations with queries in between.
template <class S> void history(Rng& r, int steps, int nprobe) {
  ShapeV st = static_v<S>();
  begin_session("hist");
  pending("default");
  { S s; emit(observe(E("default")("st", st), s)); }
  ShapeV v = rand_bounds(r, st, 4, 10);
  if (r.chance(50)) rand_strides(r, v, true, 40);
  else for (size_t i = 0; i < v.size(); i++) if (v[i][2] == UNR && r.chance(50)) v[i][2] = r.in(-6, 12);
  pending("new");
  S s = make_shape_of<S>(v);
  emit(observe(E("new")("st", st)("arg", v), s));
  for (int k = 0; k < steps; k++) {
    int c = (int)r.in(0, 7);
    if (c <= 4 && S::rank() > 0) {
      size_t i = (size_t)r.in(0, (long)S::rank() - 1);
      int what = (int)r.in(0, 3);
      long big = S::rank() >= 5 ? 2 : 4;
      long val = what == 0 ? r.in(-5, 6) : what == 1 ? r.in(S::rank() >= 5 && r.chance(80) ? 1 : 0, big) : what == 2 ? (r.chance(20) ? UNR : r.in(-7, 9)) : 0;
      ShapeV cur = shape_v(s);
      if (what == 3) val = cur[i][0] - 1 + r.in(0, big);
      // respect static values (the contract of the setters)
      long stat = what == 3 ? (st[i][1] == DYN ? DYN : cur[i][0] + st[i][1] - 1) : st[i][what];
      if (stat != DYN) val = stat;
      pending("set");
      if (s.is_resolved() && val != UNR && r.chance(50)) {
        nda::array_ref<int, S> ref(mid(), s);
        SetDim<0, nda::array_ref<int, S>>::go(ref, i, what, val);
        s = ref.shape();
      } else
      SetDim<0, S>::go(s, i, what, val);
      emit(observe(E("set")("d", (long)i + 1)("what", (long)what)("v", val), s));
    } else if (c == 5) {
      auto b = s.bounds();
      emit(observe(E("bounds")("st", static_v<decltype(b)>()), b));
    } else if (c == 6) {
      S t; t = s; S u(t); nda::shape_of_rank<S::rank()> w(u);
      emit(observe(E("assign")("eq", t == s && !(t != s) && u == s && w == s && !(w != u)), u));
    } else {
      pending("resolve");
      s.resolve();
      emit(observe(E("resolve"), s));
      probe(r, s, nprobe);
    }
  }
  if (!s.is_resolved()) { s.resolve(); emit(observe(E("resolve"), s)); }
  probe(r, s, nprobe);
  end_session();
}

// Arrays of random one-to-one layouts.
template <class S> void owning(Rng& r, int n) {
  ShapeV st = static_v<S>();
  begin_session("own");
  for (int k = 0; k < n; k++) {
    ShapeV v = rand_bounds(r, st, 3, 12);
    bool ok = true;
    if (r.chance(70)) ok = rand_strides(r, v, true, 40);
    if (!ok) continue;
    emit(E("want")("arg", v));
    own(make_shape_of<S>(v));
  }
  end_session();
}

// C02: resolve one dynamic shape given by the plan / at random, in every construction that resolves.
template <size_t R> void resolve_case(const ShapeV& v) {
  using S = nda::shape_of_rank<R>;
  S s = make_shape_of<S>(v);
  pending("resolve_case");
  E e("rcase");
  e("arg", v)("ures", s.is_resolved());
  S t = s; t.resolve();
  S u = t; u.resolve();
  e("out", shape_v(t))("again", shape_v(u))("res", t.is_resolved());
  nda::array_ref<int, S> ref(mid(), s);
  e("ref", shape_v(ref.shape()));
  e("mref", shape_v(nda::make_array_ref(mid(), s).shape()));
  S c = nda::make_shape_from_tuple(s.dims()); c.resolve();
  e("tup", shape_v(c));
  bool in_domain = true;
  long sz = 1;
  for (auto& d : shape_v(t)) { in_domain = in_domain && std::abs(d[2]) < 100000; sz *= d[1]; }
  if (in_domain && sz <= 200 && std::abs(vfmax(shape_v(t)) - vfmin(shape_v(t))) < 100000 && vone2one(shape_v(t))) {
    nda::array<int, S> a(s);
    e("arr", shape_v(a.shape()));
    nda::array<int, S> b(s, 5);
    e("arrv", shape_v(b.shape()));
    nda::array<int, S> d; d.assign(s, 3); 
    e("asg", shape_v(d.shape()));
    nda::array<int, S> f; f.reshape(s);
    e("rsh", shape_v(f.shape()));
    e("mk", shape_v(nda::make_array<int>(s).shape()));
    e("arrok", true);
  } else e("arrok", false);
  emit(e);
}
static void resolve_any(const ShapeV& v) {
  switch (v.size()) {
  case 0: resolve_case<0>(v); break;
  case 1: resolve_case<1>(v); break;
  case 2: resolve_case<2>(v); break;
  case 3: resolve_case<3>(v); break;
  case 4: resolve_case<4>(v); break;
  case 5: resolve_case<5>(v); break;
  case 6: resolve_case<6>(v); break;
  }
}
// C02 on typed shapes (static bounds and strides).
template <class S> void resolve_typed(Rng& r, int n) {
  ShapeV st = static_v<S>();
  begin_session("rtyped");
  for (int k = 0; k < n; k++) {
    ShapeV v = rand_bounds(r, st, 4, 8);
    for (size_t i = 0; i < v.size(); i++)
      if (v[i][2] == UNR && r.chance(35)) v[i][2] = r.pick({1, 2, 3, 4, 6, 8, 12, 24, 0, -1, -2, -6});
    S s = make_shape_of<S>(v);
    S t = s; t.resolve(); S u = t; u.resolve();
    nda::array_ref<int, S> ref(mid(), s);
    emit(E("rcase")("arg", v)("ures", s.is_resolved())("out", shape_v(t))("again", shape_v(u))("res", t.is_resolved())
         ("ref", shape_v(ref.shape()))("mref", shape_v(nda::make_array_ref(mid(), s).shape()))("tup", shape_v(t))
         ("arrok", false));
  }
  end_session();
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r((uint64_t)a.num("seed", 1) * 7919 + 11);
  std::string mode = a.str("mode");
  long n = a.num("n", 2);
  if (mode == "hist") {
    for (long k = 0; k < n; k++) {
      for_menu([&](auto t) { history<typename decltype(t)::type>(r, 8, 4); });
      for_menu([&](auto t) { owning<typename decltype(t)::type>(r, 4); });
    }
  } else if (mode == "resolve") {
    if (!a.str("plan").empty()) {
      std::vector<J> plan = read_plan(a.str("plan").c_str());
      long i = 0;
      for (const J& line : plan) {
        if (i % 100 == 0) { end_session(); begin_session("plan"); }
        i++;
        ShapeV v; for (const J& d : line["s"].a) v.push_back(d.longs());
        resolve_any(v);
      }
      end_session();
    }
    for (long k = 0; k < n; k++) {
      begin_session("rand");
      for (int j = 0; j < 60; j++) {
        ShapeV v; long rk = r.chance(15) ? r.in(5, 6) : r.in(1, 4);
        for (long i = 0; i < rk; i++) v.push_back({r.in(-3, 3), r.chance(8) ? 0 : r.in(1, rk > 4 ? 2 : 5), UNR});
        if (r.chance(70)) rand_strides(r, v, true, 40);
        for (auto& d : v) if (r.chance(55)) d[2] = UNR; else if (r.chance(10)) d[2] = r.in(-4, 12);
        resolve_any(v);
      }
      end_session();
      for_menu([&](auto t) { resolve_typed<typename decltype(t)::type>(r, 6); });
    }
  }
  finish_out();
  return 0;
}
