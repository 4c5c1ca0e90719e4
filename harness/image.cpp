// C19: crops and channel slices of images.
#include "viewtools.h"
#include <new>
#ifndef PART
#define PART 0
#endif
// Arrays with the default allocator may take their buffer from the region.
static bool serve = false;
static void* take(size_t n) {
  if (serve && !blk().live) { blk() = Blk{40, (long)(n / sizeof(int)), true, blk().allocs + 1}; return mid() + 40; }
  return malloc(n);
}
static void give(void* p) {
  if ((char*)p >= region() && (char*)p < region() + BYTES) {
    if (logfree) emit(E("free")("block", std::vector<long>{rel(p), blk().n}));
    blk().live = false;
  } else free(p);
}
void* operator new(size_t n) { return take(n); }
void operator delete(void* p) noexcept { if (p) give(p); }
void operator delete(void* p, size_t) noexcept { if (p) give(p); }

using nda::crop_origin;

struct Rect { long x0, y0, x1, y1; bool zero; bool dflt; };
inline long edge(Rng& r, const DimV& d) {
  int k = (int)r.in(0, 9);
  return k < 6 ? r.in(d[0], d[0] + d[1]) : k < 8 ? r.in(d[0] - 3, d[0] + d[1] + 3) : k == 8 ? d[0] : d[0] + d[1];
}
template <class S> Rect rand_rect(Rng& r, const ShapeV& d) {
  Rect q;
  q.x0 = edge(r, d[0]); q.x1 = edge(r, d[0]); q.y0 = edge(r, d[1]); q.y1 = edge(r, d[1]);
  if (r.chance(85)) { if (q.x1 < q.x0) std::swap(q.x0, q.x1); if (q.y1 < q.y0) std::swap(q.y0, q.y1); }
  if (r.chance(5)) { q.x0 = -1000; q.y1 = 1000; }
  q.zero = r.chance(50);
  q.dflt = !q.zero && r.chance(40);
  ShapeV st = static_v<S>();   // a constant min only admits crops that have it
  if (!q.zero) {
    if (st[0][0] != DYN) q.x0 = std::min(q.x0, st[0][0]);
    if (st[1][0] != DYN) q.y0 = std::min(q.y0, st[1][0]);
    // empty crops may lie anywhere
    if ((st[0][0] != DYN || st[1][0] != DYN) && (d[0][1] == 0 || d[1][1] == 0)) q.zero = true, q.dflt = false;
  }
  return q;
}
template <class Im> auto do_crop(Im& im, const Rect& q) {
  return frozen([&] {
    if (q.dflt) return nda::crop(im, q.x0, q.y0, q.x1, q.y1);
    return nda::crop(im, q.x0, q.y0, q.x1, q.y1, q.zero ? crop_origin::zero : crop_origin::crop);
  });
}
template <class Im> void walk(Ctx& c, Im& im, int id, std::vector<Rect> path) {
  using S = typename std::decay_t<Im>::shape_type;
  ShapeV d = shape_v(im.shape());
  if (d[2][1] > 0 && c.r.chance(40)) {   // a channel
    long ch = c.r.in(d[2][0], d[2][0] + d[2][1] - 1);
    auto w = frozen([&] { return nda::slice_channel(im, (index_t)ch); });
    made(c, view("channel", id)("x", ch), w);
  }
  Rect q;
  if (!path.empty()) { q = path.front(); path.erase(path.begin()); }
  else if (c.depth-- <= 0) return;
  else q = rand_rect<S>(c.r, d);
  auto w = do_crop(im, q);
  int id2 = made(c, view("crop", id)("r", std::vector<long>{q.x0, q.y0, q.x1, q.y1})("zero", q.zero)
                    ("size", (long)w.size()), w);
  walk(c, w, id2, path);
}
template <class S> void session(Rng& r, int kind, const ShapeV* planned = nullptr, std::vector<Rect> path = {}) {
  ShapeV st = static_v<S>(), v;
  if (planned) v = *planned;
  else for (int t = 0; t < 30; t++) {
    v = rand_bounds(r, st, 5, 4);
    for (size_t i = 0; i < 3; i++) if (st[i][1] == DYN && v[i][1] > 4) v[i][1] = i == 2 ? 4 : 5;
    if (r.chance(40)) { S s = make_shape_of<S>(v); s.resolve(); v = shape_v(s); }
    else if (!rand_strides(r, v, true, 30)) continue;
    if (vone2one(v)) break;
  }
  if (!vone2one(v)) return;
  S s = make_shape_of<S>(v);
  begin_session("image");
  Ctx c{r};
  c.depth = (int)r.in(1, 4);
  long mn = vfmin(v), mx = std::max(mn, vfmax(v));
  auto go = [&](auto& obj, bool own) {
    long b = obj.base() ? rel(obj.base()) : 0;
    c.lo = b + mn - 8; c.hi = b + mx + 8;
    fill_window(c);
    E e("root");
    e("st", st)("arg", v)("c", unref<std::remove_reference_t<decltype(obj)>>::isconst)("own", own)
     ("block", own ? std::vector<long>{blk().p, blk().n} : std::vector<long>{})("lo", c.lo)("hi", c.hi)("res", vobs(obj));
    emit(e);
    c.n = 1;
    walk(c, obj, 1, path);
    dump(c);
  };
  if (kind < 2) {
    logfree = false; blk() = Blk{0, 0, false, 0};
    {
      pending("array");
      serve = true;
      nda::array<int, S> a(s);
      serve = false;
      bool own = blk().live;
      if (kind == 0) go(a, own);
      else { const auto& ca = a; go(ca, own); }
      logfree = own;
    }
    logfree = false;
  } else {
    nda::array_ref<int, S> a(r.chance(10) && vsize(v) == 0 ? nullptr : mid(), s);
    if (kind == 2) go(a, false);
    else { nda::array_ref<const int, S> ca = a; go(ca, false); }
  }
  end_session();
}
template <class... S> void all(Rng& r, int n, list<S...>) {
  for (int i = 0; i < n; i++) for (int kind = 0; kind < 4; kind++) { int u[] = {0, (session<S>(r, kind), 0)...}; (void)u; }
}

int main(int argc, char** argv) {
  Args a(argc, argv);
  init_out(a.str("out", "/dev/stdout").c_str());
  arm((unsigned)a.num("timeout", 120));
  Rng r(a.num("seed", 1) * 919 + PART);
  int n = (int)a.num("n", 4);
  std::vector<J> plan;
  if (!a.str("plan").empty()) plan = read_plan(a.str("plan").c_str());
#if PART == 0
  using Shapes = list<nda::image_shape, nda::planar_image_shape, nda::chunky_image_shape<>, nda::chunky_image_shape<3>,
                      nda::chunky_image_shape<3, 4>>;
#else
  using Shapes = list<nda::chunky_image_shape<nda::dynamic, 4>, nda::chunky_image_shape<1>, nda::dense_shape<3>,
                      shape<dim<>, dim<dyn, dyn, -1>, dim<2, 3>>, shape<dim<0>, dim<0>, dim<>>, nda::chunky_image_shape<4, nda::dynamic>>;
#endif
  for (const J& p : plan) {
    ShapeV root; std::vector<Rect> path;
    for (const J& d : p["root"].a) root.push_back(d.longs());
    for (const J& s : p["path"].a) { auto q = s["r"].longs(); path.push_back(Rect{q[0], q[1], q[2], q[3], (long)s["zero"] != 0, false}); }
    session<nda::image_shape>(r, (int)r.in(0, 3), &root, path);
    if (root[0][2] == 1) session<nda::planar_image_shape>(r, (int)r.in(0, 3), &root, path);
  }
  all(r, n, Shapes{});
  finish_out();
}
