// Symbolic convex polygons with any number of vertices, and a line in the plane
// of two of the coordinates.
//
// Symbolically the vertices and edges are arrays of unknown integers; all that
// is assumed of them is what convexity means for one direction: going around
// once, the edges first rise, then are level, then fall, then are level again
// (dv/polygons.py).  Natively a random convex polygon with collinear vertices,
// in a tilted plane and with random denominators is built.
#ifndef VP_POLY_H
#define VP_POLY_H
#include "vp_geom.h"
#include "walnut/convex_polygon.h"
#ifdef VP_NATIVE
#include <algorithm>
#include <vector>
#endif
typedef ConvexPolygon<> Poly;

extern "C" {
// mode: see dv/polygons.py
void vpp_make(void* edges, const void* edge, uint64_t size, const void* const* fields, int dim,
              const void* x, const void* y, const void* d, int mode);
// an arbitrary index, about which loop invariants speak
uint64_t vpp_index(const char* name);
}

static inline const BigInt& comp(const Vector3& v, int i) { return v.components()[i % 3]; }
static inline const BigInt& comp(const HomoPoint3& v, int i) { return i % 3 == 0 ? v.x() : i % 3 == 1 ? v.y() : v.z(); }

// > 0, < 0 or == 0 as vertex t is on the positive side of the line, on the
// negative side, or on it
static inline Z side(const Poly& p, const HalfSpace2& h, int dim, size_t t) {
  const HomoPoint3& v = p.edge(t).vertex();
  Z w = zof(v.w());
  return (zof(h.x()) * zof(comp(v, dim + 1)) + zof(h.y()) * zof(comp(v, dim + 2)) - zof(h.d()) * w) * w;
}
// change of height (in the direction v) along edge t
static inline Z rise(const Poly& p, const Vector2& v, int dim, size_t t) {
  const Vector3& d = p.edge(t).line().d();
  return zof(v.x()) * zof(comp(d, dim + 1)) + zof(v.y()) * zof(comp(d, dim + 2));
}
// > 0, < 0 or == 0 as vertex t is in front of the plane, behind it, or on it
static inline Z side3(const Poly& p, const HalfSpace3& h, size_t t) {
  const HomoPoint3& v = p.edge(t).vertex();
  return (dot(nrm(h), v3(v)) - d_(h) * w_(v)) * w_(v);
}
static inline bool on_plane(const HalfSpace3& h, const HomoPoint3& v) { return dot(nrm(h), v3(v)) == d_(h) * w_(v); }
static inline size_t before(const Poly& p, size_t t) { return t == 0 ? p.vertex_count() - 1 : t - 1; }
static inline size_t after(const Poly& p, size_t t) { return t + 1 == p.vertex_count() ? 0 : t + 1; }

static inline bool in_range(const std::pair<size_t, size_t>& r, size_t t, size_t n) {
  return vp_or(vp_and(r.first <= t, t < r.second),
               vp_or(vp_and(r.first <= t + n, t + n < r.second), vp_and(r.first <= t + 2 * n, t + 2 * n < r.second)));
}

#ifdef VP_NATIVE
struct VpRng {
  uint64_t s;
  uint64_t next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545f4914f6cdd1dull >> 8; }
  long in(long lo, long hi) { return lo + (long)(next() % (uint64_t)(hi - lo + 1)); }
};
typedef std::pair<long, long> VpPt;
static inline long vp_turn(VpPt a, VpPt b, VpPt c) {
  return (b.first - a.first) * (c.second - a.second) - (b.second - a.second) * (c.first - a.first);
}
// convex, counterclockwise; some vertices are in the middle of straight sides
static std::vector<VpPt> vp_hull(VpRng& r) {
  for (;;) {
    bool big = r.in(0, 2) == 0;
    long g = big ? 40 : r.in(1, 6);
    std::vector<VpPt> in;
    long k = big ? 120 : r.in(3, 14);
    for (long i = 0; i < k; ++i) in.push_back(VpPt(r.in(-g, g), r.in(-g, g)));
    std::sort(in.begin(), in.end());
    in.erase(std::unique(in.begin(), in.end()), in.end());
    if (in.size() < 3) continue;
    bool straight = r.in(0, 1);
    auto pop = [&](long t) { return straight ? t < 0 : t <= 0; };
    std::vector<VpPt> lo, up;
    for (size_t i = 0; i < in.size(); ++i) {
      while (lo.size() > 1 && pop(vp_turn(lo[lo.size() - 2], lo.back(), in[i]))) lo.pop_back();
      lo.push_back(in[i]);
      VpPt q = in[in.size() - 1 - i];
      while (up.size() > 1 && pop(vp_turn(up[up.size() - 2], up.back(), q))) up.pop_back();
      up.push_back(q);
    }
    if ((lo.size() == in.size() && up.size() == in.size()) || lo.size() + up.size() < 5) continue;   // all on one line
    lo.pop_back();
    up.pop_back();
    lo.insert(lo.end(), up.begin(), up.end());
    long s = r.in(0, (long)lo.size() - 1);
    std::rotate(lo.begin(), lo.begin() + s, lo.end());
    return lo;
  }
}
static inline BigInt vp_big(long v) { return BigInt(v); }
static Poly poly_make(HalfSpace2& h, int dim, int mode = 0) {
  VpRng r{vp_u64("polygon") * 2 + 1};
  for (int i = 0; i < 4; ++i) r.next();
  std::vector<VpPt> c = vp_hull(r);
  long N[3] = {r.in(-3, 3), r.in(-3, 3), r.in(-3, 3)}, D = r.in(-9, 9);
  while (N[dim] == 0) N[dim] = r.in(-3, 3);
  if (N[dim] < 0) std::reverse(c.begin(), c.end());
  std::vector<HomoPoint3> v;
  for (VpPt& q : c) {
    long x[3], f = 0;
    while (f == 0) f = r.in(-3, 3);
    if (r.in(0, 1)) f = f < 0 ? -1 : 1;
    x[(dim + 1) % 3] = q.first * N[dim];
    x[(dim + 2) % 3] = q.second * N[dim];
    x[dim] = D - N[(dim + 1) % 3] * q.first - N[(dim + 2) % 3] * q.second;
    v.push_back(HomoPoint3(vp_big(x[0] * f), vp_big(x[1] * f), vp_big(x[2] * f), vp_big(N[dim] * f)));
  }
  Poly::EdgeVector e;
  for (size_t i = 0; i < v.size(); ++i) e.emplace_back(v[i], v[(i + 1) % v.size()]);
  long a = 0, b = 0, d;
  while (a == 0 && b == 0) {
    if (r.in(0, 1)) {
      VpPt s = c[r.in(0, (long)c.size() - 1)], t = c[r.in(0, (long)c.size() - 1)];
      a = t.second - s.second;
      b = s.first - t.first;
    } else {
      a = r.in(-4, 4);
      b = r.in(-4, 4);
    }
  }
  VpPt s = c[r.in(0, (long)c.size() - 1)];
  d = a * s.first + b * s.second + (r.in(0, 1) ? 0 : r.in(-20, 20));
  long k = r.in(0, 1) ? 1 : -1;
  if (r.in(0, 3) == 0) k *= 7;
  h = HalfSpace2(vp_big(a * k), vp_big(b * k), vp_big(d * k));
  return Poly(HalfSpace3(vp_big(N[0]), vp_big(N[1]), vp_big(N[2]), vp_big(D)), dim, std::move(e));
}
#else
static Poly poly_make(HalfSpace2& h, int dim, int mode = 0) {
  h = sym_line2();
  ASSUME(vp_not(vp_and(zof(h.x()) == Z(0), zof(h.y()) == Z(0))));
  HalfSpace3 plane = sym_plane();
  ASSUME(zof(comp(plane.normal(), dim)) != Z(0));
  Poly::EdgeVector& v = *(Poly::EdgeVector*)vp_alloc(sizeof(Poly::EdgeVector));
  const Poly::EdgeRep& e = *(const Poly::EdgeRep*)vp_alloc(sizeof(Poly::EdgeRep));
  const HomoPoint2& q = *(const HomoPoint2*)vp_alloc(sizeof(HomoPoint2));
  const void* f[14] = {&e.vertex().x(), &e.vertex().y(), &e.vertex().z(), &e.vertex().w(),
                       &e.line().d().x(), &e.line().d().y(), &e.line().d().z(),
                       &e.line().m().x(), &e.line().m().y(), &e.line().m().z(),
                       &q, &q.x(), &q.y(), &q.w()};
  vpp_make(&v, &e, sizeof(Poly::EdgeRep), f, dim, &h.x(), &h.y(), &h.d(), mode);
  return Poly(plane, dim, std::move(v));
}
#endif
// a plane that cuts the plane of the polygon in the line h (natively; any plane
// symbolically)
static HalfSpace3 cutting_plane(const Poly& p, const HalfSpace2& h, int dim) {
#ifdef VP_NATIVE
  VpRng r{vp_u64("cut") * 2 + 1};
  for (int i = 0; i < 4; ++i) r.next();
  BigInt c[3];
  BigInt k(r.in(0, 3) ? r.in(-3, 3) : 0), d = h.d();
  long par = r.in(0, 7);
  if (par == 0) k = BigInt(r.in(0, 1) ? 2 : -1);
  c[(dim + 1) % 3] = par ? h.x() : BigInt(0);
  c[(dim + 2) % 3] = par ? h.y() : BigInt(0);
  if (!par) d = BigInt(r.in(-1, 1));
  for (int i = 0; i < 3; ++i) c[i] = c[i] + k * comp(p.plane().normal(), i);
  d = d + k * p.plane().d();
  return HalfSpace3(c[0], c[1], c[2], d);
#else
  HalfSpace3 s = sym_plane();
  ASSUME(valid(s));
  return s;
#endif
}
// any vertex
static inline size_t some_index(const Poly& p, const char* name) {
#ifdef VP_NATIVE
  return (size_t)(vp_u64(name) % p.vertex_count());
#else
  size_t t = vpp_index(name);
  ASSUME(t < p.vertex_count());
  return t;
#endif
}
#endif
