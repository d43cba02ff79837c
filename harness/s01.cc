// S01: splitting a convex polygon by a plane puts every vertex on its side
#include "vp_poly.h"

// the sign test the search functions use: its contract at their calls
VP_HARNESS(line_compare) {
  HalfSpace2 h = sym_line2();
  HomoPoint2 q = sym_homo2();
  int c = h.Compare(q);
  Z s = (zof(h.x()) * zof(q.x()) + zof(h.y()) * zof(q.y()) - zof(h.d()) * zof(q.w())) * zof(q.w());
  ENSURE(vp_and(vp_iff(c > 0, s > Z(0)), vp_iff(c < 0, s < Z(0))));
  ENSURE(vp_and(c >= -1, c <= 1));
  vp_cover("end");
}
// contracts(line_compare): geometry
VP_HARNESS(opposite_edges) {
  HalfSpace2 h;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h, dim, 1);
  std::pair<size_t, size_t> r = p.GetOppositeEdgeIndicesBisect(h.normal(), dim);
  ENSURE(vp_and(r.first < p.vertex_count(), r.second < p.vertex_count()));
  ENSURE(rise(p, h.normal(), dim, r.first) > Z(0));
  ENSURE(rise(p, h.normal(), dim, r.second) < Z(0));
  vp_cover("end");
}
// the vertex farthest in a direction (the first one, if several are)
VP_HARNESS(extreme_index) {
  HalfSpace2 h;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h, dim);
  size_t r = p.GetExtremeIndexBisect(h.normal(), dim);
  ENSURE(r < p.vertex_count());
  ENSURE(rise(p, h.normal(), dim, r) <= Z(0));
  ENSURE(rise(p, h.normal(), dim, before(p, r)) > Z(0));
  ENSURE(p.GetExtremeIndexBisect(Vector2(0, 0), dim) == (size_t)-1);
  vp_cover("end");
}
// contracts(extreme_index): polygon_search
static std::pair<size_t, size_t> two_edges(const Poly& p, const HalfSpace2& h, int dim) {
#ifdef VP_NATIVE
  size_t a = 0, b = 0, k = some_index(p, "same"), l = some_index(p, "opp");
  for (size_t i = 0; i < p.vertex_count(); ++i) {
    size_t x = (k + i) % p.vertex_count(), y = (l + i) % p.vertex_count();
    if (rise(p, h.normal(), dim, x) > Z(0)) a = x;
    if (rise(p, h.normal(), dim, y) < Z(0)) b = y;
  }
  return {a, b};
#else
  size_t a = some_index(p, "same"), b = some_index(p, "opp");
  ASSUME(rise(p, h.normal(), dim, a) > Z(0));
  ASSUME(rise(p, h.normal(), dim, b) < Z(0));
  return {a, b};
#endif
}
// on a side, or the first of the vertices closest to it
static void ensure_side_vertex(const Poly& p, const HalfSpace2& h, int dim, std::pair<int, size_t> r, int s,
                               size_t from, size_t to_) {
  size_t n = p.vertex_count();
  ENSURE(r.second < 2 * n);
  // after `from`, up to `to_`
  ENSURE(vp_or(r.second < n, vp_and(to_ < from, r.second - n <= to_)));
  ENSURE(vp_or(r.second >= n, vp_or(vp_and(from < r.second, vp_or(r.second <= to_, to_ < from)), vp_and(to_ < from, r.second <= to_))));
  size_t i = r.second % n;
  Z d = side(p, h, dim, i);
  if (s < 0) d = -d;
  int t = s < 0 ? -r.first : r.first;
  ENSURE(vp_and(vp_iff(t > 0, d > Z(0)), vp_iff(t < 0, d < Z(0))));
  ENSURE(vp_and(t >= -1, t <= 1));
  Z up = rise(p, h.normal(), dim, i), to = rise(p, h.normal(), dim, before(p, i));
  if (s < 0) up = -up, to = -to;
  ENSURE(vp_or(t > 0, vp_and(vp_and(up <= Z(0), to > Z(0)), r.second < n)));
}
VP_HARNESS(pos_side_vertex) {
  HalfSpace2 h;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h, dim);
  std::pair<size_t, size_t> e = two_edges(p, h, dim);
  ensure_side_vertex(p, h, dim, p.GetPosSideVertex(h, dim, e.first, e.second), 1, e.first, e.second);
  vp_cover("end");
}
VP_HARNESS(neg_side_vertex) {
  HalfSpace2 h;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h, dim);
  std::pair<size_t, size_t> e = two_edges(p, h, dim);
  ensure_side_vertex(p, h, dim, p.GetNegSideVertex(h, dim, e.first, e.second), -1, e.second, e.first);
  vp_cover("end");
}
// any vertex, as an index that may be n too large
static size_t vertex_on(const Poly& p, const HalfSpace2& h, int dim, const char* name, int s, bool or_zero) {
  size_t n = p.vertex_count();
  size_t i = some_index(p, name);
#ifdef VP_NATIVE
  for (size_t k = 0; k < n; ++k, i = (i + 1) % n) {
    Z d = side(p, h, dim, i);
    if (s < 0) d = -d;
    if (d > Z(0) || (or_zero && d == Z(0))) break;
  }
#endif
  Z d = side(p, h, dim, i);
  if (s < 0) d = -d;
  ASSUME(vp_or(d > Z(0), vp_and(or_zero, d == Z(0))));
  return vp_choice("lap", 2) ? i + n : i;
}
VP_HARNESS(last_neg_side_vertex) {
  HalfSpace2 h;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h, dim);
  size_t n = p.vertex_count();
  size_t neg = vertex_on(p, h, dim, "neg", -1, true), pos = vertex_on(p, h, dim, "pos", 1, false);
  ASSUME(pos + n >= neg);
  int ty = vp_split(side(p, h, dim, neg % n) < Z(0)) ? -1 : 0;
  std::pair<int, size_t> r = p.GetLastNegSideVertex(h, dim, neg, ty, pos);
  ENSURE(r.second < n);
  ENSURE(vp_iff(r.first < 0, side(p, h, dim, r.second) < Z(0)));
  ENSURE(vp_iff(r.first == 0, side(p, h, dim, r.second) == Z(0)));
  ENSURE(vp_and(r.first >= -1, r.first <= 0));
  ENSURE(side(p, h, dim, after(p, r.second)) > Z(0));
  vp_cover("end");
}
VP_HARNESS(last_pos_side_vertex) {
  HalfSpace2 h;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h, dim);
  size_t n = p.vertex_count();
  size_t neg = vertex_on(p, h, dim, "neg", -1, false), pos = vertex_on(p, h, dim, "pos", 1, true);
  ASSUME(neg + n >= pos);
  int ty = vp_split(side(p, h, dim, pos % n) > Z(0)) ? 1 : 0;
  std::pair<int, size_t> r = p.GetLastPosSideVertex(h, dim, neg, pos, ty);
  ENSURE(r.second < n);
  ENSURE(vp_iff(r.first > 0, side(p, h, dim, r.second) > Z(0)));
  ENSURE(vp_iff(r.first == 0, side(p, h, dim, r.second) == Z(0)));
  ENSURE(vp_and(r.first >= 0, r.first <= 1));
  ENSURE(side(p, h, dim, after(p, r.second)) < Z(0));
  vp_cover("end");
}
// equal modulo n (indices up to 2 n + 1)
static bool cong(size_t x, size_t y, size_t n) {
  return vp_or(x == y, vp_or(vp_or(x == y + n, y == x + n), vp_or(x == y + 2 * n, y == x + 2 * n)));
}
// what ConvexPolygonSplitRanges::IsValid tests
static void ensure_valid(const ConvexPolygonSplitRanges& r, size_t n) {
  ENSURE(vp_and(r.neg_range.first <= r.neg_range.second, r.neg_range.second <= r.neg_range.first + n));
  ENSURE(vp_and(r.pos_range.first <= r.pos_range.second, r.pos_range.second <= r.pos_range.first + n));
  bool one = vp_or(r.neg_range.first == r.neg_range.second, r.pos_range.first == r.pos_range.second);
  ENSURE(vp_or(one, vp_or(cong(r.neg_range.second, r.pos_range.first, n), cong(r.neg_range.second + 1, r.pos_range.first, n))));
  ENSURE(vp_or(one, vp_or(cong(r.pos_range.second, r.neg_range.first, n), cong(r.pos_range.second + 1, r.neg_range.first, n))));
}
// exactly the vertices strictly on a side are in its range
static void ensure_ranges(const Poly& p, const HalfSpace2& h, int dim, const ConvexPolygonSplitRanges& r) {
  size_t n = p.vertex_count();
  ensure_valid(r, n);
  ENSURE(vp_and(r.neg_range.first <= 2 * n, r.pos_range.first <= 2 * n));
  ENSURE(vp_and(r.neg_range.second <= 2 * n, r.pos_range.second <= 2 * n));
  size_t t = some_index(p, "t");
  ENSURE(vp_iff(in_range(r.neg_range, t, n), side(p, h, dim, t) < Z(0)));
  ENSURE(vp_iff(in_range(r.pos_range, t, n), side(p, h, dim, t) > Z(0)));
}
VP_HARNESS(ranges_bisect) {
  HalfSpace2 h;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h, dim);
  ensure_ranges(p, h, dim, p.FindSplitRangesBisect(h, dim));
  vp_cover("end");
}
// contracts(ranges_bisect): polygon_search
// parts(ranges_linear): 8
// parts(ranges_bisect): 2
// parts(last_neg_side_vertex): 3
// parts(last_pos_side_vertex): 3
VP_HARNESS(ranges_linear) {
  HalfSpace2 h;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h, dim);
  ensure_ranges(p, h, dim, p.FindSplitRangesLinear(h, dim));
  vp_cover("end");
}

// the sides of a vertex in the plane of two coordinates and in space agree
static void side_lemma(const Poly& p, const HalfSpace3& s, int dim, size_t t) {
  const HomoPoint3& v = p.edge(t).vertex();
  ASSUME(on_plane(p.plane(), v));
  PluckerLine l(p.plane(), s);
  Z nd = zof(comp(p.plane().normal(), dim)), S = side3(p, s, t);
  bool pos = vp_split(nd > Z(0));
  if (l.IsValid()) {
    HalfSpace2 h = l.Project2D(dim) * (pos ? -1 : 1);
    Z a = pos ? nd : -nd;
    ENSURE_BY(side(p, h, dim, t) == a * S, on_plane(p.plane(), v));
    ENSURE_BY(same_sign(side(p, h, dim, t), S), side(p, h, dim, t) == a * S, a > Z(0));
  } else {
    Z k = zof(comp(s.normal(), dim)) * d_(p.plane()) - d_(s) * nd;
    ENSURE_BY(nd * S == k * w_(v) * w_(v), on_plane(p.plane(), v), is_zero(cross(nrm(p.plane()), nrm(s))));
    ENSURE_BY(w_(v) * w_(v) > Z(0), w_(v) != Z(0));
    ENSURE_BY(same_sign(pos ? k : -k, S), nd * S == k * w_(v) * w_(v), w_(v) * w_(v) > Z(0), (pos ? nd : -nd) > Z(0));
  }
}
VP_HARNESS(split_info) {
  HalfSpace2 h0;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h0, dim, 2);
  HalfSpace3 s = cutting_plane(p, h0, dim);
  size_t t = some_index(p, "t"), n = p.vertex_count();
  side_lemma(p, s, dim, t);
  vp_slice();
  ConvexPolygonSplitInfo r = p.GetSplitInfo(s);
  ENSURE(vp_iff(in_range(r.ranges.neg_range, t, n), side3(p, s, t) < Z(0)));
  ENSURE(vp_iff(in_range(r.ranges.pos_range, t, n), side3(p, s, t) > Z(0)));
  ensure_valid(r.ranges, n);
  bool two = vp_and(r.ShouldEmitNegativeChild(), r.ShouldEmitPositiveChild());
  // a new vertex exactly where an edge goes from one side to the other
  ENSURE(vp_iff(r.has_new_shared_point2, vp_and(two, cong(r.ranges.neg_range.second, r.ranges.pos_range.first, n))));
  ENSURE(vp_iff(r.has_new_shared_point1, vp_and(two, cong(r.ranges.pos_range.second, r.ranges.neg_range.first, n))));
  // the new edge is along the line of the planes
  if (two) {
    Z3 d = v3(r.new_line.d()), m = v3(r.new_line.m());
    ENSURE(eq(d, cross(nrm(p.plane()), nrm(s))));
    ENSURE(eq(cross(m, nrm(s)), d * d_(s)));
    ENSURE(eq(cross(m, nrm(p.plane())), d * d_(p.plane())));
  }
  vp_cover("end");
}
// contracts(split_info): polygon_ranges
// parts(split_info): 8

// the new vertex is on the plane and on the edge it cuts
static void point_lemma(const Poly& p, const HalfSpace3& s, int dim, size_t e, const HomoPoint3& P) {
  size_t f = after(p, e);
  side_lemma(p, s, dim, e);
  side_lemma(p, s, dim, f);
  Z SA = side3(p, s, e), SB = side3(p, s, f);
  ENSURE(vp_or(vp_and(SA < Z(0), SB > Z(0)), vp_and(SA > Z(0), SB < Z(0))));
  Z3 A = v3(p.edge(e).vertex()), B = v3(p.edge(f).vertex());
  Z wa = w_(p.edge(e).vertex()), wb = w_(p.edge(f).vertex());
  Z3 d = v3(p.edge(e).line().d()), m = v3(p.edge(e).line().m());
  // the line of the edge goes from A to B
  Z3 ab = B * wa - A * wb;
#ifdef VP_NATIVE
  Z mu = zabs_(ab.x) + zabs_(ab.y) + zabs_(ab.z), nu = zabs_(d.x) + zabs_(d.y) + zabs_(d.z);
  if (wa * wb < Z(0)) nu = -nu;
#else
  Z mu = zvar("mu"), nu = zvar("nu");
#endif
  ASSUME(vp_and(mu > Z(0), nu * wa * wb > Z(0)));
  ASSUME(eq(d * mu, ab * nu));
  ASSUME(eq(m * wa, cross(A, d)));
  Z3 N = nrm(p.plane()), n = nrm(s);
  Z k = dot(n, d), w = w_(P), T = wa * wa * SB - wb * wb * SA, dd = d_(s), D = d_(p.plane());
#define LINE vp_and(eq(d * mu, ab * nu), mu > Z(0))
#define MOMENT vp_and(eq(m * wa, cross(A, d)), wa != Z(0))
#define ONP vp_and(dot(N, A) == D * wa, dot(N, B) == D * wb)
#define SIDES vp_or(vp_and(SA < Z(0), SB > Z(0)), vp_and(SA > Z(0), SB < Z(0)))
  ENSURE_BY(vp_and(wa * wa > Z(0), wb * wb > Z(0)), vp_and(wa != Z(0), wb != Z(0)));
  ENSURE_BY(T != Z(0), SIDES, vp_and(wa * wa > Z(0), wb * wb > Z(0)));
  ENSURE_BY(mu * k * wa * wb * wa * wb == nu * wa * wb * T, LINE);
  ENSURE_BY(k != Z(0), mu * k * wa * wb * wa * wb == nu * wa * wb * T, nu * wa * wb > Z(0), T != Z(0));
  ENSURE_BY(wa * dot(m, d) == Z(0), MOMENT);
  ENSURE_BY(dot(m, d) == Z(0), wa * dot(m, d) == Z(0), wa != Z(0));
  ENSURE_BY(mu * dot(N, d) == Z(0), LINE, ONP);
  ENSURE_BY(dot(N, d) == Z(0), mu * dot(N, d) == Z(0), mu > Z(0));
  Z3 Q = d * dd - cross(m, n);
  ENSURE_BY(eq(cross(Q, d), m * k), dot(m, d) == Z(0));
  Z an = dot(A, n), nd = dot(N, d), nq = wa * dd * nd - (nd * an - dot(N, A) * k);
  ENSURE_BY((cross(m, n) * wa).x == d.x * an - A.x * k, MOMENT);
  ENSURE_BY((cross(m, n) * wa).y == d.y * an - A.y * k, MOMENT);
  ENSURE_BY((cross(m, n) * wa).z == d.z * an - A.z * k, MOMENT);
  ENSURE_BY(wa * dot(N, Q) == nq, (cross(m, n) * wa).x == d.x * an - A.x * k, (cross(m, n) * wa).y == d.y * an - A.y * k,
            (cross(m, n) * wa).z == d.z * an - A.z * k);
  ENSURE_BY(wa * (dot(N, Q) - D * k) == Z(0), wa * dot(N, Q) == nq, nd == Z(0), dot(N, A) == D * wa);
  ENSURE_BY(dot(N, Q) - D * k == Z(0), wa * (dot(N, Q) - D * k) == Z(0), wa != Z(0));
  // the new vertex is that point
#define POINT vp_or(vp_and(w == k, eq(v3(P), Q)), vp_and(w == -k, eq(v3(P), -Q)))
  ENSURE(POINT);
  ENSURE_BY(w != Z(0), POINT, k != Z(0));
  ENSURE_BY(on_plane(s, P), POINT);
  ENSURE_BY(eq(cross(v3(P), d), m * w), POINT, eq(cross(Q, d), m * k));
  ENSURE_BY(on_plane(p.plane(), P), POINT, dot(N, Q) - D * k == Z(0));
}
VP_HARNESS(split_points) {
  HalfSpace2 h0;
  int dim = vp_choice("dim", 3);
  Poly p = poly_make(h0, dim, 2);
  HalfSpace3 s = cutting_plane(p, h0, dim);
  size_t n = p.vertex_count();
  int which = vp_choice("which", 2);
  vp_slice();
  ConvexPolygonSplitInfo r = p.GetSplitInfo(s);
  bool has = which ? r.has_new_shared_point1 : r.has_new_shared_point2;
#ifdef VP_NATIVE
  if (!has) return;
  size_t e = ((which ? r.ranges.pos_range.second : r.ranges.neg_range.second) + n - 1) % n;
#else
  ASSUME(has);
  size_t e = some_index(p, "e");
#endif
  ASSUME(cong(e + 1, which ? r.ranges.pos_range.second : r.ranges.neg_range.second, n));
  point_lemma(p, s, dim, e, which ? r.new_shared_point1 : r.new_shared_point2);
  vp_cover("end");
}
// contracts(split_points): polygon_ranges
// parts(split_points): 8

// edge data that remembers which edge it comes from
struct Tag : EdgeInfoRoot {
  long id = -1;
  Tag() = default;
  Tag(const Tag& o) : EdgeInfoRoot(o), id(o.id) {}
  Tag(RValueKey<Tag> o) noexcept : id(o.get().id) { o.get().id = -2; }
  Tag(const Tag& p, const HomoPoint3&) : id(p.id) {}
  Tag(const Tag& p, const PluckerLine&) : id(p.id + 1000) {}
  Tag(const Tag& p, const HomoPoint3&, const PluckerLine&) : id(p.id + 1000) {}
  Tag& operator=(const Tag& o) { id = o.id; return *this; }
  Tag& operator=(RValueKey<Tag> o) noexcept { id = o.get().id; o.get().id = -2; return *this; }
};
typedef ConvexPolygon<Tag> TPoly;
struct Corner {
  Z3 v, d, m;
  Z w;
  Corner() : v(0, 0, 0), d(0, 0, 0), m(0, 0, 0), w(0) {}
  Corner(const HomoPoint3& p, const PluckerLine& l) : v(v3(p)), d(v3(l.d())), m(v3(l.m())), w(w_(p)) {}
};
static PluckerLine sym_line() {
  Vector3 d = sym_vector3();
  ASSUME(vp_not(is_zero(v3(d))));
  return PluckerLine(d, sym_vector3());
}
static void ensure_edge(const TPoly& p, size_t i, Corner c, long id) {
  const TPoly::EdgeRep& e = p.edge(i);
  ENSURE(eq(v3(e.vertex()), c.v));
  ENSURE(w_(e.vertex()) == c.w);
  ENSURE(eq(v3(e.line().d()), c.d));
  ENSURE(eq(v3(e.line().m()), c.m));
  ENSURE(e.id == id);
}
// the children are made of the vertices of their range, then the two on the plane
VP_HARNESS(split_children) {
  TPoly::EdgeVector ev;
  Corner c[64];
#ifdef VP_NATIVE
  HalfSpace2 h0;
  int dim = vp_choice("dim", 3);
  Poly q = poly_make(h0, dim);
  size_t n = q.vertex_count();
  if (n > 64) return;
  HalfSpace3 plane = q.plane();
#else
  int dim = 2;
  size_t n = 3 + vp_choice("n", 4);
  HalfSpace3 plane = sym_plane();
#endif
  ev.reserve(n);
  for (size_t i = 0; i < n; ++i) {
#ifdef VP_NATIVE
    ev.emplace_back(q.edge(i).vertex(), q.edge(i).line());
#else
    ev.emplace_back(sym_homo3(), sym_line());
#endif
    ev[i].id = 7 * i;
    c[i] = Corner(ev[i].vertex(), ev[i].line());
  }
  TPoly p(plane, dim, std::move(ev));
  // the ranges: gap2 and gap1 vertices are on the plane
  size_t gap1 = vp_choice("gap1", 2), gap2 = vp_choice("gap2", 2);
  if (n < 2 + gap1 + gap2) return;
  size_t f = vp_choice("first", (int)n), k = 1 + vp_choice("count", (int)(n - 1 - gap1 - gap2));
  size_t l = n - gap1 - gap2 - k, g = f + k + gap2;
  if (vp_choice("lap", 2)) g = g % n;
  ConvexPolygonSplitInfo s;
  s.ranges.neg_range = std::make_pair(f, f + k);
  s.ranges.pos_range = std::make_pair(g, g + l);
  s.new_line = sym_line();
  s.has_new_shared_point1 = !gap1;
  s.has_new_shared_point2 = !gap2;
  Z3 d = v3(s.new_line.d()), m = v3(s.new_line.m());
  size_t i1 = (f + n - 1) % n, i2 = (f + k) % n;   // on the plane, if there is no new vertex
  size_t b1 = i1, b2 = (f + k - 1) % n;            // the edges with the new vertices
  Corner p1 = c[i1], p2 = c[i2];
  long id1 = 7 * i1, id2 = 7 * i2;
  if (!gap1) {
    s.new_shared_point1 = sym_homo3();
    p1 = Corner(s.new_shared_point1, s.new_line);
    p1.d = c[b1].d;
    p1.m = c[b1].m;
    id1 = 7 * b1;
  }
  if (!gap2) {
    s.new_shared_point2 = sym_homo3();
    p2 = Corner(s.new_shared_point2, s.new_line);
    p2.d = c[b2].d;
    p2.m = c[b2].m;
    id2 = 7 * b2;
  }
  Z3 N = nrm(p.plane());
  Z D = d_(p.plane());
  bool move = vp_choice("move", 2);
  std::pair<TPoly, TPoly> r = move ? TPoly::CreateSplitChildren(RValueKey<TPoly>(std::move(p)), std::move(s)) : p.CreateSplitChildren(s);
  const TPoly &neg = r.first, &pos = r.second;
  ENSURE(neg.vertex_count() == k + 2);
  ENSURE(pos.vertex_count() == l + 2);
  for (size_t i = 0; i < k; ++i) ensure_edge(neg, i, c[(f + i) % n], 7 * ((f + i) % n));
  for (size_t i = 0; i < l; ++i) ensure_edge(pos, 1 + i, c[(g + i) % n], 7 * ((g + i) % n));
  ensure_edge(pos, 0, p2, id2);
  ensure_edge(neg, k + 1, p1, id1);
  Corner e2 = p2, e1 = p1;
  e2.d = d; e2.m = m;
  e1.d = -d; e1.m = -m;
  ensure_edge(neg, k, e2, id2 + 1000);
  ensure_edge(pos, l + 1, e1, id1 + 1000);
  ENSURE(vp_and(eq(nrm(neg.plane()), N), d_(neg.plane()) == D));
  ENSURE(vp_and(eq(nrm(pos.plane()), N), d_(pos.plane()) == D));
  ENSURE(vp_and(neg.drop_dimension() == dim, pos.drop_dimension() == dim));
  if (!move) {
    for (size_t i = 0; i < n; ++i) ensure_edge(p, i, c[i], 7 * i);
  }
  vp_cover("end");
}
// contracts(split_children): polygon_children
// bounded(split_children): polygons of 3 to 6 vertices (any coordinates, every split of the vertices)
// parts(split_children): 8
