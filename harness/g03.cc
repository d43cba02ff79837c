// G03: equality of homogeneous objects is geometric equality, orderings follow
// the real coordinates
#include "vp_geom.h"
#include "walnut/half_space2_sideless_compare.h"

// sign of a/wa - b/wb
static Z qdiff(Z a, Z wa, Z b, Z wb) { return (a * wb - b * wa) * (wa * wb); }

VP_HARNESS(homo3_equal) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3();
  bool same = eq(v3(a) * w_(b), v3(b) * w_(a));
  ENSURE(vp_iff(a == b, same));
  ENSURE(vp_iff(a != b, vp_not(same)));
  vp_cover("end");
}
VP_HARNESS(homo3_equal_point) {
  HomoPoint3 a = sym_homo3();
  Point3 b = sym_point3();
  bool same = eq(v3(a), v3(b) * w_(a));
  ENSURE(vp_iff(a == b, same));
  ENSURE(vp_iff(b == a, same));
  ENSURE(vp_iff(a != b, vp_not(same)));
  vp_cover("end");
}
VP_HARNESS(homo2_equal) {
  HomoPoint2 a = sym_homo2(), b = sym_homo2();
  Point2 c = sym_point2();
  bool same = vp_and(zof(a.x()) * w_(b) == zof(b.x()) * w_(a), zof(a.y()) * w_(b) == zof(b.y()) * w_(a));
  ENSURE(vp_iff(a == b, same));
  ENSURE(vp_iff(a != b, vp_not(same)));
  bool same2 = vp_and(zof(a.x()) == zof(c.x()) * w_(a), zof(a.y()) == zof(c.y()) * w_(a));
  ENSURE(vp_iff(a == c, same2));
  ENSURE(vp_iff(a != c, vp_not(same2)));
  vp_cover("end");
}
VP_HARNESS(point3_equal) {
  Point3 a = sym_point3(), b = sym_point3();
  ENSURE(vp_iff(a == b, eq(v3(a), v3(b))));
  ENSURE(vp_iff(a != b, vp_not(eq(v3(a), v3(b)))));
  int c = vp_choice("c", 3);
  Z ca = zof(a.components()[c]), cb = zof(b.components()[c]);
  ENSURE(sign_is(a.CompareComponent(c, b), ca - cb));
  ENSURE(vp_iff(a.IsEquivalentComponent(c, b), ca == cb));
  Z3 A = v3(a), B = v3(b);
  bool lt = vp_or(A.x < B.x, vp_and(A.x == B.x, vp_or(A.y < B.y, vp_and(A.y == B.y, A.z < B.z))));
  ENSURE(vp_iff(Point3::LexicographicallyLt(a, b), lt));
  vp_cover("end");
}
VP_HARNESS(homo3_lexicographic) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3();
  Z3 A = v3(a), B = v3(b);
  Z dx = qdiff(A.x, w_(a), B.x, w_(b)), dy = qdiff(A.y, w_(a), B.y, w_(b)), dz = qdiff(A.z, w_(a), B.z, w_(b));
  Z o(0);
  bool lt = vp_or(dx < o, vp_and(dx == o, vp_or(dy < o, vp_and(dy == o, dz < o))));
  ENSURE(vp_iff(HomoPoint3::LexicographicallyLt(a, b), lt));
  vp_cover("end");
}
VP_HARNESS(homo3_topness) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3();
  Z3 A = v3(a), B = v3(b);
  Z dx = qdiff(A.x, w_(a), B.x, w_(b)), dy = qdiff(A.y, w_(a), B.y, w_(b)), dz = qdiff(A.z, w_(a), B.z, w_(b));
  Z o(0);
  bool lt = vp_or(dz < o, vp_and(dz == o, vp_or(dy < o, vp_and(dy == o, dx < o))));
  ENSURE(vp_iff(HomoPoint3::TopnessLt(a, b), lt));
  vp_cover("end");
}
VP_HARNESS(homo2_lexicographic) {
  HomoPoint2 a = sym_homo2(), b = sym_homo2();
  Z2 A = v2(a), B = v2(b);
  Z dx = qdiff(A.x, w_(a), B.x, w_(b)), dy = qdiff(A.y, w_(a), B.y, w_(b));
  Z o(0);
  ENSURE(vp_iff(HomoPoint2::LexicographicallyLt(a, b), vp_or(dx < o, vp_and(dx == o, dy < o))));
  vp_cover("end");
}
VP_HARNESS(homo3_component) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3();
  int c = vp_choice("c", 3);
  Z d = qdiff(zof(a.vector_from_origin().components()[c]), w_(a), zof(b.vector_from_origin().components()[c]), w_(b));
  ENSURE(sign_is(a.CompareComponent(c, b), d));
  ENSURE(vp_iff(a.IsLessThanComponent(c, b), d < Z(0)));
  ENSURE(vp_iff(a.IsEquivalentComponent(c, b), d == Z(0)));
  vp_cover("end");
}
// planes: equal iff one (normal, offset) is a positive multiple of the other
static bool prop(const HalfSpace3& a, const HalfSpace3& b) {
  Z3 n = nrm(a), m = nrm(b);
  Z d = d_(a), e = d_(b);
  return vp_and(is_zero(cross(n, m)), eq(n * e, m * d));
}
VP_HARNESS(plane_equal) {
  HalfSpace3 a = sym_plane(), b = sym_plane();
  ASSUME(valid(a));
  ASSUME(valid(b));
  bool same = vp_and(prop(a, b), dot(nrm(a), nrm(b)) > Z(0));
  bool r = a == b;
  ENSURE(vp_implies(r, prop(a, b)));
  ENSURE(vp_implies(r, vp_and(same_sign(nrm(a).x, nrm(b).x), vp_and(same_sign(nrm(a).y, nrm(b).y), same_sign(nrm(a).z, nrm(b).z)))));
  ENSURE(vp_implies(same, r));
  ENSURE(vp_iff(a != b, vp_not(r)));
  vp_cover("end");
}
VP_HARNESS(plane_same_or_opposite) {
  HalfSpace3 a = sym_plane(), b = sym_plane();
  ASSUME(valid(a));
  ASSUME(valid(b));
  bool r = a.IsSameOrOpposite(b);
  ENSURE(vp_implies(r, prop(a, b)));
  ENSURE(vp_implies(prop(a, b), r));
  vp_cover("end");
}
static bool prop(const HalfSpace2& a, const HalfSpace2& b) {
  Z2 n = nrm(a), m = nrm(b);
  Z d = d_(a), e = d_(b);
  return vp_and(cross(n, m) == Z(0), vp_and(n.x * e == m.x * d, n.y * e == m.y * d));
}
static bool valid(const HalfSpace2& h) { return vp_not(vp_and(nrm(h).x == Z(0), nrm(h).y == Z(0))); }
VP_HARNESS(line2_equal) {
  HalfSpace2 a = sym_line2(), b = sym_line2();
  ASSUME(valid(a));
  ASSUME(valid(b));
  bool same = vp_and(prop(a, b), dot(nrm(a), nrm(b)) > Z(0));
  bool r = a == b;
  ENSURE(vp_implies(r, prop(a, b)));
  ENSURE(vp_implies(r, vp_and(same_sign(nrm(a).x, nrm(b).x), same_sign(nrm(a).y, nrm(b).y))));
  ENSURE(vp_implies(same, r));
  ENSURE(vp_iff(a != b, vp_not(r)));
  vp_cover("end");
}
VP_HARNESS(line2_same_line) {
  HalfSpace2 a = sym_line2(), b = sym_line2();
  ASSUME(valid(a));
  ASSUME(valid(b));
  bool r = a.HasSameLine(b);
  ENSURE(vp_implies(r, prop(a, b)));
  ENSURE(vp_implies(prop(a, b), r));
  vp_cover("end");
}
// lines of space: same oriented line iff (d,m) is a positive multiple
VP_HARNESS(line_equal) {
  PluckerLine a(sym_vector3(), sym_vector3()), b(sym_vector3(), sym_vector3());
  Z3 d = v3(a.d()), e = v3(b.d()), m = v3(a.m()), n = v3(b.m());
  ASSUME(vp_not(is_zero(d)));
  ASSUME(vp_not(is_zero(e)));
  bool r = a == b;
  // directions agree, and the moments have the same ratio
  bool par = vp_and(is_zero(cross(d, e)), vp_and(eq(m * e.x, n * d.x), vp_and(eq(m * e.y, n * d.y), eq(m * e.z, n * d.z))));
  bool same = vp_and(par, dot(d, e) > Z(0));
  ENSURE(vp_implies(r, par));
  ENSURE(vp_implies(r, vp_and(same_sign(d.x, e.x), vp_and(same_sign(d.y, e.y), same_sign(d.z, e.z)))));
  ENSURE(vp_implies(same, r));
  ENSURE(vp_iff(a != b, vp_not(r)));
  vp_cover("end");
}
VP_HARNESS(vector3_same_dir) {
  Vector3 a = sym_vector3(), b = sym_vector3();
  Z3 A = v3(a), B = v3(b);
  ASSUME(vp_not(is_zero(A)));
  ASSUME(vp_not(is_zero(B)));
  bool r = a.IsSameDir(b), q = a.IsSameOrOppositeDir(b);
  bool par = is_zero(cross(A, B));
  ENSURE(vp_implies(r, par));
  ENSURE(vp_implies(r, vp_and(same_sign(A.x, B.x), vp_and(same_sign(A.y, B.y), same_sign(A.z, B.z)))));
  ENSURE(vp_implies(vp_and(par, dot(A, B) > Z(0)), r));
  ENSURE(vp_implies(q, par));
  ENSURE(vp_implies(par, q));
  vp_cover("end");
}
VP_HARNESS(vector2_same_dir) {
  Vector2 a = sym_vector2(), b = sym_vector2();
  Z2 A = v2(a), B = v2(b);
  ASSUME(vp_not(vp_and(A.x == Z(0), A.y == Z(0))));
  ASSUME(vp_not(vp_and(B.x == Z(0), B.y == Z(0))));
  bool r = a.IsSameDir(b), q = a.IsSameOrOppositeDir(b);
  bool par = cross(A, B) == Z(0);
  ENSURE(vp_implies(r, par));
  ENSURE(vp_implies(r, vp_and(same_sign(A.x, B.x), same_sign(A.y, B.y))));
  ENSURE(vp_implies(vp_and(par, dot(A, B) > Z(0)), r));
  ENSURE(vp_implies(q, par));
  ENSURE(vp_implies(par, q));
  vp_cover("end");
}
// strict ordering of half-spaces: exactly one of a<b, b<a, a==b; transitive
static bool plane_lt(const HalfSpace3& a, const HalfSpace3& b) { return HalfSpace3Compare()(a, b); }
VP_HARNESS(plane_order_trichotomy) {
  HalfSpace3 a = sym_plane(), b = sym_plane();
  ASSUME(valid(a));
  ASSUME(valid(b));
  bool ab = plane_lt(a, b), ba = plane_lt(b, a);
  ENSURE(vp_not(vp_and(ab, ba)));
  bool same = vp_and(prop(a, b), dot(nrm(a), nrm(b)) > Z(0));
  ENSURE(vp_implies(same, vp_not(ab)));
  ENSURE(vp_implies(vp_not(vp_or(ab, ba)), prop(a, b)));
  ENSURE(vp_implies(vp_not(vp_or(ab, ba)), vp_and(same_sign(nrm(a).x, nrm(b).x), vp_and(same_sign(nrm(a).y, nrm(b).y), same_sign(nrm(a).z, nrm(b).z)))));
  vp_cover("end");
}
// ordering of lines of the plane that ignores their direction
static bool line_lt(const HalfSpace2& a, const HalfSpace2& b) { return HalfSpace2SidelessCompare()(a, b); }
VP_HARNESS(line2_sideless_trichotomy) {
  HalfSpace2 a = sym_line2(), b = sym_line2();
  ASSUME(valid(a));
  ASSUME(valid(b));
  bool ab = line_lt(a, b), ba = line_lt(b, a);
  ENSURE(vp_not(vp_and(ab, ba)));
  ENSURE(vp_implies(prop(a, b), vp_not(ab)));
  ENSURE(vp_implies(vp_not(vp_or(ab, ba)), prop(a, b)));
  vp_cover("end");
}
// reduction to lowest terms keeps the object
VP_HARNESS(homo3_reduce) {
  HomoPoint3 a = sym_homo3();
  HomoPoint3 b(a);
  b.Reduce();
  ENSURE(w_(b) > Z(0));
  ENSURE(eq(v3(a) * w_(b), v3(b) * w_(a)));
  vp_cover("end");
}
VP_HARNESS(plane_reduce) {
  HalfSpace3 a = sym_plane();
  ASSUME(valid(a));
  HalfSpace3 b(a);
  b.Reduce();
  ENSURE(prop(a, b));
  ENSURE(same_sign(nrm(a).x, nrm(b).x));
  ENSURE(same_sign(nrm(a).y, nrm(b).y));
  ENSURE(same_sign(nrm(a).z, nrm(b).z));
  vp_cover("end");
}
VP_HARNESS(vector3_reduce) {
  Vector3 a = sym_vector3();
  ASSUME(vp_not(is_zero(v3(a))));
  Vector3 b(a);
  b.Reduce();
  ENSURE(same_dir(v3(a), v3(b)));
  vp_cover("end");
}
VP_HARNESS(line_reduce) {
  PluckerLine a(sym_vector3(), sym_vector3());
  Z3 d = v3(a.d()), m = v3(a.m());
  ASSUME(vp_not(is_zero(d)));
  PluckerLine b(a);
  b.Reduce();
  Z3 e = v3(b.d()), n = v3(b.m());
  ENSURE(same_dir(d, e));
  ENSURE(eq(m * e.x, n * d.x));
  ENSURE(eq(m * e.y, n * d.y));
  ENSURE(eq(m * e.z, n * d.z));
  vp_cover("end");
}
// identical coordinates hash alike and compare identical
VP_HARNESS(homo3_hash) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3();
  bool same = vp_and(eq(v3(a), v3(b)), w_(a) == w_(b));
  ENSURE(vp_iff(HomoPoint3StrictEq()(a, b), same));
  ASSUME(same);
  ENSURE(ReducedHomoPoint3Hasher()(a) == ReducedHomoPoint3Hasher()(b));
  vp_cover("end");
}
