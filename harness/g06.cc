// G06: axis-aligned bounding boxes
#include "vp_geom.h"
#include "walnut/aabb.h"

static AABB sym_box() {
  Z den = zvar("den");
  ASSUME(den != Z(0));
  return AABB(sym_vector3(), sym_vector3(), big(den));
}
static Z comp(const Vector3& v, int i) { return zof(v.components()[i]); }

VP_HARNESS(box_construction) {
  Vector3 lo = sym_vector3(), hi = sym_vector3();
  Z den = zvar("den");
  ASSUME(den != Z(0));
  AABB b(lo, hi, big(den));
  // same corners, positive denominator
  ENSURE(zof(b.denom()) > Z(0));
  ENSURE(eq(v3(b.min_point_num()) * den, v3(lo) * zof(b.denom())));
  ENSURE(eq(v3(b.max_point_num()) * den, v3(hi) * zof(b.denom())));
  HomoPoint3 p = b.min_point(), q = b.max_point();
  ENSURE(vp_and(eq(v3(p) * den, v3(lo) * w_(p)), w_(p) != Z(0)));
  ENSURE(vp_and(eq(v3(q) * den, v3(hi) * w_(q)), w_(q) != Z(0)));
  vp_cover("end");
}
VP_HARNESS(box_inside_homo) {
  AABB b = sym_box();
  HomoPoint3 p = sym_homo3();
  Z D = zof(b.denom()), w = w_(p);
  bool in = true, border = false;
  for (int i = 0; i < 3; i++) {
    Z c = comp(p.vector_from_origin(), i), lo = comp(b.min_point_num(), i), hi = comp(b.max_point_num(), i);
    in = vp_and(in, vp_and((c * D - lo * w) * w >= Z(0), (c * D - hi * w) * w <= Z(0)));
    border = vp_or(border, vp_or(c * D == lo * w, c * D == hi * w));
  }
  ENSURE(vp_iff(b.IsInside(p), in));
  vp_cover("end");
}
VP_HARNESS(box_border_homo) {
  AABB b = sym_box();
  HomoPoint3 p = sym_homo3();
  Z D = zof(b.denom()), w = w_(p);
  bool in = true, border = false;
  for (int i = 0; i < 3; i++) {
    Z c = comp(p.vector_from_origin(), i), lo = comp(b.min_point_num(), i), hi = comp(b.max_point_num(), i);
    in = vp_and(in, vp_and((c * D - lo * w) * w >= Z(0), (c * D - hi * w) * w <= Z(0)));
    border = vp_or(border, vp_or(c * D == lo * w, c * D == hi * w));
  }
  ENSURE(vp_iff(b.IsOnBorder(p), vp_and(in, border)));
  vp_cover("end");
}
VP_HARNESS(box_inside_point) {
  AABB b = sym_box();
  Point3 p = sym_point3();
  Z D = zof(b.denom());
  bool in = true, border = false;
  for (int i = 0; i < 3; i++) {
    Z c = comp(p.vector_from_origin(), i), lo = comp(b.min_point_num(), i), hi = comp(b.max_point_num(), i);
    in = vp_and(in, vp_and(c * D >= lo, c * D <= hi));
    border = vp_or(border, vp_or(c * D == lo, c * D == hi));
  }
  ENSURE(vp_iff(b.IsInside(p), in));
  ENSURE(vp_iff(b.IsOnBorder(p), vp_and(in, border)));
  vp_cover("end");
}
// +1 iff every corner is strictly on the positive side, -1 iff every corner is
// strictly on the negative side
VP_HARNESS(box_plane_side) {
  AABB b = sym_box();
  HalfSpace3 h = sym_plane();
  Z D = zof(b.denom());
  Z3 lo = v3(b.min_point_num()), hi = v3(b.max_point_num()), n = nrm(h);
  ASSUME(lo.x <= hi.x);
  ASSUME(lo.y <= hi.y);
  ASSUME(lo.z <= hi.z);
  int r = b.GetPlaneSide(h);
  Z corner[8] = {
    dot(n, Z3(lo.x, lo.y, lo.z)), dot(n, Z3(hi.x, lo.y, lo.z)), dot(n, Z3(lo.x, hi.y, lo.z)), dot(n, Z3(hi.x, hi.y, lo.z)),
    dot(n, Z3(lo.x, lo.y, hi.z)), dot(n, Z3(hi.x, lo.y, hi.z)), dot(n, Z3(lo.x, hi.y, hi.z)), dot(n, Z3(hi.x, hi.y, hi.z))};
  bool pos = true, neg = true;
  for (int i = 0; i < 8; i++) {
    Z s = corner[i] - d_(h) * D;
    ENSUREL(vp_implies(r == 1, s > Z(0)), "box on the positive side");
    ENSUREL(vp_implies(r == -1, s < Z(0)), "box on the negative side");
    pos = vp_and(pos, s > Z(0));
    neg = vp_and(neg, s < Z(0));
  }
  ENSURE(vp_implies(pos, r == 1));
  ENSURE(vp_implies(neg, r == -1));
  ENSURE(vp_or(r == 0, vp_or(r == 1, r == -1)));
  vp_cover("end");
}
VP_HARNESS(box_equal) {
  AABB a = sym_box(), b = sym_box();
  bool same = vp_and(eq(v3(a.min_point_num()) * zof(b.denom()), v3(b.min_point_num()) * zof(a.denom())),
                     eq(v3(a.max_point_num()) * zof(b.denom()), v3(b.max_point_num()) * zof(a.denom())));
  ENSURE(vp_iff(a == b, same));
  ENSURE(vp_iff(a != b, vp_not(same)));
  vp_cover("end");
}
