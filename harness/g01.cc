// G01: which side of a plane / line a point lies on
#include "vp_geom.h"

VP_HARNESS(plane_compare_homo_point) {
  HalfSpace3 h = sym_plane();
  HomoPoint3 p = sym_homo3();
  Z side = over(dot(nrm(h), v3(p)) - d_(h) * w_(p), w_(p));
  ENSURE(sign_is(h.Compare(p), side));
  ENSURE(vp_iff(h.IsCoincident(p), side == Z(0)));
  vp_cover("end");
}
VP_HARNESS(plane_compare_point) {
  HalfSpace3 h = sym_plane();
  Point3 p = sym_point3();
  Z side = dot(nrm(h), v3(p)) - d_(h);
  ENSURE(sign_is(h.Compare(p), side));
  ENSURE(vp_iff(h.IsCoincident(p), side == Z(0)));
  vp_cover("end");
}
VP_HARNESS(line2_compare_homo_point) {
  HalfSpace2 h = sym_line2();
  HomoPoint2 p = sym_homo2();
  Z side = over(dot(nrm(h), v2(p)) - d_(h) * w_(p), w_(p));
  ENSURE(sign_is(h.Compare(p), side));
  ENSURE(vp_iff(h.IsCoincident(p), side == Z(0)));
  vp_cover("end");
}
VP_HARNESS(line2_compare_point) {
  HalfSpace2 h = sym_line2();
  Point2 p = sym_point2();
  Z side = dot(nrm(h), v2(p)) - d_(h);
  ENSURE(sign_is(h.Compare(p), side));
  ENSURE(vp_iff(h.IsCoincident(p), side == Z(0)));
  vp_cover("end");
}
// planes sharing a direction: position of this plane relative to p along the
// given axis
VP_HARNESS(plane_compare_parallel_plane) {
  HalfSpace3 h = sym_plane();
  Z k = zvar("k");
  int dim = vp_choice("dim", 3);
  Z c = zof(h.normal().components()[dim]);
  ASSUME(k != Z(0));
  ASSUME(c != Z(0));
  HalfSpace3 p(big(k * zof(h.x())), big(k * zof(h.y())), big(k * zof(h.z())), symz("d2"));
  // positions along the axis: d/c and d2/(k c)
  Z diff = (d_(h) * (k * c) - d_(p) * c) * (k * c);
  // compared in the direction of h's own normal on that axis
  ENSURE(sign_is(h.Compare(p, dim), diff));
  vp_cover("end");
}
VP_HARNESS(plane_negate) {
  HalfSpace3 h = sym_plane();
  HomoPoint3 p = sym_homo3();
  HalfSpace3 n = -h;
  int a = h.Compare(p), b = n.Compare(p);
  ENSURE(vp_iff(a > 0, b < 0));
  ENSURE(vp_iff(a < 0, b > 0));
  HalfSpace3 m(h);
  m.Negate();
  ENSURE(vp_and(eq(nrm(m), -nrm(h)), d_(m) == -d_(h)));
  vp_cover("end");
}
VP_HARNESS(line2_negate) {
  HalfSpace2 h = sym_line2();
  HomoPoint2 p = sym_homo2();
  HalfSpace2 n = -h;
  int a = h.Compare(p), b = n.Compare(p);
  ENSURE(vp_iff(a > 0, b < 0));
  ENSURE(vp_iff(a < 0, b > 0));
  HalfSpace2 m(h);
  m.Negate();
  ENSURE(vp_and(eq(nrm(m), Z2(-nrm(h).x, -nrm(h).y)), d_(m) == -d_(h)));
  vp_cover("end");
}
VP_HARNESS(plane_axis_aligned) {
  int dim = vp_choice("dim", 3);
  Z num = zvar("num"), den = zvar("den");
  ASSUME(den != Z(0));
  HalfSpace3 h = HalfSpace3::GetAxisAligned(dim, big(num), big(den));
  HomoPoint3 p = sym_homo3();
  Z c = zof(p.vector_from_origin().components()[dim]);
  // p[dim]/w <?> num/den, flipped for a negative denominator
  ENSURE(sign_is(h.Compare(p), over(c * den - num * w_(p), w_(p))));
  vp_cover("end");
}
