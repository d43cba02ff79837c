// G02: planes, lines and points constructed from others are incident to them
// and oriented as documented
#include "vp_geom.h"

// plane through three homogeneous points
VP_HARNESS(plane_from_homo_points) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3(), c = sym_homo3();
  HalfSpace3 h(a, b, c);
  Z3 A = v3(a), B = v3(b), C = v3(c);
  Z wa = w_(a), wb = w_(b), wc = w_(c);
  ENSURE(dot(nrm(h), A) == d_(h) * wa);
  ENSURE(dot(nrm(h), B) == d_(h) * wb);
  ENSURE(dot(nrm(h), C) == d_(h) * wc);
  // normal is a positive multiple of (c-b) x (a-b) in real coordinates
  Z3 real = cross(C * wb - B * wc, A * wb - B * wa) * (wa * wc);
  ENSURE(same_dir(nrm(h), real));
  vp_cover("end");
}
VP_HARNESS(plane_from_points) {
  Point3 a = sym_point3(), b = sym_point3(), c = sym_point3();
  HalfSpace3 h(a, b, c);
  ENSURE(dot(nrm(h), v3(a)) == d_(h));
  ENSURE(dot(nrm(h), v3(b)) == d_(h));
  ENSURE(dot(nrm(h), v3(c)) == d_(h));
  ENSURE(same_dir(nrm(h), cross(v3(c) - v3(b), v3(a) - v3(b))));
  vp_cover("end");
}
VP_HARNESS(plane_from_normal_and_point) {
  Vector3 n = sym_vector3();
  HomoPoint3 p = sym_homo3();
  HalfSpace3 h(n, p);
  ENSURE(dot(nrm(h), v3(p)) == d_(h) * w_(p));
  ENSURE(same_dir(nrm(h), v3(n)));
  vp_cover("end");
}
VP_HARNESS(plane_from_line2) {
  HalfSpace2 l = sym_line2();
  int dim = vp_choice("dim", 3);
  HalfSpace3 h(l, dim);
  HomoPoint3 p = sym_homo3();
  HomoPoint2 q = p.DropDimension(dim);
  int a = h.Compare(p), b = l.Compare(q);
  ENSURE(a == b);
  vp_cover("end");
}
VP_HARNESS(line2_from_points) {
  Point2 a = sym_point2(), b = sym_point2();
  HalfSpace2 h(a, b);
  ENSURE(dot(nrm(h), v2(a)) == d_(h));
  ENSURE(dot(nrm(h), v2(b)) == d_(h));
  // the positive side is to the left of a->b
  Z2 A = v2(a), B = v2(b);
  ENSURE(eq(nrm(h), Z2(A.y - B.y, B.x - A.x)));
  vp_cover("end");
}
// line of two planes lies in both; every point on both planes is on the line
VP_HARNESS(line_from_planes) {
  HalfSpace3 a = sym_plane(), b = sym_plane();
  PluckerLine l(a, b);
  ENSURE(eq(v3(l.d()), cross(nrm(a), nrm(b))));
  ENSURE(l.IsCoincident(a));
  ENSURE(l.IsCoincident(b));
  vp_cover("end");
}
VP_HARNESS(line_from_planes_points) {
  HalfSpace3 a = sym_plane(), b = sym_plane();
  HomoPoint3 p = sym_homo3();
  ASSUME(vp_not(is_zero(cross(nrm(a), nrm(b)))));
  PluckerLine l(a, b);
  bool on = l.IsCoincident(p);
  bool ona = dot(nrm(a), v3(p)) == d_(a) * w_(p);
  bool onb = dot(nrm(b), v3(p)) == d_(b) * w_(p);
  ENSURE(vp_implies(on, ona));
  ENSURE(vp_implies(on, onb));
  ENSURE(vp_implies(vp_and(ona, onb), on));
  vp_cover("end");
}
VP_HARNESS(line_from_homo_points) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3();
  PluckerLine l(a, b);
  // direction: b - a in real coordinates, up to a positive factor
  Z3 real = (v3(b) * w_(a) - v3(a) * w_(b)) * (w_(a) * w_(b));
  ENSURE(same_dir(v3(l.d()), real));
  ENSURE(eq(cross(v3(a), v3(l.d())), v3(l.m()) * w_(a)));
  ENSURE(eq(cross(v3(b), v3(l.d())), v3(l.m()) * w_(b)));
  ENSURE(l.IsCoincident(a));
  ENSURE(l.IsCoincident(b));
  vp_cover("end");
}
VP_HARNESS(line_from_points) {
  Point3 a = sym_point3(), b = sym_point3();
  PluckerLine l(a, b);
  ENSURE(eq(v3(l.d()), v3(b) - v3(a)));
  ENSURE(l.IsCoincident(a));
  ENSURE(l.IsCoincident(b));
  vp_cover("end");
}
// membership test of a line means: cross(p, d) == w m
VP_HARNESS(line_contains_point) {
  PluckerLine l(sym_vector3(), sym_vector3());
  HomoPoint3 p = sym_homo3();
  bool on = eq(cross(v3(p), v3(l.d())), v3(l.m()) * w_(p));
  ENSURE(vp_iff(l.IsCoincident(p), on));
  Point3 q = sym_point3();
  bool on2 = eq(cross(v3(q), v3(l.d())), v3(l.m()));
  ENSURE(vp_iff(l.IsCoincident(q), on2));
  vp_cover("end");
}
// a line through two distinct real points is in a plane iff both points are
VP_HARNESS(line_in_plane) {
  Point3 a = sym_point3(), b = sym_point3();
  HalfSpace3 h = sym_plane();
  ASSUME(vp_not(eq(v3(a), v3(b))));
  PluckerLine l(a, b);
  bool both = vp_and(dot(nrm(h), v3(a)) == d_(h), dot(nrm(h), v3(b)) == d_(h));
  bool in = l.IsCoincident(h);
  ENSURE(vp_implies(in, both));
  ENSURE(vp_implies(both, in));
  vp_cover("end");
}
// intersection of a line (through points a, b) and a plane
VP_HARNESS(line_plane_intersection) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3();
  HalfSpace3 h = sym_plane();
  PluckerLine l(a, b);
  HomoPoint3 x = l.Intersect(h);
  ENSURE(w_(x) == dot(nrm(h), v3(l.d())));
  ENSURE(dot(nrm(h), v3(x)) == d_(h) * w_(x));
  ENSURE(eq(cross(v3(x), v3(l.d())), v3(l.m()) * w_(x)));
  vp_cover("end");
}
// three planes meet in the constructed point
VP_HARNESS(three_planes) {
  HalfSpace3 a = sym_plane(), b = sym_plane(), c = sym_plane();
  PluckerLine l(a, b);
  HomoPoint3 x = l.Intersect(c);
  ENSURE(w_(x) == det3(nrm(a), nrm(b), nrm(c)));
  ENSURE(dot(nrm(a), v3(x)) == d_(a) * w_(x));
  ENSURE(dot(nrm(b), v3(x)) == d_(b) * w_(x));
  ENSURE(dot(nrm(c), v3(x)) == d_(c) * w_(x));
  vp_cover("end");
}
VP_HARNESS(line_negate) {
  PluckerLine l(sym_vector3(), sym_vector3());
  PluckerLine n = -l;
  ENSURE(eq(v3(n.d()), -v3(l.d())));
  ENSURE(eq(v3(n.m()), -v3(l.m())));
  n.Negate();
  ENSURE(vp_and(eq(v3(n.d()), v3(l.d())), eq(v3(n.m()), v3(l.m()))));
  vp_cover("end");
}
// adding an offset vector
VP_HARNESS(point_add_offset) {
  HomoPoint3 p = sym_homo3();
  Vector3 v = sym_vector3();
  Z den = zvar("den");
  ASSUME(den != Z(0));
  HomoPoint3 q = p.AddOffset(v, big(den));
  // q/qw == p/w + v/den
  ENSURE(w_(q) != Z(0));
  ENSURE(eq(v3(q) * (w_(p) * den), (v3(p) * den + v3(v) * w_(p)) * w_(q)));
  vp_cover("end");
}
VP_HARNESS(point_difference) {
  HomoPoint3 p = sym_homo3(), q = sym_homo3();
  BigInt den;
  Vector3 d = p.Difference(q, den);
  ENSURE(zof(den) != Z(0));
  ENSURE(eq(v3(d) * (w_(p) * w_(q)), (v3(p) * w_(q) - v3(q) * w_(p)) * zof(den)));
  vp_cover("end");
}
VP_HARNESS(vector_operations) {
  Vector3 a = sym_vector3(), b = sym_vector3();
  ENSURE(zof(a.Dot(b)) == dot(v3(a), v3(b)));
  ENSURE(eq(v3(a.Cross(b)), cross(v3(a), v3(b))));
  ENSURE(zof(a.GetScaleSquared()) == dot(v3(a), v3(a)));
  ENSURE(eq(v3(a + b), v3(a) + v3(b)));
  ENSURE(eq(v3(a - b), v3(a) - v3(b)));
  ENSURE(eq(v3(-a), -v3(a)));
  Vector3 c(a);
  c += b;
  ENSURE(eq(v3(c), v3(a) + v3(b)));
  c.Negate();
  ENSURE(eq(v3(c), -(v3(a) + v3(b))));
  Z k = zvar("k");
  ENSURE(eq(v3(a.Scale(big(k))), v3(a) * k));
  ENSURE(eq(v3(a * big(k)), v3(a) * k));
  ENSURE(vp_iff(a.IsZero(), is_zero(v3(a))));
  Z3 A = v3(a), B = v3(b);
  ENSURE(eq(v3(a.Hadamard(b)), Z3(A.x*B.x, A.y*B.y, A.z*B.z)));
  ENSURE(eq(v3(a.HadamardSquared()), Z3(A.x*A.x, A.y*A.y, A.z*A.z)));
  int f = a.GetFirstNonzeroDimension();
  ENSURE(vp_iff(f == -1, is_zero(A)));
  ENSURE(vp_iff(f == 0, A.x != Z(0)));
  ENSURE(vp_iff(f == 1, vp_and(A.x == Z(0), A.y != Z(0))));
  ENSURE(vp_iff(f == 2, vp_and(vp_and(A.x == Z(0), A.y == Z(0)), A.z != Z(0))));
  vp_cover("end");
}
VP_HARNESS(vector2_operations) {
  Vector2 a = sym_vector2(), b = sym_vector2();
  ENSURE(zof(a.Dot(b)) == dot(v2(a), v2(b)));
  ENSURE(zof(a.Cross(b)) == cross(v2(a), v2(b)));
  ENSURE(zof(a.GetScaleSquared()) == dot(v2(a), v2(a)));
  Z2 A = v2(a), B = v2(b);
  ENSURE(eq(v2(a - b), Z2(A.x - B.x, A.y - B.y)));
  ENSURE(eq(v2(-a), Z2(-A.x, -A.y)));
  ENSURE(eq(v2(a.GetPerpendicular()), Z2(-A.y, A.x)));
  ENSURE(eq(v2(a.SwapXY()), Z2(A.y, A.x)));
  Z k = zvar("k");
  ENSURE(eq(v2(a.Scale(big(k))), Z2(A.x * k, A.y * k)));
  Vector2 c(a);
  c.Negate();
  ENSURE(eq(v2(c), Z2(-A.x, -A.y)));
  ENSURE(vp_iff(a.IsZero(), vp_and(A.x == Z(0), A.y == Z(0))));
  vp_cover("end");
}
