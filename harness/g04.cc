// G04: dropping a dimension, lifting back and 2D orientation
#include "vp_geom.h"

VP_HARNESS(lift_is_on_plane_and_projects_back) {
  HalfSpace3 h = sym_plane();
  HomoPoint2 q = sym_homo2();
  int dim = vp_choice("dim", 3);
  ASSUME(zof(h.normal().components()[dim]) != Z(0));
  HomoPoint3 p = h.ProjectOntoPlane(q, dim);
  ENSURE(w_(p) != Z(0));
  ENSURE(dot(nrm(h), v3(p)) == d_(h) * w_(p));
  HomoPoint2 r = p.DropDimension(dim);
  ENSURE(zof(r.x()) * w_(q) == zof(q.x()) * w_(r));
  ENSURE(zof(r.y()) * w_(q) == zof(q.y()) * w_(r));
  vp_cover("end");
}
VP_HARNESS(drop_then_lift_is_identity_on_plane) {
  HalfSpace3 h = sym_plane();
  HomoPoint3 p = sym_homo3();
  int dim = vp_choice("dim", 3);
  ASSUME(zof(h.normal().components()[dim]) != Z(0));
  HomoPoint3 q = h.ProjectOntoPlane(p.DropDimension(dim), dim);
  bool on = dot(nrm(h), v3(p)) == d_(h) * w_(p);
  ENSURE(vp_implies(on, eq(v3(q) * w_(p), v3(p) * w_(q))));
  ASSUME(on);
  vp_cover("end");
}
VP_HARNESS(drop_dimension_components) {
  HomoPoint3 p = sym_homo3();
  int dim = vp_choice("dim", 3);
  HomoPoint2 q = p.DropDimension(dim);
  Z c[3] = {v3(p).x, v3(p).y, v3(p).z};
  ENSURE(zof(q.x()) == c[(dim + 1) % 3]);
  ENSURE(zof(q.y()) == c[(dim + 2) % 3]);
  ENSURE(w_(q) == w_(p));
  ENSURE(zof(p.GetComponentAfterDrop(0, dim)) == c[(dim + 1) % 3]);
  ENSURE(zof(p.GetComponentAfterDrop(1, dim)) == c[(dim + 2) % 3]);
  Point3 s = sym_point3();
  Z e[3] = {v3(s).x, v3(s).y, v3(s).z};
  Point2 t = s.DropDimension(dim);
  ENSURE(zof(t.x()) == e[(dim + 1) % 3]);
  ENSURE(zof(t.y()) == e[(dim + 2) % 3]);
  vp_cover("end");
}
// orientation of (p1, this, p3) in the projection, exact for denominators of
// either sign
VP_HARNESS(twist_dir_homo) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3(), c = sym_homo3();
  int dim = vp_choice("dim", 3);
  Z2 A = v2(a.DropDimension(dim)), B = v2(b.DropDimension(dim)), C = v2(c.DropDimension(dim));
  Z wa = w_(a), wb = w_(b), wc = w_(c);
  Z2 u(A.x * wb - B.x * wa, A.y * wb - B.y * wa), v(C.x * wb - B.x * wc, C.y * wb - B.y * wc);
  Z t = cross(u, v) * (wa * wc);
  ENSURE(sign_is(b.Get2DTwistDir(dim, a, c), t));
  ENSURE(sign_is(b.Get2DTwistDirReduced(dim, a, c), t));
  vp_cover("end");
}
VP_HARNESS(twist_dir_point) {
  Point3 a = sym_point3(), b = sym_point3(), c = sym_point3();
  int dim = vp_choice("dim", 3);
  Point2 a2 = a.DropDimension(dim), b2 = b.DropDimension(dim), c2 = c.DropDimension(dim);
  Z2 A = v2(a2), B = v2(b2), C = v2(c2);
  Z t = cross(Z2(A.x - B.x, A.y - B.y), Z2(C.x - B.x, C.y - B.y));
  ENSURE(sign_is(b.Get2DTwistDir(dim, a, c), t));
  ENSURE(sign_is(b.Get2DTwistDirReduced(dim, a, c), t));
  ENSURE(sign_is(b2.GetTwistDir(a2, c2), t));
  vp_cover("end");
}
// the 2D projection of a line through two points is the line through the
// projected points, with the same orientation
VP_HARNESS(line_projection) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3();
  int dim = vp_choice("dim", 3);
  PluckerLine l(a, b);
  HalfSpace2 m = l.Project2D(dim);
  ENSURE(m.IsCoincident(a.DropDimension(dim)));
  ENSURE(m.IsCoincident(b.DropDimension(dim)));
  Z d[3] = {v3(l.d()).x, v3(l.d()).y, v3(l.d()).z};
  ENSURE(nrm(m).x == -d[(dim + 2) % 3]);
  ENSURE(nrm(m).y == d[(dim + 1) % 3]);
  vp_cover("end");
}
// the point classification by the projected edge line agrees with orientation
VP_HARNESS(line_projection_side) {
  HomoPoint3 a = sym_homo3(), b = sym_homo3(), p = sym_homo3();
  int dim = vp_choice("dim", 3);
  PluckerLine l(a, b);
  int side = l.Project2D(dim).Compare(p.DropDimension(dim));
  Z2 A = v2(a.DropDimension(dim)), B = v2(b.DropDimension(dim)), P = v2(p.DropDimension(dim));
  Z wa = w_(a), wb = w_(b), wp = w_(p);
  // orientation of (a, b, p)
  Z det = A.x * (B.y * wp - P.y * wb) - A.y * (B.x * wp - P.x * wb) + wa * (B.x * P.y - B.y * P.x);
  ENSURE(sign_is(side, det * (wa * wb * wp)));
  vp_cover("end");
}
