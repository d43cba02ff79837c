// G05: comparisons by angle, rational comparison and rounding
#include "vp_geom.h"
#include "walnut/r_transformation.h"

static bool upper(const Z2& v) { return vp_or(v.y > Z(0), vp_and(v.y == Z(0), v.x > Z(0))); }
static bool nonzero(const Z2& v) { return vp_not(vp_and(v.x == Z(0), v.y == Z(0))); }

// angle in [0, 2 pi)
VP_HARNESS(rotation_less_than) {
  Vector2 a = sym_vector2(), b = sym_vector2();
  Z2 A = v2(a), B = v2(b);
  ASSUME(nonzero(A));
  ASSUME(nonzero(B));
  bool ua = upper(A), ub = upper(B);
  bool lt = vp_or(vp_and(ua, vp_not(ub)), vp_and(vp_iff(ua, ub), cross(A, B) > Z(0)));
  ENSURE(vp_iff(a.IsRotationLessThan(b), lt));
  ENSURE(vp_iff(Vector2::RotationCompare()(a, b), lt));
  vp_cover("end");
}
// angle modulo half a turn
VP_HARNESS(half_rotation_less_than) {
  Vector2 a = sym_vector2(), b = sym_vector2();
  Z2 A = v2(a), B = v2(b);
  ASSUME(nonzero(A));
  ASSUME(nonzero(B));
  bool ua = upper(A), ub = upper(B);
  Z c = cross(A, B);
  bool lt = vp_ite(vp_iff(ua, ub), c > Z(0), c < Z(0));
  ENSURE(vp_iff(a.IsHalfRotationLessThan(b), lt));
  ENSURE(vp_iff(Vector2::HalfRotationCompare()(a, b), lt));
  vp_cover("end");
}
VP_HARNESS(bivector_compare) {
  Vector3 u = sym_vector3(), v = sym_vector3();
  Z3 c = cross(v3(u), v3(v));
  int r = RXYCompareBivector(u, v);
  Z o(0);
  ENSURE(vp_iff(r > 0, vp_or(c.z > o, vp_and(c.z == o, vp_or(c.y > o, vp_and(c.y == o, c.x > o))))));
  ENSURE(vp_iff(r < 0, vp_or(c.z < o, vp_and(c.z == o, vp_or(c.y < o, vp_and(c.y == o, c.x < o))))));
  ENSURE(vp_iff(r == 0, is_zero(c)));
  HalfSpace3 h(v, BigInt(0));
  SplitSide s;
  s.split = &h;
  s.pos_side = vp_bool("pos");
  int t = RXYCompareBivector(u, s);
  ENSURE(vp_implies(s.pos_side, vp_and(vp_iff(t > 0, r < 0), vp_iff(t < 0, r > 0))));
  ENSURE(vp_implies(vp_not(s.pos_side), vp_and(vp_iff(t > 0, r > 0), vp_iff(t < 0, r < 0))));
  vp_cover("end");
}
VP_HARNESS(r_transform) {
  HomoPoint3 p = sym_homo3();
  Z e = zvar("eps_inv");
  ASSUME(e != Z(0));
  HomoPoint3 q = RTransform(p, big(e));
  Z3 P = v3(p), Q = v3(q);
  // (x, y, z + y/e + x/e^2)
  ENSURE(w_(q) != Z(0));
  ENSURE(Q.x * w_(p) == P.x * w_(q));
  ENSURE(Q.y * w_(p) == P.y * w_(q));
  ENSURE(Q.z * (w_(p) * e * e) == (P.z * e * e + P.y * e + P.x) * w_(q));
  vp_cover("end");
}
VP_HARNESS(rational_less_than) {
  Z a = zvar("a"), b = zvar("b"), c = zvar("c"), d = zvar("d");
  ASSUME(b != Z(0));
  ASSUME(d != Z(0));
  Z diff = (a * d - c * b) * (b * d);
  ENSURE(vp_iff(rational::IsLessThan(big(a), big(b), big(c), big(d)), diff < Z(0)));
  ENSURE(vp_iff(rational::Equals(big(a), big(b), big(c), big(d)), diff == Z(0)));
  vp_cover("end");
}
// rounding a/b to the grid 1/d: r/d is the nearest grid value not below
VP_HARNESS(rational_round_up) {
  Z a = zvar("a"), b = zvar("b"), d = zvar("d");
  ASSUME(b != Z(0));
  ASSUME(d != Z(0));
  BigInt R = rational::RoundUp(big(a), big(b), big(d));
  Z r = zof(R);
  // r/d >= a/b  and  r/d - 1/|d| < a/b
  ENSURE((r * b - a * d) * (b * d) >= Z(0));
  ENSURE(vp_implies(d > Z(0), ((r - Z(1)) * b - a * d) * (b * d) < Z(0)));
  ENSURE(vp_implies(d < Z(0), ((r + Z(1)) * b - a * d) * (b * d) < Z(0)));
  vp_cover("end");
}
VP_HARNESS(rational_round_down) {
  Z a = zvar("a"), b = zvar("b"), d = zvar("d");
  ASSUME(b != Z(0));
  ASSUME(d != Z(0));
  BigInt R = rational::RoundDown(big(a), big(b), big(d));
  Z r = zof(R);
  ENSURE((r * b - a * d) * (b * d) <= Z(0));
  ENSURE(vp_implies(d > Z(0), ((r + Z(1)) * b - a * d) * (b * d) > Z(0)));
  ENSURE(vp_implies(d < Z(0), ((r - Z(1)) * b - a * d) * (b * d) > Z(0)));
  vp_cover("end");
}
