H = '#include <cstdio>\n#include <cstdlib>\n'
def demo(inc, body):
    return H + ''.join('#include "walnut/%s.h"\n' % i for i in inc) + 'using namespace walnut;\n#define CHECK(c) do { if (!(c)) { fprintf(stderr, "wrong: %s\\n", #c); return 1; } } while (0)\nint main() {\n' + body + '\n  return 0;\n}\n'

SEEDS = [
 dict(id='g03-line-equality', property='G03',
  edits=[('src/walnut/plucker_line.cpp',
   "  } else {\n    scale_other = d().z().GetAbs(unused);\n    scale_mine = other.d().z().GetAbs(unused);",
   "  } else {\n    scale_other = d().z();\n    scale_mine = other.d().z();")],
  demo=demo(['plucker_line'], '''
  PluckerLine l(Point3(1, 0, 0), Point3(1, 0, 1)), r(Point3(1, 0, 1), Point3(1, 0, 0));
  CHECK(l != r);
  CHECK(l == PluckerLine(Point3(1, 0, 3), Point3(1, 0, 9)));'''),
  needs='two opposite lines parallel to the z axis', breaks='opposite lines compare equal'),
 dict(id='g03-topness-denominator', property='G03',
  edits=[('src/walnut/homo_point3.cpp',
   "      /*flip=*/b.dist_denom().HasDifferentSign(a.dist_denom()));",
   "      /*flip=*/b.dist_denom().GetSign() < 0 && a.dist_denom().GetSign() >= 0);")],
  demo=demo(['homo_point3'], '''
  HomoPoint3 a(BigInt(-1), BigInt(-1), BigInt(-3), BigInt(-1)), b(BigInt(1), BigInt(1), BigInt(5), BigInt(1));
  CHECK(HomoPoint3::TopnessLt(a, b) != HomoPoint3::TopnessLt(b, a));
  HomoPoint3 a2(BigInt(1), BigInt(1), BigInt(3), BigInt(1));
  CHECK(HomoPoint3::TopnessLt(a, b) == HomoPoint3::TopnessLt(a2, b));
  CHECK(HomoPoint3::TopnessLt(b, a) == HomoPoint3::TopnessLt(b, a2));'''),
  needs='the first point with a negative denominator and the second with a positive one', breaks='the topness order of such a pair'),
 dict(id='g04-project-line', property='G04',
  edits=[('src/walnut/half_space3.cpp',
   "    d() * p.w() -\n    p.x() * normal().GetComponentAfterDrop(0,",
   "    d() * p.w().abs() -\n    p.x() * normal().GetComponentAfterDrop(0,")],
  demo=demo(['half_space3'], '''
  HalfSpace3 h(1, 2, 3, 12);
  for (int drop = 0; drop < 3; ++drop) {
    HomoPoint2 p(BigInt(-4), BigInt(-6), BigInt(-2));
    HomoPoint3 r = h.ProjectOntoPlane(p, drop);
    CHECK(h.IsCoincident(r));
    CHECK(r.DropDimension(drop) == p);
  }'''),
  needs='a 2D point with a negative denominator lifted onto a plane off the origin', breaks='the lifted point leaves the plane'),
 dict(id='g01-origin-plane', property='G01',
  edits=[('include/walnut/half_space3.h',
   "  int Compare(const HomoPoint3& v) const {\n    return normal_",
   "  int Compare(const HomoPoint3& v) const {\n    if (dist_.IsZero()) {\n      const BigIntWord sign =\n          normal_.Dot(v.vector_from_origin()).GetSign();\n      return (sign > 0) - (sign < 0);\n    }\n    return normal_")],
  demo=demo(['half_space3'], '''
  HalfSpace3 h(1, 2, 3, 0);
  HomoPoint3 p(BigInt(-1), BigInt(-1), BigInt(-1), BigInt(-1)), q(1, 1, 1, 1);
  CHECK((h.Compare(p) > 0) && (h.Compare(q) > 0));
  CHECK((-h).Compare(p) < 0);'''),
  needs='a plane through the origin and a point with a negative denominator', breaks='the side of the plane on which the point lies'),
 dict(id='g01-parallel-tie', property='G01',
  edits=[('include/walnut/half_space3.h',
   "  int Compare(const HalfSpace3& p, int nonzero_dimension) const {\n",
   "  int Compare(const HalfSpace3& p, int nonzero_dimension) const {\n    if (d() == p.d() && x() == p.x()) return 0;\n")],
  demo=demo(['half_space3'], '''
  HalfSpace3 a(0, 1, 0, 6), b(0, 2, 0, 6), c(1, 0, 0, 6), e(2, 0, 0, 6);
  CHECK(c.Compare(e, 0) != 0);
  CHECK((a.Compare(b, 1) > 0) == (c.Compare(e, 0) > 0) && a.Compare(b, 1) != 0);'''),
  needs='two parallel planes with the same distance component and x component but normals of different length', breaks='distinct parallel planes are reported as the same'),
 dict(id='g02-plane-point-sign', property='G02',
  edits=[('include/walnut/half_space3.h',
   "    if (was_signed) {\n      dist_ = -dist_;", "    if (was_signed && dist_.GetSign() > 0) {\n      dist_ = -dist_;")],
  demo=demo(['half_space3'], '''
  HomoPoint3 p(BigInt(3), BigInt(4), BigInt(5), BigInt(-2));
  for (int s = -1; s <= 1; s += 2) {
    HalfSpace3 h(Vector3(s, s, 2 * s), p);
    CHECK(h.IsCoincident(p));
  }'''),
  needs='a point with a negative denominator whose numerator lies behind the normal', breaks='the plane does not contain the point it was built from'),
 dict(id='g02-line-in-plane', property='G02',
  edits=[('include/walnut/plucker_line.h',
   "    return d().Dot(p.normal()).IsZero() &&\n           d().Scale(p.d()) == m().Cross(p.normal());",
   "    if (!d().Dot(p.normal()).IsZero()) return false;\n    const Vector3 expected = m().Cross(p.normal());\n    return d().x() * p.d() == expected.x() && d().z() * p.d() == expected.z();")],
  demo=demo(['plucker_line'], '''
  for (int axis = 0; axis < 3; ++axis) {
    // the line through 1 on another axis, along axis
    Vector3 n = Vector3::Zero();
    n.components()[(axis + 1) % 3] = BigInt(1);
    Point3 p(n.x(), n.y(), n.z());
    Vector3 q = n;
    q.components()[axis] = BigInt(1);
    PluckerLine l(p, Point3(q.x(), q.y(), q.z()));
    CHECK(l.IsCoincident(HalfSpace3(n, BigInt(1))));
    CHECK(!l.IsCoincident(HalfSpace3(n, BigInt(2))));
    CHECK(!l.IsCoincident(HalfSpace3(n, BigInt(0))));
  }'''),
  needs='a line parallel to the y axis and a parallel plane that misses it', breaks='the line is reported to lie in a plane that is parallel to it'),
 dict(id='g05-round-up', property='G05',
  edits=[('include/walnut/rational.h',
   "  if ((remainder.GetSign() ^ old_denominator.GetSign() ^\n       new_denominator.GetSign()) >= 0 && !remainder.IsZero()) {",
   "  if (new_num.IsZero() && numerator.GetSign() < 0) {\n    return new_num;\n  }\n  if ((remainder.GetSign() ^ old_denominator.GetSign() ^\n       new_denominator.GetSign()) >= 0 && !remainder.IsZero()) {")],
  demo=demo(['rational'], '''
  // the smallest n with n/new >= num/old
  for (int num = -7; num <= 7; ++num) for (int old = -3; old <= 3; ++old) for (int nd = -3; nd <= 3; ++nd) {
    if (!old || !nd) continue;
    BigInt r = rational::RoundUp(BigInt(num), BigInt(old), BigInt(nd));
    CHECK(!rational::IsLessThan(r, BigInt(nd), BigInt(num), BigInt(old)));
    CHECK(rational::IsLessThan(r - BigInt(nd < 0 ? -1 : 1), BigInt(nd), BigInt(num), BigInt(old)));
  }'''),
  needs='a negative numerator over a negative denominator that truncates to zero', breaks='the rounded value is below the original'),
 dict(id='g06-plane-side-zero', property='G06',
  edits=[('include/walnut/aabb.h',
   "  max_value.AddMultiply(y_pos ? max_point_num_.y() : min_point_num_.y(),",
   "  max_value.AddMultiply(y_pos || (x_pos && z_pos) ? max_point_num_.y() : min_point_num_.y(),")],
  demo=demo(['aabb'], '''
  AABB box(0, 0, 0, 10, 10, 10, 1);
  // x - 20y + z = 5: the corner (10, 0, 10) is above, (0, 10, 0) below
  CHECK(box.GetPlaneSide(HalfSpace3(1, -20, 1, 5)) == 0);
  CHECK(box.GetPlaneSide(HalfSpace3(1, -20, 1, 25)) == -1);'''),
  needs='a plane with mixed normal signs (+,-,+) that cuts the box', breaks='the plane is reported to miss the box'),
 dict(id='g06-box-equality', property='G06',
  edits=[('include/walnut/aabb.h',
   "    if (max_point_num() * other.denom() != other.max_point_num() * denom()) {",
   "    if (denom() != other.denom() ? false : max_point_num() != other.max_point_num()) {")],
  demo=demo(['aabb'], '''
  AABB a(0, 0, 0, 10, 10, 10, 1), b(0, 0, 0, 10, 10, 12, 2), c(0, 0, 0, 20, 20, 20, 2);
  CHECK(a == c);
  CHECK(a != b);'''),
  needs='two boxes with different denominators and the same lower corner', breaks='boxes with different upper corners compare equal'),
]
