// A03: truncated division, remainder, greatest common divisor
#include "vp_int.h"

static void quotient_ok(Z a, Z b, Z q, Z r) {
  ENSURE(q * b + r == a);
  ENSURE(zabs_(r) < zabs_(b));
  ENSURE(vp_implies(a >= Z(0), r >= Z(0)));
  ENSURE(vp_implies(a <= Z(0), r <= Z(0)));
}
VP_HARNESS(divide_remainder) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  ASSUME(zb != Z(0));
  BigInt r;
  BigInt q = a.DivideRemainder(b, &r);
  quotient_ok(za, zb, zof(q), zof(r));
  ENSURE(canonical(q));
  ENSURE(canonical(r));
  vp_cover("end");
}
VP_HARNESS(divide) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  ASSUME(zb != Z(0));
  BigInt q = a / b;
  BigInt r = a % b;
  quotient_ok(za, zb, zof(q), zof(r));
  ENSURE(canonical(q));
  ENSURE(canonical(r));
  vp_cover("end");
}
VP_HARNESS(divide_assign) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  ASSUME(zb != Z(0));
  a /= b;
  quotient_ok(za, zb, zof(a), za - zof(a) * zb);
  vp_cover("end");
}
VP_HARNESS(divide_int) {
  BigInt a = symz("a");
  int k = (int)vp_int("k", INT32_MIN, INT32_MAX);
  Z za = zof(a);
  ASSUME(k != 0);
  BigInt q = a / k;
  quotient_ok(za, zi(k), zof(q), za - zof(q) * zi(k));
  vp_cover("end");
}
VP_HARNESS(gcd) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  ASSUME(vp_or(za != Z(0), zb != Z(0)));
  BigInt g = a.GetGreatestCommonDivisor(b);
  ENSURE(zof(g) != Z(0));
  Z ka = zof(a / g), kb = zof(b / g);
  ENSURE(ka * zof(g) == za);
  ENSURE(kb * zof(g) == zb);
  // the cofactors have no common divisor left
  BigInt g2 = big(ka).GetGreatestCommonDivisor(big(kb));
  ENSURE(vp_or(zof(g2) == Z(1), zof(g2) == Z(-1)));
  vp_cover("end");
}
