// A01: exact addition, subtraction, negation, increment, absolute value,
// including in-place forms with aliased operands
#include "vp_int.h"

// contracts(trim): words_notrim
VP_HARNESS(trim) {
  BigInt a = rawz("a");
  Z za = zof(a), n = zwords(a);
  a.Trim();
  ENSURE(zof(a) == za);
  ENSURE(canonical(a));
  ENSURE(zwords(a) <= n);
  vp_cover("end");
}
// parts(add): 5
VP_HARNESS(add) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  BigInt r = a + b;
  ENSURE(zof(r) == za + zb);
  ENSURE(canonical(r));
  ENSURE(zof(a) == za);
  ENSURE(zof(b) == zb);
  vp_cover("end");
}
// parts(subtract): 5
VP_HARNESS(subtract) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  BigInt r = a - b;
  ENSURE(zof(r) == za - zb);
  ENSURE(canonical(r));
  ENSURE(zof(a) == za);
  ENSURE(zof(b) == zb);
  vp_cover("end");
}
// parts(add_assign): 5
VP_HARNESS(add_assign) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  BigInt& r = (a += b);
  ENSURE(&r == &a);
  ENSURE(zof(a) == za + zb);
  ENSURE(canonical(a));
  ENSURE(zof(b) == zb);
  vp_cover("end");
}
// parts(subtract_assign): 5
VP_HARNESS(subtract_assign) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  BigInt& r = (a -= b);
  ENSURE(&r == &a);
  ENSURE(zof(a) == za - zb);
  ENSURE(canonical(a));
  ENSURE(zof(b) == zb);
  vp_cover("end");
}
VP_HARNESS(add_self) {
  BigInt a = symz("a");
  Z za = zof(a);
  a += a;
  ENSURE(zof(a) == za + za);
  ENSURE(canonical(a));
  vp_cover("end");
}
VP_HARNESS(subtract_self) {
  BigInt a = symz("a");
  a -= a;
  ENSURE(zof(a) == Z(0));
  ENSURE(canonical(a));
  vp_cover("end");
}
// contracts(add_int): words_sum
VP_HARNESS(add_int) {
  BigInt a = symz("a");
  int k = (int)vp_int("k", INT32_MIN, INT32_MAX);
  Z za = zof(a);
  ENSURE(zof(a + k) == za + zi(k));
  ENSURE(zof(a - k) == za - zi(k));
  vp_cover("end");
}
// contracts(add_assign_int): words_sum
VP_HARNESS(add_assign_int) {
  BigInt a = symz("a");
  int k = (int)vp_int("k", INT32_MIN, INT32_MAX);
  Z za = zof(a);
  a += k;
  ENSURE(zof(a) == za + zi(k));
  ENSURE(canonical(a));
  vp_cover("end");
}
// contracts(subtract_assign_int): words_sum
VP_HARNESS(subtract_assign_int) {
  BigInt a = symz("a");
  int k = (int)vp_int("k", INT32_MIN, INT32_MAX);
  Z za = zof(a);
  a -= k;
  ENSURE(zof(a) == za - zi(k));
  ENSURE(canonical(a));
  vp_cover("end");
}
VP_HARNESS(increment) {
  BigInt a = symz("a");
  Z za = zof(a);
  ++a;
  ENSURE(zof(a) == za + Z(1));
  ENSURE(canonical(a));
  vp_cover("end");
}
VP_HARNESS(decrement) {
  BigInt a = symz("a");
  Z za = zof(a);
  --a;
  ENSURE(zof(a) == za - Z(1));
  ENSURE(canonical(a));
  vp_cover("end");
}
VP_HARNESS(negate) {
  BigInt a = symz("a");
  Z za = zof(a);
  a.Negate();
  ENSURE(zof(a) == -za);
  ENSURE(canonical(a));
  vp_cover("end");
}
VP_HARNESS(unary_minus) {
  BigInt a = symz("a");
  Z za = zof(a);
  BigInt r = -a;
  ENSURE(zof(r) == -za);
  ENSURE(canonical(r));
  ENSURE(zof(a) == za);
  vp_cover("end");
}
VP_HARNESS(absolute) {
  BigInt a = symz("a");
  Z za = zof(a);
  BigInt r = a.abs();
  ENSURE(zof(r) == zabs_(za));
  ENSURE(canonical(r));
  bool neg = false;
  BigInt s = a.GetAbs(neg);
  ENSURE(zof(s) == zabs_(za));
  ENSURE(vp_iff(neg, za < Z(0)));
  ENSURE(canonical(s));
  ENSURE(zof(a) == za);
  vp_cover("end");
}
