// A02: exact multiplication
#include "vp_int.h"

// parts(multiply): 8
VP_HARNESS(multiply) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  BigInt r = a * b;
  ENSURE(zof(r) == za * zb);
  ENSURE(canonical(r));
  ENSURE(zof(a) == za);
  ENSURE(zof(b) == zb);
  vp_cover("end");
}
// contracts(multiply_assign): words_arith
VP_HARNESS(multiply_assign) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  a *= b;
  ENSURE(zof(a) == za * zb);
  ENSURE(canonical(a));
  vp_cover("end");
}
// parts(square_in_place): 2
VP_HARNESS(square_in_place) {
  BigInt a = symz("a");
  Z za = zof(a);
  a *= a;
  ENSURE(zof(a) == za * za);
  vp_cover("end");
}
// contracts(multiply_int): words_arith
VP_HARNESS(multiply_int) {
  BigInt a = symz("a");
  int k = (int)vp_int("k", INT32_MIN, INT32_MAX);
  int64_t l = vp_int("l", INT64_MIN, INT64_MAX);
  Z za = zof(a);
  ENSURE(zof(a * k) == za * zi(k));
  ENSURE(zof(k * a) == za * zi(k));
  ENSURE(zof(a * (BigIntWord)l) == za * zi(l));
  a *= k;
  ENSURE(zof(a) == za * zi(k));
  vp_cover("end");
}
// contracts(add_multiply): words_arith
VP_HARNESS(add_multiply) {
  BigInt s = symz("s"), a = symz("a"), b = symz("b");
  Z zs = zof(s), za = zof(a), zb = zof(b);
  s.AddMultiply(a, b);
  ENSURE(zof(s) == zs + za * zb);
  ENSURE(canonical(s));
  vp_cover("end");
}
// contracts(subtract_multiply): words_arith
VP_HARNESS(subtract_multiply) {
  BigInt s = symz("s"), a = symz("a"), b = symz("b");
  Z zs = zof(s), za = zof(a), zb = zof(b);
  s.SubtractMultiply(a, b);
  ENSURE(zof(s) == zs - za * zb);
  ENSURE(canonical(s));
  vp_cover("end");
}
// contracts(determinant): words_arith
// parts(determinant): 4
VP_HARNESS(determinant) {
  BigInt a = symz("a"), b = symz("b"), c = symz("c"), d = symz("d");
  vp_slice();
  BigInt r = BigInt::Determinant(a, b, c, d);
  ENSURE(zof(r) == zof(a) * zof(d) - zof(b) * zof(c));
  vp_cover("end");
}
