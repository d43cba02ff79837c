// A05: order, sign, equality, hash, construction, assignment
#include "vp_int.h"

VP_HARNESS(compare) {
  BigInt a = symz("a"), b = symz("b");
  Z d = zof(a) - zof(b);
  ENSURE(sign_is(a.Compare(b), d));
  vp_cover("end");
}
VP_HARNESS(less) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  ENSURE(vp_iff(a < b, za < zb));
  ENSURE(vp_iff(a > b, za > zb));
  vp_cover("end");
}
VP_HARNESS(less_equal) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  ENSURE(vp_iff(a <= b, za <= zb));
  ENSURE(vp_iff(a >= b, za >= zb));
  vp_cover("end");
}
VP_HARNESS(less_than_flip) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  ENSURE(vp_iff(a.LessThan(false, b), za < zb));
  ENSURE(vp_iff(a.LessThan(true, b), za > zb));
  vp_cover("end");
}
VP_HARNESS(equal) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  ENSURE(vp_iff(a == b, za == zb));
  ENSURE(vp_iff(a != b, za != zb));
  vp_cover("end");
}
VP_HARNESS(compare_int) {
  BigInt a = symz("a");
  int k = (int)vp_int("k", INT32_MIN, INT32_MAX);
  Z za = zof(a);
  ENSURE(vp_iff(a < k, za < zi(k)));
  ENSURE(vp_iff(a <= k, za <= zi(k)));
  ENSURE(vp_iff(a > k, za > zi(k)));
  ENSURE(vp_iff(a >= k, za >= zi(k)));
  ENSURE(vp_iff(a == k, za == zi(k)));
  ENSURE(vp_iff(a != k, za != zi(k)));
  vp_cover("end");
}
VP_HARNESS(sign) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a), zb = zof(b);
  ENSURE(sign_is(a.GetSign(), za));
  ENSURE(vp_iff(a.IsZero(), za == Z(0)));
  ENSURE(vp_iff(a.IsNegative(), za < Z(0)));
  ENSURE(a.GetAbsMult() == 1 || a.GetAbsMult() == -1);
  ENSURE(vp_iff(a.GetAbsMult() < 0, za < Z(0)));
  ENSURE(a.GetAbsMult(b) == 1 || a.GetAbsMult(b) == -1);
  ENSURE(vp_iff(a.GetAbsMult(b) < 0, (za < Z(0)) != (zb < Z(0))));
  ENSURE(a.SignExtension() == 0 || a.SignExtension() == -1);
  ENSURE(vp_iff(a.SignExtension() < 0, za < Z(0)));
  ENSURE(vp_iff(a.HasSameSign(b), (za < Z(0)) == (zb < Z(0))));
  ENSURE(vp_iff(a.HasDifferentSign(b), (za < Z(0)) != (zb < Z(0))));
  vp_cover("end");
}
VP_HARNESS(construct) {
  int k = (int)vp_int("k", INT32_MIN, INT32_MAX);
  int64_t l = vp_int("l", INT64_MIN, INT64_MAX);
  BigInt a(k), b((BigIntWord)l), z;
  ENSURE(zof(a) == zi(k));
  ENSURE(zof(b) == zi(l));
  ENSURE(zof(z) == Z(0));
  ENSURE(canonical(a));
  ENSURE(canonical(b));
  ENSURE(canonical(z));
  BigInt c = symz("c");
  c = (BigIntWord)l;
  ENSURE(zof(c) == zi(l));
  ENSURE(canonical(c));
  vp_cover("end");
}
// contracts(copy_and_assign): words_sum
VP_HARNESS(copy_and_assign) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a);
  BigInt c(a);
  ENSURE(zof(c) == za);
  ENSURE(canonical(c));
  b = a;
  ENSURE(zof(b) == za);
  ENSURE(canonical(b));
  // copies are independent of the original
  b += 1;
  ENSURE(zof(a) == za);
  ENSURE(zof(c) == za);
  vp_cover("end");
}
VP_HARNESS(assign_self) {
  BigInt a = symz("a");
  Z za = zof(a);
  BigInt& r = a;
  a = r;
  ENSURE(zof(a) == za);
  vp_cover("end");
}
VP_HARNESS(move) {
  BigInt a = symz("a"), b = symz("b");
  Z za = zof(a);
  BigInt c(std::move(a));
  ENSURE(zof(c) == za);
  // the moved-from integer can be assigned again
  a = b;
  ENSURE(zof(a) == zof(b));
  b = std::move(c);
  ENSURE(zof(b) == za);
  ENSURE(canonical(b));
  c = a;
  ENSURE(zof(c) == zof(a));
  vp_cover("end");
}
// The representation with the fewest words is unique (A01..A04: canonical), so
// equal hashes of equal values follow when GetHash reads nothing but the words
// and their number: every read is an obligation here, and the native runs
// compare the hashes of two integers obtained in different ways.
VP_HARNESS(hash_equal) {
  Z z = zvar("a");
  BigInt a = big(z);
  Z za = zof(a);
  size_t ha = a.GetHash();
  ENSURE(zof(a) == za);
  if (vp_native()) {
    BigInt t = symz("t");
    BigInt b = a + t;
    b -= t;
    ENSURE(ha == b.GetHash());
    ENSURE(ha == BigInt(a).GetHash());
  }
  vp_cover("end");
}
