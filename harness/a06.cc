// A06: word primitives: carries, double-width products, shifts, bit scans
#include "vp_int.h"

static BigUIntWord symw(const char* n) { return BigUIntWord((uint64_t)vp_u64(n)); }
static Z zw(const BigUIntWord& w) { return zraw(vpz_u64(w.low_uint64())); }
static Z zs(const BigUIntWord& w) { return zi((int64_t)w.low_uint64()); }
static Z zb(bool b) { return zite(b, Z(1), Z(0)); }
static Z B64() { return pow2w(1, 0); }

VP_HARNESS(add) {
  BigUIntWord a = symw("a"), b = symw("b");
  bool ci = vp_bool("ci"), co = false;
  BigUIntWord r = a.Add(b, ci, &co);
  ENSURE(zw(r) + zb(co) * B64() == zw(a) + zw(b) + zb(ci));
  bool c2 = false;
  r = a.Add(b, &c2);
  ENSURE(zw(r) + zb(c2) * B64() == zw(a) + zw(b));
  bool c3 = false;
  r = a.Add(ci, &c3);
  ENSURE(zw(r) + zb(c3) * B64() == zw(a) + zb(ci));
  r = a;
  r += b;
  ENSURE(vp_or(zw(r) == zw(a) + zw(b), zw(r) == zw(a) + zw(b) - B64()));
  ENSURE(zw(a.Add(b)) == zw(r));
  r = a;
  ++r;
  ENSURE(zw(r) == zw(a.Add(BigUIntWord(1))));
  vp_cover("end");
}
VP_HARNESS(add_aliased_carry) {
  BigUIntWord a = symw("a"), b = symw("b");
  bool c = vp_bool("ci");
  bool c0 = c;
  BigUIntWord r = a.Add(b, c, &c);
  ENSURE(zw(r) + zb(c) * B64() == zw(a) + zw(b) + zb(c0));
  c = c0;
  r = a.Subtract(b, c, &c);
  ENSURE(zw(r) - zb(c) * B64() == zw(a) - zw(b) - zb(c0));
  vp_cover("end");
}
VP_HARNESS(subtract) {
  BigUIntWord a = symw("a"), b = symw("b");
  bool ci = vp_bool("ci"), co = false;
  BigUIntWord r = a.Subtract(b, ci, &co);
  ENSURE(zw(r) - zb(co) * B64() == zw(a) - zw(b) - zb(ci));
  bool c2 = false;
  r = a.Subtract(b, &c2);
  ENSURE(zw(r) - zb(c2) * B64() == zw(a) - zw(b));
  bool c3 = false;
  r = a.Subtract(ci, &c3);
  ENSURE(zw(r) - zb(c3) * B64() == zw(a) - zb(ci));
  r = a;
  r -= b;
  ENSURE(vp_or(zw(r) == zw(a) - zw(b), zw(r) == zw(a) - zw(b) + B64()));
  ENSURE(zw(a.Subtract(b)) == zw(r));
  r = a;
  --r;
  ENSURE(zw(r) == zw(a.Subtract(BigUIntWord(1))));
  vp_cover("end");
}
VP_HARNESS(multiply) {
  BigUIntWord a = symw("a"), b = symw("b"), hi;
  BigUIntWord lo = a.Multiply(b, &hi);
  ENSURE(zw(lo) + zw(hi) * B64() == zw(a) * zw(b));
  vp_cover("end");
}
VP_HARNESS(multiply_signed) {
  BigUIntWord a = symw("a"), b = symw("b"), hi;
  BigUIntWord lo = a.MultiplySigned(b, &hi);
  ENSURE(zw(lo) + zs(hi) * B64() == zs(a) * zs(b));
  vp_cover("end");
}
VP_HARNESS(multiply_add) {
  BigUIntWord a = symw("a"), b = symw("b"), c = symw("c"), hi;
  bool ci = vp_bool("ci");
  BigUIntWord lo = a.MultiplyAdd(b, c, ci, &hi);
  ENSURE(zw(lo) + zw(hi) * B64() == zw(a) * zw(b) + zw(c) + zb(ci));
  // the high word may replace the addend
  BigUIntWord d = c;
  lo = a.MultiplyAdd(b, d, ci, &d);
  ENSURE(zw(lo) + zw(d) * B64() == zw(a) * zw(b) + zw(c) + zb(ci));
  vp_cover("end");
}
VP_HARNESS(half_words) {
  BigUIntWord a = symw("a");
  uint32_t h = (uint32_t)vp_int("h", 0, UINT32_MAX);
  ENSURE(zw(a) == zraw(vpz_u64(a.low_half_word())) + zraw(vpz_u64(a.high_half_word())) * pow2w(0, 32));
  ASSUME(zw(a) < pow2w(0, 32));
  ENSURE(zw(a.MultiplyAsHalfWord(h)) == zw(a) * zraw(vpz_u64(h)));
  ENSURE(zw(a.MultiplyAsHalfWord(BigUIntWord(h))) == zw(a) * zraw(vpz_u64(h)));
  vp_cover("end");
}
VP_HARNESS(compare) {
  BigUIntWord a = symw("a"), b = symw("b");
  ENSURE(sign_is(a.Compare(b), zw(a) - zw(b)));
  ENSURE(vp_iff(a < b, zw(a) < zw(b)));
  ENSURE(vp_iff(a <= b, zw(a) <= zw(b)));
  ENSURE(vp_iff(a > b, zw(a) > zw(b)));
  ENSURE(vp_iff(a >= b, zw(a) >= zw(b)));
  ENSURE(vp_iff(a == b, zw(a) == zw(b)));
  ENSURE(vp_iff(a != b, zw(a) != zw(b)));
  vp_cover("end");
}
VP_HARNESS(sign) {
  BigUIntWord a = symw("a");
  ENSURE(zs(a.SignExtension()) == zite(zs(a) < Z(0), Z(-1), Z(0)));
  ASSUME(zs(a) > -pow2w(0, 63));
  ENSURE(zw(a.SignedAbs()) == zite(zs(a) < Z(0), -zs(a), zs(a)));
  vp_cover("end");
}
VP_HARNESS(shift) {
  BigUIntWord a = symw("a"), h = symw("h");
  unsigned s = (unsigned)vp_choice("s", 64);
  Z p = pow2w(0, s);
  // x << s keeps the low 64 bits
  Z l = zw(a << s), top = zw(s ? a >> (64 - s) : BigUIntWord(0));
  ENSURE(l + top * B64() == zw(a) * p);
  Z r = zw(a >> s);
  ENSURE(vp_and(r * p <= zw(a), zw(a) < (r + Z(1)) * p));
  // the word at bit s of the double word h:a
  Z full = zw(a) + zw(h) * B64();
  Z m = zw(a.ShiftRight(h, s));
  Z up = zw(h >> s);
  Z w = m + up * B64();
  ENSURE(vp_and(w * p <= full, full < (w + Z(1)) * p));
  vp_cover("end");
}
VP_HARNESS(divide) {
  BigUIntWord a = symw("a"), b = symw("b");
  ASSUME(zw(b) != Z(0));
  Z q = zw(a / b), r = zw(a % b);
  ENSURE(q * zw(b) + r == zw(a));
  ENSURE(r < zw(b));
  vp_cover("end");
}
// the answer, k, is chosen; the word is any word with that answer
VP_HARNESS(highest_set_bit) {
  int k = vp_choice("k", 65);
  BigUIntWord a = symw("a");
  if (k == 0) {
    ASSUME(zw(a) == Z(0));
  } else {
    ASSUME(vp_and(zw(a) >= pow2w(0, k - 1), zw(a) < (k == 64 ? B64() : pow2w(0, k))));
  }
  ENSURE(a.GetHighestSetBit() == (unsigned)k);
  ENSURE(a.GetHighestSetBitUnaccelerated() == (unsigned)k);
  vp_cover("end");
}
VP_HARNESS(trailing_zeros) {
  int k = vp_choice("k", 64);
  // any odd number times 2^k
  uint64_t m = vp_u64("m");
  ASSUME(zraw(vpz_u64(m)) * Z(2) + Z(1) < pow2w(0, 64 - k >= 64 ? 63 : 64 - k) * (k == 0 ? Z(2) : Z(1)));
  BigUIntWord a((uint64_t)((2 * m + 1) << k));
  ENSURE(a.GetTrailingZeros() == (unsigned)k);
  ENSURE(a.GetTrailingZerosUnaccelerated() == (unsigned)k);
  vp_cover("end");
}
VP_HARNESS(trailing_zeros_of_zero) {
  BigUIntWord a;
  ENSURE(a.GetTrailingZeros() == 0);
  ENSURE(a.GetTrailingZerosUnaccelerated() == 0);
  vp_cover("end");
}
