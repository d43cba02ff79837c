// A04: left shift and the extreme values of a bit width
#include "vp_int.h"

// number of whole words of a shift: 2^40 words exceed any memory
static uint64_t words_of_shift() {
  if (vp_native()) {
    uint64_t q = (uint64_t)vp_int("q", 0, 9);
    return vp_int("far", 0, 63) == 63 ? q + 65530 : q;
  }
  return (uint64_t)vp_int("q", 0, 1ll << 40);
}

// parts(shift_left): 8
VP_HARNESS(shift_left) {
  BigInt a = symz("a");
  uint64_t q = words_of_shift();
  uint64_t s = (uint64_t)vp_choice("s", 64);
  Z za = zof(a);
  BigInt r = a << (size_t)(q * 64 + s);
  ENSURE(zof(r) == za * pow2w(q, s));
  ENSURE(canonical(r));
  ENSURE(zof(a) == za);
  vp_cover("end");
}
// parts(max_value): 4
VP_HARNESS(max_value) {
  uint64_t q = words_of_shift();
  uint64_t s = (uint64_t)vp_choice("s", 64);
  BigInt r = BigInt::max_value((size_t)(q * 64 + s));
  ENSURE(zof(r) == pow2w(q, s) - Z(1));
  ENSURE(canonical(r));
  vp_cover("end");
}
// parts(min_value): 4
VP_HARNESS(min_value) {
  uint64_t q = words_of_shift();
  uint64_t s = (uint64_t)vp_choice("s", 64);
  BigInt r = BigInt::min_value((size_t)(q * 64 + s));
  ENSURE(zof(r) == -pow2w(q, s));
  ENSURE(canonical(r));
  vp_cover("end");
}
