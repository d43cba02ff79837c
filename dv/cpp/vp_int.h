#ifndef VP_INT_H
#define VP_INT_H
#include "vp.h"
#include "walnut/big_int.h"
#include "walnut/big_uint.h"
using namespace walnut;
static inline Z zof(const BigInt& b) { return zraw(vpz_of(&b)); }
static inline BigInt big(Z z) { BigInt r; vpz_make(&r, z.h); return r; }
static inline BigInt symz(const char* n) { return big(zvar(n)); }
static inline Z zabs_(Z a) { return zite(a < Z(0), -a, a); }
extern "C" bool vpz_canonical(const void* bigint);
extern "C" uint64_t vpz_pow2(uint64_t k);
// any word array with value z: the fewest words plus, natively, `extra` more
extern "C" void vpz_make_raw(void* bigint, uint64_t z, int64_t extra);
extern "C" uint64_t vpz_words(const void* bigint);
// 2^(64 q + s)
extern "C" uint64_t vpz_pow2w(uint64_t q, uint64_t s);
static inline Z zwords(const BigInt& b) { return zraw(vpz_words(&b)); }
static inline Z pow2w(uint64_t q, uint64_t s) { return zraw(vpz_pow2w(q, s)); }
static inline BigInt rawz(const char* n) {
  BigInt r;
  Z z = zvar(n);
  vpz_make_raw(&r, z.h, vp_int("extra", 0, 4));
  return r;
}
// the representation uses the fewest words
static inline bool canonical(const BigInt& b) { return vpz_canonical(&b); }
#endif
