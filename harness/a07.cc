// A07: the word container behaves as a value.  `w[i]` is the real accessor; the
// watched index k is arbitrary, so what holds for w[k] holds for every word.
#include "vp_int.h"
extern "C" {
// any number of words (at least one)
uint64_t vpw_size(const char* name);
// any container that satisfies the class invariant
void vpw_make(void* words);
bool vpw_valid(const void* words);
// the index that loop invariants speak about
void vpw_watch(uint64_t k);
}
static inline uint64_t at(const BigIntWords& w, uint64_t k) { return w[k].low_uint64(); }
static inline uint64_t watch() {
  uint64_t k = (uint64_t)vp_int("k", 0, vp_native() ? 12 : 1ll << 40);
  vpw_watch(k);
  return k;
}

VP_HARNESS(fresh) {
  {
    BigIntWords w1;
    ENSURE(w1.size() == 1);
    ENSURE(at(w1, 0) == 0);
    ENSURE(vpw_valid(&w1));
    uint64_t n = vpw_size("n");
    BigIntWords w2((int)(n & 0xffffff) + 1);
    ENSURE(w2.size() == (n & 0xffffff) + 1);
    ENSURE(w2.extra_size() == (n & 0xffffff));
    ENSURE(vpw_valid(&w2));
  }
  ENSURE(vp_live_allocs() == 0);
  vp_cover("end");
}
// a write through operator[] or first() is seen there and nowhere else
VP_HARNESS(element_write) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t k = watch(), v = vp_u64("v");
    uint64_t i = (uint64_t)vp_int("i", 0, vp_native() ? 12 : 1ll << 40);
    ASSUME(vp_and(k < w1.size(), i < w1.size()));
    uint64_t n = w1.size(), old = at(w1, k);
    w1[i] = BigUIntWord{(unsigned long)v};
    ENSURE(w1.size() == n);
    ENSURE(at(w1, k) == (i == k ? v : old));
    ENSURE(w1.first().low_uint64() == at(w1, 0));
    uint64_t u = vp_u64("u");
    uint64_t before = at(w1, k);
    w1.first() = BigUIntWord{(unsigned long)u};
    ENSURE(at(w1, k) == (k == 0 ? u : before));
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(copy) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t k = watch(), v = vp_u64("v");
    ASSUME(k < w1.size());
    uint64_t n = w1.size(), a = at(w1, k);
    BigIntWords w2(w1);
    ENSURE(w2.size() == n);
    ENSURE(at(w2, k) == a);
    ENSURE(vpw_valid(&w2));
    w2[k] = BigUIntWord{(unsigned long)v};
    ENSUREL(w1.size() == n, "the copy does not change the original");
    ENSUREL(at(w1, k) == a, "writing to the copy does not change the original");
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(copy_prefix) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t k = watch(), used = vpw_size("used");
    ASSUME(vp_and(used <= w1.size(), k < w1.size()));
    uint64_t n = w1.size(), a = at(w1, k);
    BigIntWords w2(w1, used);
    ENSURE(w2.size() == used);
    if (k < used) ENSURE(at(w2, k) == a);
    ENSURE(vpw_valid(&w2));
    ENSURE(vp_and(w1.size() == n, at(w1, k) == a));
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(copy_extended) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t k = watch(), used = vpw_size("used"), m = vpw_size("copied");
    ASSUME(vp_and(vp_and(m <= used, m <= w1.size()), k < used));
    uint64_t a = k < m ? at(w1, k) : 0;
    BigIntWords w2(used, m, w1);
    ENSURE(w2.size() == used);
    ENSUREL(at(w2, k) == a, "copied words, then zeros");
    ENSURE(vpw_valid(&w2));
    if (k < m) ENSURE(at(w1, k) == a);
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(move) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t k = watch();
    ASSUME(k < w1.size());
    uint64_t n = w1.size(), a = at(w1, k);
    BigIntWords w2(static_cast<BigIntWords&&>(w1));
    ENSURE(w2.size() == n);
    ENSURE(at(w2, k) == a);
    ENSURE(vpw_valid(&w2));
    // a moved-from container can be assigned to
    w1 = w2;
    ENSURE(w1.size() == n);
    ENSURE(at(w1, k) == a);
    ENSURE(vpw_valid(&w1));
    ENSURE(at(w2, k) == a);
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(assign) {
  {
    BigIntWords w1, w2;
    vpw_make(&w1);
    vpw_make(&w2);
    uint64_t k = watch(), v = vp_u64("v");
    ASSUME(k < w1.size());
    uint64_t n = w1.size(), a = at(w1, k);
    BigIntWords& r = (w2 = w1);
    ENSURE(&r == &w2);
    ENSURE(w2.size() == n);
    ENSURE(at(w2, k) == a);
    ENSURE(vpw_valid(&w2));
    w2[k] = BigUIntWord{(unsigned long)v};
    ENSURE(vp_and(w1.size() == n, at(w1, k) == a));
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(assign_prefix) {
  {
    BigIntWords w1, w2;
    vpw_make(&w1);
    vpw_make(&w2);
    uint64_t k = watch(), used = vpw_size("used");
    ASSUME(vp_and(k < used, used <= w1.size()));
    uint64_t a = at(w1, k);
    w2.Assign(w1, used);
    ENSURE(w2.size() == used);
    ENSURE(at(w2, k) == a);
    ENSURE(vpw_valid(&w2));
    ENSURE(at(w1, k) == a);
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(assign_self) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t k = watch(), used = vpw_size("used");
    ASSUME(vp_and(k < used, used <= w1.size()));
    uint64_t n = w1.size(), a = at(w1, k);
    BigIntWords& alias = w1;
    w1 = alias;
    ENSURE(w1.size() == n);
    ENSURE(at(w1, k) == a);
    w1 = static_cast<BigIntWords&&>(alias);
    ENSURE(w1.size() == n);
    ENSURE(at(w1, k) == a);
    w1.Assign(alias, used);
    ENSURE(w1.size() == used);
    ENSURE(at(w1, k) == a);
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(move_assign) {
  {
    BigIntWords w1, w2;
    vpw_make(&w1);
    vpw_make(&w2);
    uint64_t k = watch();
    ASSUME(k < w1.size());
    uint64_t n = w1.size(), a = at(w1, k);
    BigIntWords& r = (w2 = static_cast<BigIntWords&&>(w1));
    ENSURE(&r == &w2);
    ENSURE(w2.size() == n);
    ENSURE(at(w2, k) == a);
    ENSURE(vpw_valid(&w2));
    w1 = w2;
    ENSURE(w1.size() == n);
    ENSURE(at(w1, k) == a);
    ENSURE(vpw_valid(&w1));
    ENSURE(vp_and(w2.size() == n, at(w2, k) == a));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(push) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t k = watch(), v = vp_u64("v");
    ASSUME(k < w1.size());
    uint64_t n = w1.size(), a = at(w1, k);
    w1.push_back(BigUIntWord{(unsigned long)v});
    ENSURE(w1.size() == n + 1);
    ENSURE(at(w1, k) == a);
    ENSURE(at(w1, n) == v);
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(resized) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t k = watch(), m = vpw_size("size");
    ASSUME(vp_and(k < w1.size(), k < m));
    uint64_t a = at(w1, k);
    w1.resize(m);
    ENSURE(w1.size() == m);
    ENSUREL(at(w1, k) == a, "resize keeps the words that remain");
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(resized_fill) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t k = watch(), m = vpw_size("size"), v = vp_u64("v");
    ASSUME(k < m);
    uint64_t n = w1.size();
    uint64_t a = k < n ? at(w1, k) : v;
    w1.resize(m, BigUIntWord{(unsigned long)v});
    ENSURE(w1.size() == m);
    ENSUREL(at(w1, k) == a, "resize keeps the words that remain and fills the new ones");
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
VP_HARNESS(resized_raw) {
  {
    BigIntWords w1;
    vpw_make(&w1);
    uint64_t m = vpw_size("size");
    w1.resize_without_copy(m);
    ENSURE(w1.size() == m);
    ENSURE(vpw_valid(&w1));
    // every word of the new size can be written
    uint64_t k = watch(), v = vp_u64("v");
    ASSUME(k < m);
    w1[k] = BigUIntWord{(unsigned long)v};
    ENSURE(at(w1, k) == v);
    ENSURE(vpw_valid(&w1));
    vp_cover("end");
  }
  ENSURE(vp_live_allocs() == 0);
}
