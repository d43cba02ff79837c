// Specification vocabulary used by the contract harnesses.
//
// A harness is a function VP_HARNESS(name) { ... } that calls the real code of
// /repo.  The verifier executes it symbolically over *all* inputs; the native
// runtime (vp_native.cc) executes the very same text on concrete inputs, for
// counterexample replay and for the search of a failing input.
#ifndef VP_H
#define VP_H
#include <cstddef>
#include <cstdint>

extern "C" {
void vp_assume(bool c);
void vp_ensure(bool c, const char* label);
// goal, proved from the (proved) facts a, b, c, d and nothing else
void vp_by(bool goal, const char* label, bool a, bool b, bool c, bool d);
// the path that reaches this point must be satisfiable (non-vacuity)
void vp_cover(const char* label);
// no effect; a long proof may be dealt out over processes at this point
void vp_slice();
// true in the native runs only
bool vp_native();
// all signed 64-bit values in [lo,hi]
int64_t vp_int(const char* name, int64_t lo, int64_t hi);
// all unsigned 64-bit values
uint64_t vp_u64(const char* name);
bool vp_bool(const char* name);
// every value in [0,n), each taken concretely (path split)
int vp_choice(const char* name, int n);
// case split: continue with c decided either way
bool vp_split(bool c);
bool vp_and(bool a, bool b);
bool vp_or(bool a, bool b);
bool vp_not(bool a);
bool vp_implies(bool a, bool b);
bool vp_iff(bool a, bool b);
bool vp_ite(bool c, bool a, bool b);

// ghost mathematical integers
uint64_t vpz_var(const char* name);          // any integer
uint64_t vpz_const(int64_t v);
uint64_t vpz_u64(uint64_t v);
uint64_t vpz_add(uint64_t a, uint64_t b);
uint64_t vpz_sub(uint64_t a, uint64_t b);
uint64_t vpz_mul(uint64_t a, uint64_t b);
bool vpz_lt(uint64_t a, uint64_t b);
bool vpz_le(uint64_t a, uint64_t b);
bool vpz_eq(uint64_t a, uint64_t b);
uint64_t vpz_ite(bool c, uint64_t a, uint64_t b);
// value of a walnut::BigInt
uint64_t vpz_of(const void* bigint);
// constructs, in raw storage, a BigInt with the given value
void vpz_make(void* bigint, uint64_t z);
// allocation of harness objects: `size` bytes of raw storage
void* vp_alloc(size_t size);
// true iff the memory at p has been freed
bool vp_is_freed(const void* p);
int64_t vp_live_allocs();
}

struct Z {
  uint64_t h;
  Z() : h(vpz_const(0)) {}
  Z(int v) : h(vpz_const(v)) {}
  Z(long v) : h(vpz_const(v)) {}
  struct raw {};
  Z(raw, uint64_t h) : h(h) {}
};
static inline Z zraw(uint64_t h) { return Z(Z::raw{}, h); }
static inline Z operator+(Z a, Z b) { return zraw(vpz_add(a.h, b.h)); }
static inline Z operator-(Z a, Z b) { return zraw(vpz_sub(a.h, b.h)); }
static inline Z operator-(Z a) { return zraw(vpz_sub(vpz_const(0), a.h)); }
static inline Z operator*(Z a, Z b) { return zraw(vpz_mul(a.h, b.h)); }
static inline bool operator<(Z a, Z b) { return vpz_lt(a.h, b.h); }
static inline bool operator>(Z a, Z b) { return vpz_lt(b.h, a.h); }
static inline bool operator<=(Z a, Z b) { return vpz_le(a.h, b.h); }
static inline bool operator>=(Z a, Z b) { return vpz_le(b.h, a.h); }
static inline bool operator==(Z a, Z b) { return vpz_eq(a.h, b.h); }
static inline bool operator!=(Z a, Z b) { return vp_not(vpz_eq(a.h, b.h)); }
static inline Z zite(bool c, Z a, Z b) { return zraw(vpz_ite(c, a.h, b.h)); }
static inline Z zvar(const char* n) { return zraw(vpz_var(n)); }
static inline Z zu(uint64_t v) { return zraw(vpz_u64(v)); }
static inline Z zi(int64_t v) { return zraw(vpz_const(v)); }
static inline bool same_sign(Z a, Z b) {
  return vp_and(vp_iff(a < Z(0), b < Z(0)), vp_iff(a == Z(0), b == Z(0)));
}
static inline bool opp_sign(Z a, Z b) { return same_sign(a, -b); }
// sign of machine int r equals sign of z
static inline bool sign_is(int64_t r, Z z) {
  return vp_and(vp_iff(r < 0, z < Z(0)), vp_iff(r == 0, z == Z(0)));
}

#define VP_STR2(x) #x
#define VP_STR(x) VP_STR2(x)
#ifdef VP_NATIVE
struct VpReg { VpReg(const char* n, void (*f)()); };
#define VP_HARNESS(name) static void vph_##name(); \
  static VpReg vpr_##name(#name, vph_##name); static void vph_##name()
#else
#define VP_HARNESS(name) extern "C" void vph_##name()
#endif
#define ENSURE(c) vp_ensure((c), #c)
// ENSURE_BY(goal, facts...), at most four facts; no bool variables in between
// (a symbolic bool that is stored splits the path)
#define ENSURE_BY(g, ...) VP_BY_(g, __VA_ARGS__, true, true, true)
#define VP_BY_(g, a, b, c, d, ...) vp_by((g), #g, (a), (b), (c), (d))
#define ENSUREL(c, l) vp_ensure((c), l)
#define ASSUME(c) vp_assume(c)
#endif
