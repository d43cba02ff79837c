// Symbolic geometry objects and their mathematical readings.
#ifndef VP_GEOM_H
#define VP_GEOM_H
#include <new>
#include "vp.h"
#include "walnut/big_int.h"
#include "walnut/half_space2.h"
#include "walnut/half_space3.h"
#include "walnut/homo_point2.h"
#include "walnut/homo_point3.h"
#include "walnut/plucker_line.h"
#include "walnut/point2.h"
#include "walnut/point3.h"
#include "walnut/vector2.h"
#include "walnut/vector3.h"
using namespace walnut;

static inline Z zof(const BigInt& b) { return zraw(vpz_of(&b)); }
static inline BigInt big(Z z) { BigInt r; vpz_make(&r, z.h); return r; }
static inline BigInt symz(const char* n) { return big(zvar(n)); }

struct Z3 { Z x, y, z; Z3(Z x, Z y, Z z) : x(x), y(y), z(z) {} };
struct Z2 { Z x, y; Z2(Z x, Z y) : x(x), y(y) {} };
static inline Z dot(const Z3& a, const Z3& b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
static inline Z3 cross(const Z3& a, const Z3& b) {
  return Z3(a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x);
}
static inline Z3 operator-(const Z3& a, const Z3& b) { return Z3(a.x-b.x, a.y-b.y, a.z-b.z); }
static inline Z3 operator+(const Z3& a, const Z3& b) { return Z3(a.x+b.x, a.y+b.y, a.z+b.z); }
static inline Z3 operator*(const Z3& a, Z k) { return Z3(a.x*k, a.y*k, a.z*k); }
static inline Z3 operator-(const Z3& a) { return Z3(-a.x, -a.y, -a.z); }
static inline bool eq(const Z3& a, const Z3& b) { return vp_and(vp_and(a.x == b.x, a.y == b.y), a.z == b.z); }
static inline bool is_zero(const Z3& a) { return eq(a, Z3(0, 0, 0)); }
static inline Z det3(const Z3& a, const Z3& b, const Z3& c) { return dot(a, cross(b, c)); }
static inline Z dot(const Z2& a, const Z2& b) { return a.x*b.x + a.y*b.y; }
static inline Z cross(const Z2& a, const Z2& b) { return a.x*b.y - a.y*b.x; }
static inline bool eq(const Z2& a, const Z2& b) { return vp_and(a.x == b.x, a.y == b.y); }
static inline Z zabs_(Z a) { return zite(a < Z(0), -a, a); }

static inline Z3 v3(const Vector3& v) { return Z3(zof(v.x()), zof(v.y()), zof(v.z())); }
static inline Z3 v3(const Point3& v) { return Z3(zof(v.x()), zof(v.y()), zof(v.z())); }
static inline Z3 v3(const HomoPoint3& v) { return Z3(zof(v.x()), zof(v.y()), zof(v.z())); }
static inline Z w_(const HomoPoint3& v) { return zof(v.w()); }
static inline Z3 nrm(const HalfSpace3& h) { return Z3(zof(h.x()), zof(h.y()), zof(h.z())); }
static inline Z d_(const HalfSpace3& h) { return zof(h.d()); }
static inline Z2 v2(const Vector2& v) { return Z2(zof(v.x()), zof(v.y())); }
static inline Z2 v2(const Point2& v) { return Z2(zof(v.x()), zof(v.y())); }
static inline Z2 v2(const HomoPoint2& v) { return Z2(zof(v.x()), zof(v.y())); }
static inline Z w_(const HomoPoint2& v) { return zof(v.w()); }
static inline Z2 nrm(const HalfSpace2& h) { return Z2(zof(h.x()), zof(h.y())); }
static inline Z d_(const HalfSpace2& h) { return zof(h.d()); }

static inline Vector3 sym_vector3() { return Vector3(symz("vx"), symz("vy"), symz("vz")); }
static inline Point3 sym_point3() { return Point3(symz("px"), symz("py"), symz("pz")); }
static inline HalfSpace3 sym_plane() { return HalfSpace3(symz("nx"), symz("ny"), symz("nz"), symz("d")); }
static inline Vector2 sym_vector2() { return Vector2(symz("vx"), symz("vy")); }
static inline Point2 sym_point2() { return Point2(symz("px"), symz("py")); }
static inline HalfSpace2 sym_line2() { return HalfSpace2(symz("nx"), symz("ny"), symz("d")); }
// any homogeneous point with a nonzero denominator (of either sign)
static inline HomoPoint3 sym_homo3() {
  Z w = zvar("w");
  ASSUME(w != Z(0));
  return HomoPoint3(symz("hx"), symz("hy"), symz("hz"), big(w));
}
static inline HomoPoint2 sym_homo2() {
  Z w = zvar("w");
  ASSUME(w != Z(0));
  return HomoPoint2(symz("hx"), symz("hy"), big(w));
}
static inline bool valid(const HalfSpace3& h) { return vp_not(is_zero(nrm(h))); }
// sign of (homogeneous value n) / w
static inline Z over(Z n, Z w) { return n * w; }
// a is a positive multiple of b (or both are zero): parallel, and no component
// changes sign
static inline bool same_dir(const Z3& a, const Z3& b) {
  return vp_and(is_zero(cross(a, b)),
                vp_and(same_sign(a.x, b.x), vp_and(same_sign(a.y, b.y), same_sign(a.z, b.z))));
}
static inline bool same_dir(const Z2& a, const Z2& b) {
  return vp_and(cross(a, b) == Z(0), vp_and(same_sign(a.x, b.x), same_sign(a.y, b.y)));
}
#endif
